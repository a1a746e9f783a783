#ifndef RFH_H
#define RFH_H
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <unistd.h>
#include <fcntl.h>
#include <math.h>
#include "core/rayforce.h"
#include "core/format.h"
#include "core/unary.h"
#include "core/heap.h"
#include "core/eval.h"
#include "core/hash.h"
#include "core/symbols.h"
#include "core/string.h"
#include "core/util.h"
#include "core/ops.h"
#include "core/parse.h"
#include "core/runtime.h"
#include "core/cmp.h"
#include "core/pool.h"
#include "core/sys.h"
#include "core/serde.h"
#include "core/error.h"
#include "core/env.h"
#include "core/query.h"
#include "core/items.h"
#include "core/vary.h"
#include "core/lambda.h"
#include "core/guid.h"
#include "core/fs.h"
void mon_peak_reset(void);
void mon_sites(FILE *f);
long long mon_peak(void);
/* further frames of harnesses built on this one */
int frame_ext(char *line, FILE *out) __attribute__((weak));
void dump(FILE *f, obj_p o);
extern int dump_quoted;
long long mon_live_blocks(void), mon_live_bytes(void), mon_allocs(void), mon_frees(void);
void *__real_realloc_libc(void *, size_t);
#endif
