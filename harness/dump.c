/* Canonical JSON dump of an object, reading the representation directly: it does not go
 * through the code's own formatter, serialiser, indexing or value() functions. */
#include "rfh.h"

static void jstr(FILE *f, const char *s, long long n) {
    long long i;
    fputc('"', f);
    for (i = 0; i < n; i++) {
        unsigned char c = s[i];
        if (c == '"' || c == '\\')
            fprintf(f, "\\%c", c);
        else if (c < 32 || c > 126)
            fprintf(f, "\\u%04x", c);
        else
            fputc(c, f);
    }
    fputc('"', f);
}
static void jf(FILE *f, double d) {
    if (isnan(d) || (((union { double d; unsigned long long u; }){d}).u & 0x7ff0000000000000ull) == 0x7ff0000000000000ull) {
        unsigned long long u = ((union { double d; unsigned long long u; }){d}).u;
        if (u & 0xfffffffffffffull)
            fputs("NaN", f);
        else
            fputs(u >> 63 ? "-Infinity" : "Infinity", f);
    } else
        fprintf(f, "%.17g%s", d, d == (long long)d && fabs(d) < 1e15 ? ".0" : "");
}
static void jsym(FILE *f, long long id) {
    if (id == NULL_I64)
        fputs("null", f);
    else if (id < 0 || id >= symbols_count(runtime_get()->symbols))
        fprintf(f, "\"<badsym %lld>\"", id);
    else
        jstr(f, str_from_symbol(id), symbol_strlen(id));
}
static void jguid(FILE *f, const unsigned char *g) {
    int i;
    fputc('"', f);
    for (i = 0; i < 16; i++)
        fprintf(f, "%02x", g[i]);
    fputc('"', f);
}
static const char *vname(int t) {
    switch (t) {
        case TYPE_B8: return "B8";
        case TYPE_U8: return "U8";
        case TYPE_I16: return "I16";
        case TYPE_I32: return "I32";
        case TYPE_I64: return "I64";
        case TYPE_SYMBOL: return "SYMBOL";
        case TYPE_DATE: return "DATE";
        case TYPE_TIME: return "TIME";
        case TYPE_TIMESTAMP: return "TIMESTAMP";
        case TYPE_F64: return "F64";
        case TYPE_GUID: return "GUID";
        case TYPE_C8: return "C8";
    }
    return "?";
}
static const char *aname(int t) {
    switch (t) {
        case TYPE_B8: return "b8";
        case TYPE_U8: return "u8";
        case TYPE_I16: return "i16";
        case TYPE_I32: return "i32";
        case TYPE_I64: return "i64";
        case TYPE_SYMBOL: return "symbol";
        case TYPE_DATE: return "date";
        case TYPE_TIME: return "time";
        case TYPE_TIMESTAMP: return "timestamp";
        case TYPE_F64: return "f64";
        case TYPE_GUID: return "guid";
        case TYPE_C8: return "c8";
    }
    return "?";
}
int dump_quoted;  /* tell quoted symbols from bare ones */
static void dump1(FILE *f, obj_p o);
void dump(FILE *f, obj_p o) {
    static int depth;
    if (depth > 600) {
        fputs("[\"deep\"]", f);
        return;
    }
    depth++;
    dump1(f, o);
    depth--;
}
static void dump1(FILE *f, obj_p o) {
    long long i;
    int t;
    if (o == NULL) {
        fputs("[\"NULLPTR\"]", f);
        return;
    }
    t = o->type;
    if (t == TYPE_NULL) {
        fputs("[\"null\"]", f);
        return;
    }
    if (t == TYPE_ERR) {
        fputs("[\"err\",", f);
        jstr(f, err_name(err_code(o)), strlen(err_name(err_code(o))));
        fputs("]", f);
        return;
    }
    switch (-t) {
        case TYPE_B8: fprintf(f, "[\"b8\",%d]", (unsigned char)o->b8); return;
        case TYPE_U8: fprintf(f, "[\"u8\",%d]", o->u8); return;
        case TYPE_I16: fprintf(f, "[\"i16\",%d]", o->i16); return;
        case TYPE_I32: case TYPE_DATE: case TYPE_TIME: fprintf(f, "[\"%s\",%d]", aname(-t), o->i32); return;
        case TYPE_I64: case TYPE_TIMESTAMP: fprintf(f, "[\"%s\",%lld]", aname(-t), o->i64); return;
        case TYPE_SYMBOL: fprintf(f, "[\"%s\",", dump_quoted && (o->attrs & ATTR_QUOTED) ? "qsymbol" : "symbol"); jsym(f, o->i64); fputs("]", f); return;
        case TYPE_F64: fputs("[\"f64\",", f); jf(f, o->f64); fputs("]", f); return;
        case TYPE_C8: fputs("[\"c8\",", f); jstr(f, &o->c8, 1); fputs("]", f); return;
        case TYPE_GUID: fputs("[\"guid\",", f); jguid(f, (unsigned char *)AS_GUID(o)[0]); fputs("]", f); return;
    }
#define VEC(fmt, acc, cast)                      \
    fprintf(f, "[\"%s\",[", vname(t));           \
    for (i = 0; i < o->len; i++)                 \
        fprintf(f, i ? "," fmt : fmt, (cast)acc(o)[i]); \
    fputs("]]", f);                              \
    return;
    switch (t) {
        case TYPE_B8: VEC("%d", AS_U8, int)
        case TYPE_U8: VEC("%d", AS_U8, int)
        case TYPE_I16: VEC("%d", AS_I16, int)
        case TYPE_I32: case TYPE_DATE: case TYPE_TIME: VEC("%d", AS_I32, int)
        case TYPE_I64: case TYPE_TIMESTAMP: VEC("%lld", AS_I64, long long)
        case TYPE_SYMBOL:
            fputs("[\"SYMBOL\",[", f);
            for (i = 0; i < o->len; i++) {
                if (i) fputc(',', f);
                jsym(f, AS_I64(o)[i]);
            }
            fputs("]]", f);
            return;
        case TYPE_F64:
            fputs("[\"F64\",[", f);
            for (i = 0; i < o->len; i++) {
                if (i) fputc(',', f);
                jf(f, AS_F64(o)[i]);
            }
            fputs("]]", f);
            return;
        case TYPE_GUID:
            fputs("[\"GUID\",[", f);
            for (i = 0; i < o->len; i++) {
                if (i) fputc(',', f);
                jguid(f, (unsigned char *)AS_GUID(o)[i]);
            }
            fputs("]]", f);
            return;
        case TYPE_C8:
            fputs("[\"C8\",", f);
            jstr(f, AS_C8(o), o->len);
            fputs("]", f);
            return;
        case TYPE_TABLE:
        case TYPE_DICT:
            fputs(t == TYPE_TABLE ? "[\"table\"," : "[\"dict\",", f);
            dump(f, AS_LIST(o)[0]);
            fputc(',', f);
            dump(f, AS_LIST(o)[1]);
            fputs("]", f);
            return;
        case TYPE_LAMBDA:
            fputs("[\"lambda\",", f);
            dump(f, AS_LAMBDA(o)->args);
            fputc(',', f);
            dump(f, AS_LAMBDA(o)->body);
            fputs("]", f);
            return;
        case TYPE_UNARY:
        case TYPE_BINARY:
        case TYPE_VARY:
            fputs("[\"fn\",", f);
            jstr(f, env_get_internal_name(o), strlen(env_get_internal_name(o)));
            fputs("]", f);
            return;
        case TYPE_ENUM:
            if (o->mmod == MMOD_INTERNAL) {
                fputs("[\"enum\",", f);
                dump(f, AS_LIST(o)[0]);
                fputc(',', f);
                dump(f, AS_LIST(o)[1]);
                fputs("]", f);
            } else {
                fputs("[\"enumx\",", f);
                jstr(f, ENUM_KEY(o), strlen(ENUM_KEY(o)));
                fputs(",[", f);
                for (i = 0; i < o->len; i++)
                    fprintf(f, i ? ",%lld" : "%lld", AS_I64(o)[i]);
                fputs("]]", f);
            }
            return;
        case TYPE_MAPLIST: {
            obj_p v = ray_value(o);
            fputs("[\"maplist\",", f);
            dump(f, v);
            fputs("]", f);
            drop_obj(v);
            return;
        }
        case TYPE_LIST:
        default:
            if (t == TYPE_LIST || (t >= TYPE_PARTEDLIST && t <= TYPE_PARTEDENUM) || t == TYPE_MAPCOMMON ||
                t == TYPE_MAPFILTER || t == TYPE_MAPGROUP) {
                if (t == TYPE_LIST)
                    fputs("[\"list\",[", f);
                else
                    fprintf(f, "[\"t%d\",[", t);
                for (i = 0; i < o->len; i++) {
                    if (i) fputc(',', f);
                    dump(f, AS_LIST(o)[i]);
                }
                fputs("]]", f);
                return;
            }
            fprintf(f, "[\"?%d\"]", t);
    }
}
