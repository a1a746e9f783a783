"""Interactive helper: python3 lib/x.py [-v variant] [-c cores] expr..."""
import sys, drv, json
a = sys.argv[1:]
v, c = "asan", 1
while a and a[0] in ("-v", "-c"):
    if a[0] == "-v": v = a[1]
    else: c = int(a[1])
    a = a[2:]
r = drv.Rfh(v, c)
for e in a or sys.stdin.read().split("\n"):
    if not e.strip(): continue
    try:
        x = r.one(drv.Rfh.L(e, 4))
        print(e, "=>", json.dumps(x["v"])[:600], "   ", "d", x["d"], "st", x["st"])
    except drv.Died as d:
        print(e, "=> DIED", d.how, d.text[:1800]); r.close(); r = drv.Rfh(v, c)
