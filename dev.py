import sys, time
sys.path.insert(0, "/verif")
from pyvc.load import make_world
from pyvc import contract as C
w, reg = make_world()
names = sys.argv[1:]
v = "-v" in names
names = [n for n in names if n != "-v"]
sys.setrecursionlimit(20000)
for n, c in reg.items():
    if names and not any((x == n) if x.startswith("=") is False and "." in x else x.lstrip("=") in n or x in c.props for x in names):
        continue
    t = time.time()
    try:
        r = C.verify(c, w, verbose=v)
    except Exception as e:
        import traceback; traceback.print_exc()
        print("ERROR", n, type(e), e); continue
    print(f"{r.status:10s} {n:40s} paths={r.paths} obls={len(r.obls)} t={time.time()-t:.1f} {r.reason[:150]}", flush=True)
