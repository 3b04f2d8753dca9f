"""show.py PROFILE SEED I | REPLAY.json: one program, reduced, and both observations"""
import sys, random, json, os
sys.path.insert(0, os.path.dirname(__file__))
import pbv, gen, profiles
if sys.argv[1].endswith(".json"):
    p = json.load(open(sys.argv[1]))["program"]
else:
    prof, seed, i = sys.argv[1], int(sys.argv[2]), int(sys.argv[3])
    r = random.Random("%d/%s/%d" % (seed, prof, i))
    w, o = profiles.P[prof]
    p = gen.Gen(r, w, o).program("p%d" % i, gen.ROOT)
pb = os.environ.get("PB") or pbv.build()
def diff(p):
    w = pbv.expect([p])[p["id"]]; g = pbv.observe(pb, p)
    return pbv.differs(w, g, p) if w["n"] >= 0 else None, w, g
d, w, g = diff(p)
# reduction by lines of the main script
main = p["main"]
if d:
    changed = True
    while changed:
        changed = False
        for f in [n for n in p["files"] if n.endswith(".bat")]:
            ls = p["files"][f].split("\n")
            for step in (8, 4, 2, 1):
                k = 1
                while k < len(ls):
                    q = dict(p, files=dict(p["files"]))
                    q["files"][f] = "\n".join(ls[:k] + ls[k + step:])
                    try: d2 = diff(q)[0]
                    except pbv.Infra: d2 = None
                    if d2: p = q; ls = p["files"][f].split("\n"); changed = True
                    else: k += step
d, w, g = diff(p)
for f in p["files"]:
    if f.endswith(".bat"): print("---", f); print(p["files"][f])
print(p["args"], repr(p["stdin"])); print(d); print("WANT", repr(w["out"]), repr(w["err"]), w["code"]); print("GOT ", repr(g["out"]), repr(g["err"]), g["code"])
pbv.cleanup()
