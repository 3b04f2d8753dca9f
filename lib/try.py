import sys, random, json, os, time
sys.path.insert(0, os.path.dirname(__file__))
import pbv, gen, profiles
prof, n, seed = sys.argv[1], int(sys.argv[2]), int(sys.argv[3])
pb = os.environ.get("PB") or pbv.build()
progs = []
t=time.time()
for i in range(n):
    r = random.Random("%d/%s/%d" % (seed, prof, i))
    w, o = profiles.P[prof]
    progs.append(gen.Gen(r, w, o).program("p%d" % i, gen.ROOT))
t1=time.time()
want = pbv.expect(progs)
t2=time.time()
got = pbv.observe_all(pb, progs)
t3=time.time()
bad = 0; skip = 0
for p, g in zip(progs, got):
    w = want[p["id"]]
    if w["n"] < 0: skip += 1; continue
    d = pbv.differs(w, g, p)
    if d:
        bad += 1
        if bad <= int(os.environ.get("SHOW", "3")):
            print("=====", p["id"], p["args"], repr(p["stdin"]))
            for f in p["files"]:
                if f.endswith(".bat"): print("---", f); print(p["files"][f])
            print(d[0]); print("WANT", repr(d[1])[:1500]); print("GOT ", repr(d[2])[:1500])
            if g["err"] != w["err"]: print("err want", repr(w["err"])[:300], "got", repr(g["err"])[:300])
print("%d programs, %d differ, %d skipped; gen %.1f spec %.1f impl %.1f; steps %d" % (n, bad, skip, t1-t, t2-t1, t3-t2, sum(max(0,w["n"]) for w in want.values())))
pbv.cleanup()
