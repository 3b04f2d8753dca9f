"""mini.py PROFILE N SEED: programs of one or two commands, differences grouped"""
import sys, random, os
sys.path.insert(0, os.path.dirname(__file__))
import pbv, gen, profiles
prof, n, seed = sys.argv[1], int(sys.argv[2]), int(sys.argv[3])
pb = os.environ.get("PB") or pbv.build()
w, o = profiles.P[prof]
o = dict(o, nseg=[1], nline=1, nsub=0, chain=0, probe=1)
w = {k: (0 if k in ("if", "for", "block", "call", "callfile", "child") else v) for k, v in w.items()}
progs = [gen.Gen(random.Random("%d/%s/%d" % (seed, prof, i)), w, o).program("p%d" % i, gen.ROOT) for i in range(n)]
want = pbv.expect(progs)
got = pbv.observe_all(pb, progs)
bad = 0
for p, g in zip(progs, got):
    wt = want[p["id"]]
    if wt["n"] < 0: continue
    d = pbv.differs(wt, g, p)
    if d:
        bad += 1
        if bad <= int(os.environ.get("SHOW", "12")):
            print("=====", p["id"], repr(p["files"][p["main"]].split("echo end")[0]), d[0], repr(d[1])[:300], "GOT", repr(d[2])[:300], "" if d[0].endswith("error") else "ERR %r %r" % (wt["err"][:200], g["err"][:200]))
print(bad, "of", n, "skipped", sum(want[p["id"]]["n"] < 0 for p in progs))
pbv.cleanup()
