"""dbg.py PROFILE SEED I: one generated program through the spec, with TLC's own output"""
import sys, random, json, os
sys.path.insert(0, os.path.dirname(__file__))
import pbv, gen, profiles
prof, seed, i = sys.argv[1], int(sys.argv[2]), int(sys.argv[3])
r = random.Random("%d/%s/%d" % (seed, prof, i))
w, o = profiles.P[prof]
p = gen.Gen(r, w, o).program("p%d" % i, gen.ROOT)
f = pbv.scratch() + "/p.json"; json.dump([p], open(f, "w"))
for n in p["files"]:
    if n.endswith(".bat"): print("---", n); print(p["files"][n])
rc, out = pbv.tlc("Run", "Run.cfg", {"PROGRAMS": f}, workers=1, extra=["-dump", pbv.scratch() + "/d.txt"])
print(pbv.tail(out)[-1500:])
t = open(pbv.scratch() + "/d.txt.dump").read() if os.path.exists(pbv.scratch() + "/d.txt.dump") else ""
print(t[-2500:])
pbv.cleanup()
