#!/usr/bin/env python3
"""check.py PROPERTY [--tier quick|thorough]: decides one property.

Exit 0: it held on everything explored.  Exit 1 and a line
"VIOLATION property=<id> replay=<path>": it is broken.  Exit 2: the machinery
itself failed, which says nothing about the property.
"""
import argparse, json, os, random, sys, time, traceback
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "lib"))
import pbv, gen, profiles, suites

HERE = pbv.HERE
EVID = os.path.join(HERE, "evidence")


def programs(prop, prof, n, seed):
    w, o = profiles.P[prof]
    res = []
    for i in range(n):
        r = random.Random("%d/%s/%s/%d" % (seed, prop, prof, i))
        p = gen.Gen(r, w, o).program("%s-%d" % (prof, i), gen.ROOT)
        res.append(p)
    return res


def confirm(pbat, prog, want):
    """the difference between the outcome and the specification, if it can be
    seen again: an outcome that depends on the load of the machine is not one"""
    n = 0
    last = None
    for k in range(10):
        got = pbv.observe(pbat, prog)
        d = pbv.differs(want, got, prog)
        if d:
            n += 1
            last = (d, got)
            if n >= 2:
                return last
        elif k >= 4 and n == 0:
            return None
    return last if n >= 2 else None


def listed(prop):
    """known findings of this property: name -> description"""
    res = {}
    f = os.path.join(HERE, "known_findings.txt")
    if os.path.exists(f):
        for l in open(f):
            w = l.split(None, 3)
            if len(w) == 4 and w[0] == "finding:" and w[1] == "property=" + prop:
                res[w[2]] = w[3].strip()
    return res


class Run:
    def __init__(s, prop, tier, seed):
        s.prop, s.tier, s.seed = prop, tier, seed
        s.violations = []; s.samples = []; s.validated = 0; s.skipped = 0
        s.suites = {}; s.notes = []; s.t0 = time.time()

    def report(s, prog, want, diff, got, note=""):
        os.makedirs(os.path.join(EVID, "replays"), exist_ok=True)
        k = len(s.violations)
        path = os.path.join("evidence", "replays", "%s-%d.json" % (s.prop, k))
        with open(os.path.join(HERE, path), "w") as h:
            json.dump({"property": s.prop, "note": note, "program": prog, "difference": diff,
                       "required": want, "observed": got}, h, indent=1, default=str)
        s.violations.append(path)
        print("%s: %s differs: the specification requires %r, the code gives %r"
              % (prog["id"] if prog else note, diff[0], str(diff[1])[-400:], str(diff[2])[-400:]))
        print("VIOLATION property=%s replay=%s" % (s.prop, path))
        sys.stdout.flush()

    def compare(s, pbat, name, progs, want):
        """outcomes of the code against the observations required"""
        st = s.suites.setdefault(name, {"programs": 0, "compared": 0, "outside_of_the_specification": 0})
        st["programs"] += len(progs)
        todo = []
        for p in progs:
            if want[p["id"]]["n"] < 0:
                st["outside_of_the_specification"] += 1
                s.skipped += 1
            else:
                todo.append(p)
        for k in range(0, len(todo), 400):
            if len(s.violations) >= 3:
                s.notes.append("stopped after three violations")
                return
            chunk = todo[k:k + 400]
            s.judge(pbat, name, st, chunk, pbv.observe_all(pbat, chunk), want)

    def judge(s, pbat, name, st, todo, got, want):
        for p, g in zip(todo, got):
            st["compared"] += 1
            s.validated += 1
            w = want[p["id"]]
            if not pbv.differs(w, g, p):
                if len(s.samples) < 3 and (len(w["out"]) > 30 or st["compared"] == 1):
                    s.samples.append({"suite": name, "program": p["files"][p["main"]], "args": p["args"],
                                      "required_and_observed_output": w["out"], "status": w["code"]})
                continue
            if len(s.violations) >= 3:
                continue
            c = confirm(pbat, p, w)
            if c:
                s.report(p, w, c[0], c[1])
            else:
                s.notes.append("not seen again: " + p["id"])

    def go(s):
        spec = suites.CHECKS[s.prop]
        thorough = s.tier == "thorough"
        pbat = pbv.build()
        known = listed(s.prop)
        for name in spec.get("universes", []):
            progs, want = suites.universe(name, thorough)
            s.compare(pbat, "universe " + name, progs, want)
        for prof, quick, deep in spec.get("profiles", []):
            left = deep if thorough else quick
            k = 0
            while left > 0 and len(s.violations) < 3:
                n = min(left, 1500)
                progs = programs(s.prop, prof, n, s.seed + 1000 * k)
                s.compare(pbat, "random " + prof, progs, pbv.expect(progs))
                left -= n
                k += 1
        for name in spec.get("models", []):
            r = suites.model(name, thorough)
            s.suites["model " + name] = r
        for f in spec.get("extra", []):
            f(s, pbat, thorough)
        for name in spec.get("known", []):
            s.known(pbat, name, known)
        return spec

    def known(s, pbat, name, known):
        k = json.load(open(os.path.join(HERE, "known", name + ".json")))
        prog = suites.place(k["program"])
        want = pbv.expect([prog])[prog["id"]]
        got = pbv.observe(pbat, prog)
        d = pbv.differs(want, got, prog)
        if not d:
            return
        bad = dict(want, **k["observed"])
        if name in known and not pbv.differs(bad, got, prog):
            print("KNOWN-FINDING: property=%s %s" % (s.prop, known[name]))
        else:
            c = confirm(pbat, prog, want)
            if c:
                s.report(prog, want, c[0], c[1])

    def evidence(s, spec):
        st = pbv.STATS
        os.makedirs(EVID, exist_ok=True)
        ev = {"property": s.prop, "tier": s.tier, "seed": s.seed, "level": "model_checking",
              "coverage": {"states": st["states"], "transitions": st["transitions"],
                           "traces_validated_against_impl": s.validated,
                           "samples": s.samples or [{"note": "no sample"}],
                           "suites": s.suites, "programs_run": st["runs"],
                           "outside_of_the_specification": s.skipped,
                           "actions_taken_by_the_specification": st["coverage"],
                           "notes": s.notes},
              "assumptions": suites.ASSUMPTIONS + spec.get("assumptions", []),
              "wall_s": round(time.time() - s.t0, 1), "violations": len(s.violations)}
        with open(os.path.join(EVID, s.prop + ".json"), "w") as h:
            json.dump(ev, h, indent=1)


def main():
    a = argparse.ArgumentParser()
    a.add_argument("property")
    a.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    a.add_argument("--seed", type=int, default=int(os.environ.get("VERIF_SEED", "1")))
    a = a.parse_args()
    r = Run(a.property, a.tier, a.seed)
    try:
        spec = r.go()
        r.evidence(spec)
        print("%s %s: %d behaviours compared, %d states, %d violations, %.1f s"
              % (r.prop, r.tier, r.validated, pbv.STATS["states"], len(r.violations), time.time() - r.t0))
    except pbv.Infra as e:
        print("error: " + str(e))
        if r.violations:
            return 1
        return 2
    except Exception:
        traceback.print_exc()
        return 1 if r.violations else 2
    finally:
        pbv.cleanup()
    return 1 if r.violations else 0


if __name__ == "__main__":
    sys.exit(main())
