"""Binding of the TLA+ specification (../spec) to the code of picobat.

build()      builds pbat from the working tree of the repository, out of it
expect()     runs programs through the specification with TLC
observe()    runs them through the pbat that was built
"""
import json, multiprocessing, os, re, shutil, signal, subprocess, sys, tempfile, threading, time

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("PBV_REPO", "/repo")
JOBS = int(os.environ.get("PBV_JOBS", "8"))
NOBODY = 65534
FLOOD = 1 << 21


class Infra(Exception):
    """The machinery itself failed; says nothing about the property."""


# ---------------------------------------------------------------- scratch
_scratch = None


def scratch():
    global _scratch
    if _scratch is None:
        for k in range(1000):      # always the same one if possible: its name is part of the outcomes
            try:
                os.mkdir("/tmp/pbv%d" % k, 0o755)
                _scratch = "/tmp/pbv%d" % k
                break
            except FileExistsError:
                pass
        else:
            _scratch = tempfile.mkdtemp(prefix="pbv", dir="/tmp")
        os.chmod(_scratch, 0o755)
    return _scratch


def cleanup():
    global _scratch
    if _scratch and _scratch.startswith("/tmp/pbv"):
        for p, ds, _ in os.walk(_scratch):
            for d in ds:
                try:
                    os.chmod(os.path.join(p, d), 0o755)
                except OSError:
                    pass
        shutil.rmtree(_scratch, ignore_errors=True)
    _scratch = None


# ---------------------------------------------------------------- build
def build(sanitize=False):
    """copy of the tracked and untracked sources, built with gcc"""
    dst = os.path.join(scratch(), "src" + ("-san" if sanitize else ""))
    os.makedirs(dst, exist_ok=True)
    files = subprocess.run(["git", "-C", REPO, "ls-files", "-z", "--cached", "--others",
                            "--exclude-standard"], stdout=subprocess.PIPE).stdout.split(b"\0")
    files = [f for f in files if f and os.path.lexists(os.path.join(REPO.encode(), f))]
    if not files:
        raise Infra("cannot list the files of " + REPO)
    r = subprocess.run(["rsync", "-a", "--files-from=-", "--from0", REPO + "/", dst + "/"],
                       input=b"\0".join(files), stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
    if r.returncode:
        raise Infra("copy: " + r.stdout.decode(errors="replace")[-500:])
    env = dict(os.environ, CC="gcc")
    cmds = [["make", "CC=gcc", "config"],
            ["make", "-j8", "-C", "microgettext"], ["make", "-j8", "-C", "libpbat"],
            ["make", "-j1", "-C", "libfasteval"], ["make", "-j8", "-C", "pbat"]]
    log = b""
    for c in cmds:
        if sanitize and c[1] != "CC=gcc":
            c = c + ["CFLAGS_EXTRA=-fsanitize=address,undefined"]
        r = subprocess.run(c, cwd=dst, env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT,
                           stdin=subprocess.DEVNULL)
        log += r.stdout
        if r.returncode:
            raise Infra("build: " + log.decode(errors="replace")[-1500:])
    exe = os.path.join(dst, "pbat", "pbat")
    if not os.path.exists(exe):
        raise Infra("build: no pbat\n" + log.decode(errors="replace")[-1500:])
    out = os.path.join(scratch(), "bin")
    os.makedirs(out, exist_ok=True)
    shutil.copy(exe, os.path.join(out, "pbat"))
    os.chmod(os.path.join(out, "pbat"), 0o755)
    return os.path.join(out, "pbat")


# ---------------------------------------------------------------- spec
STATS = {"states": 0, "transitions": 0, "coverage": {}, "programs": 0, "runs": 0, "skipped": 0}


def tlc(module, cfg, env=None, workers=JOBS, extra=(), timeout=600, mem="6g"):
    meta = tempfile.mkdtemp(prefix="meta", dir=scratch())
    e = dict(os.environ, TLC_MEM=mem, **(env or {}))
    p = subprocess.Popen([os.path.join(HERE, "lib", "tlc.sh"), module, cfg, "-workers", str(workers),
                          "-metadir", meta] + list(extra), env=e, stdout=subprocess.PIPE,
                         stderr=subprocess.STDOUT, stdin=subprocess.DEVNULL, cwd=meta,
                         start_new_session=True)
    try:
        out = p.communicate(timeout=timeout)[0].decode(errors="replace")
    except subprocess.TimeoutExpired:
        os.killpg(p.pid, signal.SIGKILL)
        p.wait()
        raise Infra("TLC took more than %d s on %s" % (timeout, module))
    finally:
        shutil.rmtree(meta, ignore_errors=True)
    g = re.search(r"(\d+) states generated, (\d+) distinct states found", out)
    if g:
        STATS["transitions"] += int(g.group(1))
        STATS["states"] += int(g.group(2))
    return p.returncode, out


def printed(out):
    res = []
    for l in out.splitlines():
        if l.startswith('"@@'):
            try:
                res.append(json.loads(json.loads(l)[2:]))
            except ValueError:
                raise Infra("cannot read what TLC printed: " + l[:300])
    return res


def expect(programs, extra=()):
    """id -> observation the specification requires"""
    f = os.path.join(scratch(), "programs-%d.json" % time.time_ns())
    at = {}
    for p in programs:
        AT[0] += 1
        at[p["id"]] = p["at"] = "%s/%d" % (scratch(), AT[0])
    with open(f, "w") as h:
        json.dump([place(p, ROOT, p["at"]) for p in programs], h)
    rc, out = tlc("Run", "Run.cfg", {"PROGRAMS": f}, extra=extra)
    os.unlink(f)
    if "Model checking completed. No error" not in out:
        raise Infra("TLC failed:\n" + tail(out))
    res = {r["id"]: r for r in printed(out)}
    missing = [p["id"] for p in programs if p["id"] not in res]
    if missing:
        raise Infra("no observation for " + ", ".join(missing[:5]))
    for i, r in res.items():
        res[i] = place(r, at[i], ROOT)
        for a in r.get("cov", []):
            STATS["coverage"][a] = STATS["coverage"].get(a, 0) + 1
    return res


def tail(out, n=3000):
    keep = [l for l in out.splitlines() if not re.match(r"(Parsing|Semantic|Linting) ", l)]
    return "\n".join(keep)[-n:]


# ---------------------------------------------------------------- implementation
# error messages; those that quote a command may go on over several lines
ERR = re.compile(r"(?:Error|Warning) : (?:\"(?:(?!Error : )[^\0])*?\" (?:is not a valid (?:top-level block|block[^\n]*|token specifier|mathematical expression|number"
                 r"|expression for IF command)|was unexpected|is an invalid stream redirection)\.\n"
                 r"|(?:Redirection for|Encountered malformed blocks|The|Unable to find label|Unable to access file|Pathspec) \(?\"(?:(?!Error : )[^\0])*?\"\)?"
                 r"(?: was already specified| comparison forbids use of strings| does not match any file)?\.\n(?:\tReason: [^\n]*\n)?"
                 r"|[^\n]*\n(?:\tReason: [^\n]*\n)?)")


# questions: what is asked, and what is said about an answer that is not one
ASK = re.compile(r"(?:[^\n\"]*\"[^\n]*?\?|[^\n]*!\n) ?\((?:yes|Yes)/(?:no|No)(?:/[Aa]ll)?\) ")


# lists in no specified order are shown between the marks [[ and ]]; dates are not compared
LIST = re.compile(r"\[\[ *\n(.*?)^\]\] *$", re.M | re.S)
DATE = re.compile(r"\d\d/\d\d/\d\d \d\d:\d\d:\d\d (?=[< ])")

# the size of a file that is being written depends on what is still buffered
OUTSIZE = re.compile(r"^<T> [^\t\n]*(\t[^\t\n]*\t[^\t\n]*o ?\d+\.txt)$", re.M)


def anyorder(t):
    if not isinstance(t, str) or "[[" not in t:
        return t
    t = OUTSIZE.sub("<T> -\\1", t)
    return LIST.sub(lambda x: "[[\n" + "\n".join(sorted(x.group(1).split("\n"))) + "]]", t)


def norm(t):
    if "/no" in t or "/No" in t:
        t = ASK.sub("<Q>", t)
    if "Last change" in t:
        t = DATE.sub("<T> ", t)
    return ERR.sub("<E>\n", t.replace("\nAborting current command, press any key to end picobat.\n", ""))


ROOT = "/rt0"      # stands for the directory of a program in what is generated and compared;
                   # the specification and the code both get the real one
AT = [0]


def place(x, a, b):
    if isinstance(x, str):
        return x.replace(a, b)
    if isinstance(x, dict):
        return {place(k, a, b): place(v, a, b) for k, v in x.items()}
    if isinstance(x, (list, tuple)):
        return [place(v, a, b) for v in x]
    return x


def plant(prog):
    """create the files of a program under its root"""
    os.makedirs(prog["root"], exist_ok=True)
    for n in sorted(prog["files"]):
        if n.endswith("/"):
            os.makedirs(n, exist_ok=True)
        else:
            os.makedirs(os.path.dirname(n), exist_ok=True)
            with open(n, "w", newline="", encoding="latin1") as h:
                h.write(prog["files"][n])
            os.chmod(n, 0o755 if n.endswith((".bat", ".cmd", ".sh")) or "/bin/" in n or prog["files"][n][:2] == "#!" else 0o644)
    if os.getuid() == 0:
        for p, ds, fs in os.walk(prog["root"]):
            os.chown(p, NOBODY, NOBODY)
            for x in ds + fs:
                os.lchown(os.path.join(p, x), NOBODY, NOBODY)


def limits():
    import resource
    resource.setrlimit(resource.RLIMIT_CORE, (0, 0))
    resource.setrlimit(resource.RLIMIT_CPU, (20, 20))
    resource.setrlimit(resource.RLIMIT_FSIZE, (1 << 24, 1 << 24))


def tree(root):
    res = {}
    for p, ds, fs in os.walk(root):
        for d in ds:
            res[os.path.join(p, d)] = "<DIR>"
        for f in fs:
            q = os.path.join(p, f)
            try:
                with open(q, "rb") as h:
                    res[q] = norm(h.read(1 << 22).decode("latin1"))
            except OSError as e:
                res[q] = "<%s>" % e.strerror
    return res


def observe(pbat, prog0, timeout=20, wrap=()):
    real = prog0.get("at", "")
    try:
        if not real.startswith(scratch() + "/"):
            raise OSError
        os.mkdir(real)
    except OSError:
        real = tempfile.mkdtemp(prefix="r", dir=scratch())
    os.chmod(real, 0o755)
    prog = place(prog0, ROOT, real)
    plant(prog)
    env = {"LANG": "C", "HOME": "/nonexistent", "TMPDIR": prog["root"]}
    env.update(prog["env"])
    main = os.path.relpath(prog["main"], prog["root"])
    if os.getuid() == 0:
        q = prog["root"]
        while len(q) >= len(real):
            os.chown(q, NOBODY, NOBODY)
            q = os.path.dirname(q)
    kw = {}
    if os.getuid() == 0:
        kw = {"user": NOBODY, "group": NOBODY, "extra_groups": []}
    if prog.get("stdin_file", True):
        fin = tempfile.TemporaryFile(dir=scratch())
        fin.write(prog["stdin"].encode("latin1"))
        fin.seek(0)
        data = None
    else:
        fin, data = subprocess.PIPE, prog["stdin"].encode("latin1")
    p = subprocess.Popen(list(wrap) + [pbat] + (prog["argv"] if "argv" in prog else [main] + prog["args"]), cwd=prog["root"], env=env,
                         stdin=fin, stdout=subprocess.PIPE, stderr=subprocess.PIPE,
                         start_new_session=True, preexec_fn=limits, **kw)
    bufs = {p.stdout: [], p.stderr: []}
    def drain(f):
        n = 0
        while True:
            c = f.read1(65536)
            if not c:
                return
            if n < FLOOD:
                bufs[f].append(c)
            n += len(c)
            if n >= FLOOD:
                try:
                    os.killpg(p.pid, signal.SIGKILL)
                except OSError:
                    pass
    def feed():
        try:
            p.stdin.write(data)
            p.stdin.close()
        except OSError:
            pass
    ts = [threading.Thread(target=drain, args=(f,), daemon=True) for f in bufs]
    if data is not None:
        ts.append(threading.Thread(target=feed, daemon=True))
    for t in ts:
        t.start()
    try:
        code = p.wait(timeout=timeout)
        end = time.time() + 2
    except subprocess.TimeoutExpired:
        os.killpg(p.pid, signal.SIGKILL)
        code = "timeout"
        p.wait()
        end = time.time() + 2
    for t in ts:
        t.join(max(0.01, end - time.time()))
    try:
        os.killpg(p.pid, signal.SIGKILL)
    except OSError:
        pass
    for t in ts:
        t.join(10)
    for f in bufs:
        f.close()
    o, e = b"".join(bufs[p.stdout]), b"".join(bufs[p.stderr])
    if data is None:
        fin.close()
    res = {"id": prog["id"], "out": norm(o[:1 << 20].decode("latin1")),
           "err": norm(e[:1 << 20].decode("latin1")), "code": code, "fs": tree(prog["root"])}
    if not real.startswith("/tmp/pbv"):
        raise Infra("scratch")
    for q, ds, _ in os.walk(real):
        for d in ds:
            if not os.path.islink(os.path.join(q, d)):
                os.chmod(os.path.join(q, d), 0o755)
    shutil.rmtree(real, ignore_errors=True)
    STATS["runs"] += 1
    return place(res, real, ROOT)


def differs(want, got, prog):
    """first difference, None if the observations agree"""
    if want["code"] != got["code"]:
        d = ("exit status", want["code"], got["code"])
        if not isinstance(got["code"], int) or got["code"] < 0:
            return d
    else:
        d = None
    wo, go = anyorder(want["out"]), anyorder(got["out"])
    if prog.get("unordered"):
        wo, go = sorted(wo.split("\n")), sorted(go.split("\n"))
    if wo != go:
        return ("standard output", wo, go)
    if anyorder(want["err"]) != anyorder(got["err"]):
        return ("standard error", want["err"], got["err"])
    root = prog["root"] + "/"
    w = {k: v for k, v in want["fs"].items() if k.startswith(root)}
    for k in sorted(set(w) | set(got["fs"])):
        if anyorder(w.get(k)) != anyorder(got["fs"].get(k)):
            return ("file " + k[len(root):], w.get(k), got["fs"].get(k))
    return d


def _observe(x):
    return observe(x[0], x[1], **x[2])


def observe_all(pbat, progs, **kw):
    """in processes rather than threads: starting programs is what takes time"""
    scratch()
    with multiprocessing.get_context("fork").Pool(JOBS) as ex:
        res = ex.map(_observe, [(pbat, p, kw) for p in progs], chunksize=4)
    STATS["runs"] += len(res)
    return res
