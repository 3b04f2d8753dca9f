"""Random programs for the conformance check, within the well-defined part of
the language (no unpaired quotation marks, no race between the stages of a
pipe, no file read while it is written, bounded loops)."""
import random, re

ROOT = "/rt0/a/b/c/w"
WORDS = ["a", "b1", "foo", "Bar", "x7y", "zed", "q-q", "k.t", "lo_p", "T", "nine", "w0rd"]
VARS = ["va", "vb", "Vc", "vd"]
TREE = ["f1.txt", "f2.txt", "d1/", "d1/g1.txt", "d1/g2.dat", "d2/", "d2/h.txt", "d1/s/"]


MORE = ["d1/s/d1/", "d1/s/d1/g1.txt", "d2/d3/h2.txt", "d2/g9.txt", "d1/s/g4.txt", "s/", "s/g5.txt", "d2/s/d4/g1.txt", "x1/", "d2/d3/d5/"]

EXT = {"args": 'for a in "$@"; do printf "<%s>" "$a"; done; echo', "stat": "exit $1", "copyin": "exec /bin/cat",
       "getv": '/usr/bin/env | /usr/bin/grep -i "^$1=" | /usr/bin/sed "s/^[^=]*=//"', "wd": "pwd -P", "both": "echo o; echo e >&2",
       "line1": 'IFS= read -r l; printf "<%s>\\n" "$l"', "die": "kill -9 $$"}


class Ctx:
    """what may be used at a point of the program"""

    def __init__(s, **kw):
        s.depth = 0; s.fv = ""; s.labels = []; s.subs = []; s.scripts = []; s.block = False
        s.sub = ""; s.delayed = False; s.quiet = False; s.defs = []; s.left = False; s.cond = False
        s.__dict__.update(kw)

    def but(s, **kw):
        d = dict(s.__dict__); d.update(kw)
        return Ctx(**d)


class Gen:
    def __init__(s, rnd, weights, opts=None):
        s.r = rnd; s.w = weights; s.o = opts or {}
        s.nlabel = 0; s.files = {}; s.nsub = 0; s.noup = False

    # ---- text
    def word(s):
        return s.r.choice(WORDS)

    def var(s):
        return s.r.choice(VARS)

    def case(s, t):
        k = s.r.random()
        return t.upper() if k < .15 else t.capitalize() if k < .25 else t

    def ref(s, c, glue=False):
        """a reference to some value"""
        r = s.r; k = r.random(); v = s.case(s.var())
        if c.fv and k < .35:
            f = r.choice(c.fv)
            if c.delayed and r.random() < .3:
                return r.choice(["!v%%%%%s!", "!v%%%%~%s!", "!va:%%%%%s=QQ!", "!va:%%%%~%s=!"]) % f
            if s.o.get("mods") and r.random() < .3:
                return "%%~" + r.choice(["", "n", "x", "nx", "p", "f", "pn"]) + f
            return ("%%~" if glue else "%%") + f
        if k < .5:
            e = s.r.random()
            if e < s.o.get("exp", .3):
                d = "%" if not c.delayed or r.random() < .6 else "!"
                q = r.random()
                if q < .45:
                    t = ":~%d" % r.randint(-3, 4)
                    if r.random() < .7:
                        t += ",%d" % r.choice([-3, -2, -1, 1, 2, 3, 5])
                elif q < .8:
                    t = ":%s=%s" % (r.choice(["a", "o", "fo", "r", "7", "B", "x7"]),
                                    r.choice(["", "z", "QQ", "a"]))
                else:
                    t = ":" + s.word()
                return d + v + t + d
            return ("!%s!" if c.delayed and r.random() < .5 else "%%%s%%") % v
        if k < .62:
            return ("%~" if glue else "%") + str(r.choice([1, 1, 2, 3, 1, 9]))
        if k < .68:
            return "%errorlevel%" if not c.delayed or r.random() < .5 else "!errorlevel!"
        if k < .7:
            return "%%%%"
        return s.word()

    def text(s, c, n=None):
        r = s.r; t = []
        for _ in range(n or r.randint(1, 3)):
            k = r.random()
            if k < .4:
                t.append(s.word())
            elif k < .75:
                t.append(s.ref(c))
            elif k < .83 and s.o.get("quotes", True):
                t.append('"%s%s%s"' % (s.word(), r.choice([" ", " & ", "|", " ; ", "  "]) if s.o.get("odd", True) else " ", s.word()))
            elif k < .9 and s.o.get("odd", True):
                t.append(r.choice(["^&", "^^", "^>", "^<", "^%", "a^b", "^(x^)", "^&" if s.w.get("pipe") or s.w.get("pipef") else "^|"]) if not c.block or True else "w")
            else:
                t.append(s.word() + s.ref(c, True))
        return " ".join(t)

    def val(s, c):
        r = s.r; k = r.random()
        if k < .5:
            return s.word()
        if k < .8:
            return s.word() + s.ref(c, True)
        return s.word() + " " + s.word()

    # ---- commands
    def cmd(s, c, allow=None):
        names = [n for n in s.w if s.w[n] > 0 and (allow is None or n in allow)]
        while True:
            n = s.r.choices(names, [s.w[x] for x in names])[0]
            t = getattr(s, "k_" + n)(c)
            if t is not None:
                return t

    def k_echo(s, c):
        r = s.r
        return s.case("echo") + r.choice([" ", " ", " ", ".", ":", " - "]) + s.text(c)

    def k_state(s, c):
        return "echo e=%errorlevel% " + s.ref(c) if not c.delayed else "echo e=!errorlevel! " + s.ref(c)

    def k_set(s, c):
        r = s.r; k = r.random()
        if k < .12:
            return "set %s=" % s.case(s.var())
        if k < .2:
            return 'set "%s=%s"' % (s.var(), s.val(c))
        if k < .25:
            return 'set "%s=%s" trail' % (s.var(), s.val(c))
        if k < .3:
            return "set %s =%s" % (s.var(), s.val(c))
        return s.case("set") + " %s=%s" % (s.case(s.var()), s.val(c))

    def k_setlist(s, c):
        return "set " + s.r.choice(["v", "V", "va", "vb", "vc", "nosuch"])

    def k_ok(s, c):
        return s.r.choice(["rem x", "cd .", "break", "set ok=1", "shift /9"])

    def k_fail(s, c):
        """commands that fail, with various ERRORLEVELs"""
        r = s.r
        return r.choice(["popd", "cd nodir", "shift x", "call", "setlocal bad", "nocmd x", "set nosuch",
                         "call nofile.bat", "set /a"] if not c.left else ["popd"])

    def k_setlocal(s, c):
        return "setlocal" + s.r.choice(["", "", " enabledelayedexpansion", " disabledelayedexpansion", " /q enabledelayedexpansion",
                                         " enableextensions", " cmdlyincorrect", " disabledelayedexpansion"]
                                        if s.o.get("setlocal") else [""])

    def k_endlocal(s, c):
        return "endlocal"

    def k_shift(s, c):
        return "shift" + s.r.choice(["", "", "", " /1", " /2", " /s:1", " /d:2", " /d:3", " /s:1 /d:2", " /1 /d:2", " /s3", " /7"])

    def k_cd(s, c):
        r = s.r
        if r.random() < .25:
            return r.choice(["cd ", "cd ", "chdir ", "cd /d ", "pushd "]) + s.walk()
        return r.choice(["cd d1", "cd ..", "cd d1/s", "cd ../d2", "cd /d d1", 'cd "d1"', "chdir d2", "cd .", "cd nodir", "cd d1/../d2"]) \
            if not (s.o.get("deep") or s.w.get("ren")) else r.choice(["cd d1", "cd ..", "cd s", "cd d2"])

    def walk(s):
        """a path made of random components"""
        r = s.r
        t = [r.choice(["d1", "d1", "d1", "d2", "s", "s", "..", "..", "..", ".", ".", ".", "", "w"]) for _ in range(r.randint(1, 6))]
        while t and t[0] == "":
            t[0] = r.choice([".", "d1", ".."])
        t = "/".join(t)
        return r.choice(["", "", "", "%root%/", "%root%/d1/"]) + t + r.choice(["", "", "/", "//"])

    def k_pushd(s, c):
        if s.r.random() < .3:
            return "pushd " + s.walk() + (" " + s.walk() if s.r.random() < .3 else "")
        return s.r.choice(["pushd d1", "pushd d2", "pushd ..", "pushd s", "pushd d1 s", "pushd d1 nodir", "pushd .", "pushd"])

    def k_popd(s, c):
        return "popd"

    def k_pwd(s, c):
        return "echo %cd%" if not c.delayed else "echo !cd!"

    def k_rem(s, c):
        return s.r.choice(["rem %s" % s.word(), "title x", "break"])

    def k_goto(s, c):
        r = s.r
        if c.left:
            return None
        pre = r.choice(["goto ", "goto ", "goto :", "GOTO :", "goto:"])
        k = r.random()
        if k < .75 and c.labels:
            return pre + s.case(r.choice(c.labels))
        if k < .8:
            return "goto :eof"
        if k < .9:
            return "goto nolabel"
        return "goto /q nolabel"

    def k_exitb(s, c):
        return "exit /b" + s.r.choice(["", " 0", " 3", " 5", " 12"])

    def k_exit(s, c):
        return "exit" + s.r.choice(["", " 2", " 9"])

    def cargs(s, c):
        r = s.r; t = []
        for _ in range(r.choice([0, 1, 1, 2, 2, 3, 5, 11] if s.w.get("shift", 0) < 2 else [0, 1, 3, 9, 10, 11, 13])):
            k = r.random()
            t.append(s.word() if k < .5 else '"%s%s%s"' % (s.word(), r.choice([" ", " ", ";", ",", "=", " & "]), s.word())
                     if k < .7 else s.ref(c))
        return r.choice([" ", " ", " ", ",", ";"]).join(t)

    def k_call(s, c):
        if not c.subs or c.left:
            return None
        r = s.r
        return r.choice(["call :", "CALL :", "call:"]) + r.choice(c.subs) + " " + s.cargs(c)

    def k_callbad(s, c):
        return s.r.choice(["call :nolabel", "call nofile", "call nofile.bat x"]) if not c.left else None

    def k_path(s, c):
        """where commands are looked for"""
        r = s.r
        if c.left:
            return None
        if r.random() < .35:
            return "set PATHEXT=" + r.choice([".bat:.cmd", ".cmd:.bat", ".bat", ".cmd", "", ".txt:.bat"])
        return "set PATH=" + r.choice(["%root%/d1:%root%/bin", "%root%/bin", "%root%/nosuch:%root%/bin/", "%path%:%root%/d1", "%root%/d2:%path%", "%root%/d1/s:%path%", "bin", "d1:%path%", "", "%root%/bin:%root%/d1"])

    def scriptname(s, c):
        f = s.r.choice(c.scripts)
        if s.variants and s.r.random() < .35:
            f = s.r.choice(["bin/", "d1/", "s/", "d1/s/", "./", "d2/", "%root%/bin/s/", "%root%/d1/"]) + f
        return f

    def k_callfile(s, c):
        if not c.scripts:
            return None
        r = s.r; f = s.scriptname(c)
        if r.random() < .2:
            return "call /e %s.bat :sub %s" % (f, s.cargs(c))
        return "call %s%s %s" % (f, r.choice(["", "", ".bat", ".cmd"] if s.variants else ["", ".bat"]), s.cargs(c))

    def k_child(s, c):
        if not c.scripts:
            return None
        f = s.scriptname(c)
        return "%s%s %s" % (f, s.r.choice(["", "", ".bat", ".cmd"] if s.variants else ["", ".bat"]), s.cargs(c)) + (" < t1.txt" if s.w.get("ask") and not c.left and s.r.random() < .1 else "")

    def k_def(s, c):
        if c.left:
            return None
        r = s.r; n = r.choice(["mac", "proc", "mx"])
        if r.random() < .35:
            f = "/f " if r.random() < .5 else ""
            return "def %s%s=%s" % (f, n, s.defbody(c))
        return n + " " + s.cargs(c)

    def defbody(s, c):
        r = s.r
        return r.choice(["echo $1-$2 $*", "(set _t=$1& echo [$1] $2)", "set _t=$1$2",
                         "(set _t=$1& set /x _u=$2& set va=$3)", "echo $9 $: $1", "if \"$1\"==\"a\" (echo yes $2) else (echo no $1)",
                         "for %%z in ($1 $2) do echo z%%z", "(set _t=$1& nest $2)",
                         "(set _t=$1& leaf $2& set _)", "(set _z=$1& set _u=$2& leaf $1& set _& set _t=)",
                         "(set _w=in& set _u=& leaf $2& leaf& set _)", "(set _z=$1& set /x _t=$2& leaf $1& set _)"])

    def k_deflocal(s, c):
        return s.r.choice(["set _t=%s" % s.word(), "echo [%_t%] [%_u%]", "set _u=%s" % s.word(), "set _", "def /l m",
                           "set _w=%s" % s.word(), "set _z=%s" % s.word(), "leaf %s" % s.word(), "set _w="])

    # ---- structures
    def stmts(s, c, n, sep):
        return sep.join(s.line(c) for _ in range(n))

    def blockof(s, c):
        """( ... ) on one or several lines"""
        r = s.r; c2 = c.but(depth=c.depth + 1, block=True)
        n = r.choice([1, 1, 2, 3])
        if s.o.get("nl", True) and not c.left and r.random() < .6:
            ind = "\t" * (c.depth + 1)
            return "(\n" + "".join(ind + s.line(c2) + "\n" for _ in range(n)) + "\t" * c.depth + ")"
        return "(" + r.choice(["", " "]) + s.stmts(c2, n, r.choice([" & ", "&"])) + ")"

    def k_block(s, c):
        if c.depth > 2:
            return None
        return s.blockof(c)

    def condition(s, c):
        r = s.r; k = r.random()
        n = r.choice(["", "", "not "])
        a, b = s.word(), s.word()
        if r.random() < .5:
            a = s.r.choice(["%va%", "%vb%", "%~1", "%errorlevel%"]) if not c.delayed else s.r.choice(["!va!", "!vb!", "%~1", "!errorlevel!"])
        if c.fv and r.random() < .3:
            a = "%%~" + r.choice(c.fv)
        if k < .3:
            return '%s"%s"=="%s"' % (n, a, r.choice([b, a]))
        if k < .4:
            return '/i %s"%s"=="%s"' % (n, a, b.upper())
        if k < .55:
            return "%sdefined %s" % (n, s.case(r.choice(VARS + ["nosuch"])))
        if k < .65:
            return "%sexist %s" % (n, r.choice(["f1.txt", "d1", "nofile", "d1/g*.txt", "*.dat", '"d1/g1.txt"']))
        if k < .75:
            return "%serrorlevel %d" % (n, r.choice([0, 1, 2, 6]))
        if k < .9:
            return "%s %s %s" % (r.choice(["3", "10", "-2", "0x1f", "2.5", '"%s"' % a]), r.choice(["equ", "neq", "lss", "leq", "gtr", "GEQ"]),
                                 r.choice(["3", "9", "31", "2.50", "-2", '"%s"' % b]))
        if k < .92:
            return r.choice(["%s bad %s" % (a or "w", b), "%s equ" % (a or "w"), '"%s" b "%s"' % (a, b), "3 eq 3", "defined", "not"])
        t = "[ %s ]" % s.boolexp(c, 2)
        return n.replace("not ", "") + t

    def boolexp(s, c, d):
        r = s.r
        if d == 0 or r.random() < .35:
            return r.choice(["1 EQU 1", "1 equ 2", '"a" == "b"', "defined va", "not defined nosuch", "exist f1.txt",
                             "not exist d1", "errorlevel 1", "5 GTR 3", "not 2 LSS 1"])
        a, b = s.boolexp(c, d - 1), s.boolexp(c, d - 1)
        k = r.random()
        if k < .4:
            return a + " or " + b
        if k < .8:
            return a + " and " + b
        return "[ " + a + " ]"

    def k_if(s, c):
        if c.depth > 2:
            return None
        r = s.r; k = r.random(); i = "if " + s.condition(c) + " "
        if k < .35:
            return i + s.simple(c.but(cond=True))
        if k < .6:
            return i + s.blockof(c)
        return i + s.blockof(c) + " else " + (s.blockof(c) if r.random() < .8 else s.simple(c.but(cond=True)))

    def body(s, c):
        return s.blockof(c) if s.r.random() < .7 else s.simple(c)

    def newfv(s, c):
        free = [x for x in "ijkABC" if x not in c.fv]
        return s.r.choice(free) if free else None

    def k_for(s, c):
        if c.depth > 2:
            return None
        v = s.newfv(c); r = s.r
        if not v:
            return None
        items = []
        if s.o.get("glob") and r.random() < .2:
            return "(echo [[& (for %%%%%s in (%s) do echo %s%s)& echo ]])" % (v, r.choice([" ", ", ", ";"]).join(r.choice([s.word, lambda: s.glob(True), lambda: s.glob(True)])() for _ in range(r.randint(1, 3))),
                                                                  r.choice(["-", "<x>"]).replace("<x>", "."), r.choice(["%%", "%%", "%%~nx", "%%~n", "%%~"]) + v)
        for _ in range(r.randint(1, 4)):
            k = r.random()
            if c.delayed and r.random() < .4:
                items.append(r.choice("abcd"))
                continue
            if s.o.get("glob") and k > .75 and r.random() < .4:
                items.append(s.glob())
                continue
            items.append(s.word() if k < .6 else '"%s %s"' % (s.word(), s.word()) if k < .75 and s.o.get("quotes", True)
                         else r.choice(["f1*", "d1/*1*", "d?/h*", "no*", "d1/g?.txt", "?2.dat", "d2/*", "*3.t?t", "\"d1/g2*\""]) if k < .85 and s.o.get("glob")
                         else ("%va%" if not c.delayed else "!va!"))
        return "for %%%%%s in (%s) do %s" % (v, r.choice([" ", " ", ", ", ";"]).join(items), s.body(c.but(fv=c.fv + v, depth=c.depth + 1)))

    def glob(s, many=False):
        """a pattern, somewhere"""
        r = s.r
        t = r.choice(["f1*", "f1.t?t", "d1/g1*", "d1/*1*", "d1/g?.txt", "d?/h*", "*/h.txt", "d*/*.dat", "d1/s*", "no*", "d2/h*", "d1/?1*", "t1*.txt", "?1/g1*", "*/g2*", "d2/../d1/g2*"])
        if many:
            t = r.choice(["f*", "d1/*", "*.txt", "*/*", "d1/g*", "d?/*", "*/?*.txt", "*2*", "f?.txt", t])
        k = r.random()
        return "%root%/" + t if k < .4 else s.deco(t, .3) if k < .6 else "../w/" + t if k < .7 else '"%root%/' + t + '"' if k < .8 else t

    def k_forl(s, c):
        if c.depth > 2:
            return None
        v = s.newfv(c); r = s.r
        if not v:
            return None
        return "for /l %%%%%s in (%s) do %s" % (v, r.choice(["1,1,3", "0 2 5", "5,1,4", "-2;1;0", "2,3,9", "0x1 1 02", "3,1,3"])
                                                if r.random() < .5 else r.choice([" ", ",", ";", ", "]).join(map(str, (r.randint(-4, 5), r.choice([1, 1, 2, 3, 7]), r.randint(-3, 7)))),
                                                s.body(c.but(fv=c.fv + v, depth=c.depth + 1)))

    def tokens(s):
        """(specification, number of variables it sets)"""
        r = s.r
        if r.random() < .45:
            return r.choice([("", 1), ("tokens=1,2", 2), ("tokens=2", 1), ("tokens=1-3", 3), ("tokens=*", 1), ("tokens=1,*", 2),
                             ("tokens=2*", 2), ("tokens=3,1", 2), ("tokens=1.2", 1), ("tokens=2.*", 1), ("tokens=1,1,2", 3)])
        t = []; n = 0
        for _ in range(r.randint(1, 4)):
            a = r.randint(1, 5); k = r.random()
            if k < .5:
                t.append("%d" % a); m = 1
            elif k < .72:
                m = r.choice([1, 2, 2, 3, 0]); t.append("%d-%d" % (a, a + m - 1))
                if m == 0: m = 9
            else:
                t.append("%d.%s" % (a, a + r.choice([0, 1, 1, 2, 3]) if r.random() < .8 else "")); m = 1
                if t[-1][-1] == ".": t[-1] = "%d.%d" % (a, a)
            if n + m > 4:
                t.pop()
                break
            n += m
        if not t:
            t, n = ["2"], 1
        e = r.random()
        if e < .25:
            t.append("*"); n += 1
        elif e < .35 and t[-1].isdigit():
            t[-1] += "*"; n += 1
        elif e < .42:
            t[-1] = t[-1].split("-")[0].split(".")[0] + ".*"; n = None
        if n is None:
            return "tokens=2.*", 1
        return "tokens=" + ",".join(t), n

    def k_forf(s, c):
        if c.depth > 2:
            return None
        r = s.r
        v = r.choice([x for x in "iA" if x not in c.fv] or [None])
        if v is None:
            return None
        # up to five consecutive variables, so that none is taken
        base = {"i": "ijklm", "A": "ABCDE"}[v]
        if any(x in c.fv for x in base):
            return None
        tok, n = s.tokens()
        opts = [tok] if tok else []
        if r.random() < .3:
            opts.append("skip=%d" % r.choice([1, 1, 2, 2, 3, 4, 0]))
        if r.random() < .25:
            opts.append(r.choice(["eol=#", "eol=f", "eol=c", "eol=;", "eol=a", "eol=x"]))
        bq = r.random() < .2
        if bq:
            opts.append("usebackq")
        if r.random() < .35:
            opts.append(r.choice(["delims=,", "delims=;", "delims=, ", "delims=:", "delims=o", "delims=", "delims=;,", "delims=\t", "delims=b, "]))
        if r.random() < .3 and not opts[-1:] == ["x"]:
            d = [x for x in opts if x.startswith("delims")]
            opts = [x for x in opts if not x.startswith("delims")]
            r.shuffle(opts)
            opts += d
        o = ' "%s"' % " ".join(opts) if opts else ""
        k = r.random()
        if k < .4:
            src = r.choice(["t1.txt", "t2.txt", "%root%/t1.txt", '"t3.txt"' if bq else "t3.txt"])
        elif k < .65:
            q = "'" if bq else '"'
            src = q + " ".join(s.word() for _ in range(r.randint(1, 4))) + r.choice(["", ",x,y", ";a"]) + q
        else:
            q = "`" if bq else "'"
            src = q + r.choice(["echo a b c d", "echo x,y z", "type t1.txt", "set v", "echo %va% w", "echo k", "type t2.txt"]) + q
            if "type" in src and not s.w.get("type"):
                src = q + "echo a b c d" + q
        return "for /f%s %%%%%s in (%s) do %s" % (o, v, src, s.body(c.but(fv=c.fv + base[:n], depth=c.depth + 1)))

    def simple(s, c):
        """a command that may be followed by operators"""
        return s.cmd(c, [n for n in s.w if n not in ("if", "for", "forl", "forf", "def", "chain", "pipe")] if c.cond and False
                     else [n for n in s.w if n not in ("chain", "pipe")])

    # ---- files
    def name(s):
        """a file or folder that may exist"""
        return s.deco(s.r.choice(["f1.txt", "f2.txt", "d1/g1.txt", "d1/g2.dat", "d2/h.txt", "n1.txt", "n2.txt", "nd/x.txt", "d1/s/y", "d1/n1.txt",
                           "d1", "d2", "d1/s", "nd", "nofile", '"d1/sp c.txt"', '"n 3"']))

    def fname(s):
        return s.deco(s.r.choice(["f1.txt", "f2.txt", "d1/g1.txt", "d1/g2.dat", "d2/h.txt", "n1.txt", "n2.txt", '"d1/sp c.txt"', "t1.txt", "t2.txt"]))

    def dname(s):
        return s.deco(s.r.choice(["d1", "d2", "nd", "d1/s", "d2/", "nd/", "nd/e", "d1/", "e/f/g", '"n 3"']))

    def globname(s):
        if s.r.random() < .25:
            return s.deco("/".join(s.r.choice(["d?", "d1", "d*", "*", "s", "?"]) for _ in range(s.r.choice([1, 1, 2]))) + "/" + s.r.choice(["g*", "*", "g1.txt", "h*", "s*", "?1*", "*.txt"]), .1)
        return s.r.choice(["d1/g*", "d1/*", "f?.txt", "d2/*", "nd/*", "n*.txt", "d?/h*", "d1/G?.*", "no*", "d1/s*", "d1/s/*", "F1*"])

    def case2(s, t):
        return t

    def deco(s, p, k=.12):
        """the same place, written in another way"""
        r = s.r
        if set(p) & set("*?"):      # how many separators a result has is not said
            return re.sub("//+", "/", s.deco1(p, k))
        return s.deco1(p, k)

    def deco1(s, p, k):
        r = s.r
        if r.random() > k or "\"" in p or "%" in p or p[0] == "/":
            return p
        f = r.choice(["./", "././", ".//", "d1/../", "%root%/", "../w/", "d2/.././", ".//./", "d1/s/../../", "%root%//./", ""])
        if f == "" or r.random() < .3:
            i = p.find("/")
            if 0 < i < len(p) - 1 and not set(p[:i]) & set('*?'):
                p = p[:i] + r.choice(["//", "/./", "/././", "/.//./", "///", "/../%s/" % p[:i]]) + p[i + 1:]
        if s.noup and ".." in f + p:    # the folder could be gone when its turn comes
            return "./" + p.replace("..", ".")
        return f + p

    def answers(s, c, mixed):
        if c.left:
            return " < yes.txt"
        k = s.r.random()
        if k < .3:
            return ""
        return " < " + s.r.choice(["yes.txt", "no.txt", "all.txt"] + (["mix.txt", "odd.txt"] * 2 if mixed else []))

    def k_md(s, c):
        return s.r.choice(["md ", "mkdir ", "MD "]) + " ".join(s.dname() if s.r.random() < .8 else s.name() for _ in range(s.r.choice([1, 1, 1, 2])))

    def k_rd(s, c):
        s.noup = True
        t = s.k_rd1(c)
        s.noup = False
        return t

    def k_rd1(s, c):
        r = s.r; k = r.random()
        w = r.choice(["rd ", "rmdir ", "rd "])
        if k < .5:
            return w + r.choice(["", "/q "]) + s.dname()
        if k < .6:
            return w + s.name() if r.random() < .3 else w + s.dname()
        sw = r.choice(["/s /q ", "/q /s ", "/s "])
        return w + sw + " ".join(s.dname() for _ in range(r.choice([1, 1, 2]))) + ("" if "q" in sw else s.answers(c, False))

    def k_del(s, c):
        r = s.r; k = r.random()
        w = r.choice(["del ", "erase ", "DEL "]) + (s.attr() + " " if r.random() < .12 else "")
        if k < .4:
            return w + " ".join(s.fname() for _ in range(r.choice([1, 1, 2, 3])))
        if k < .6:
            t = w + "/p " + " ".join(s.fname() for _ in range(r.choice([1, 2, 3])))
            if not c.left and r.random() < .2:  # answers read after, or before, something else
                return "(%s%s%s) < %s" % (r.choice(["set /p %s=&" % s.var(), ""]), t, r.choice(["&set /p %s=" % s.var(), "& type"]), r.choice(["mix.txt", "all.txt", "yes.txt"]))
            return t + s.answers(c, True)
        if k < .75:
            return w + r.choice(["/q ", "/q ", "/s /q ", "/q /p "]) + s.globname() + (" " + s.name() if r.random() < .3 else "") + s.answers(c, False)
        if k < .9:
            return w + r.choice(["", "/s "]) + s.globname() + s.answers(c, False)
        return w + r.choice(["", "/s ", "/q "]) + s.name()

    def attr(s):
        return s.r.choice(["/a:-d", "/a:d", "/a-d", "/ad", "/a:i-d", "/a:-i-d", "/a-d-i", "/A:R", "/a:-r", "/a:h", "/a-h-s", "/a:-D", "/aD", "/a", "/a:-", "/a:-di"])

    def k_dir(s, c):
        """listings come in no specified order: they are shown between marks"""
        r = s.r
        def dircmd(long):
            w = [] if long else [r.choice(["/b", "/b", "/B"])]
            if r.random() < .3:
                w.append(r.choice(["/s", "/S"]))
            if r.random() < .4:
                w.append(s.attr())
            q = r.random()
            if q < .85:
                w.append(r.choice(["d1", "d1", "d1/", ".", "..", "./d1", "*", "nd", "%root%", "%root%/d1", s.globname(), s.globname(), s.globname(),
                                   s.name(), s.name(), s.fname(), s.dname(), "d1/*/*", "*/g*", "./f*", "../w*", "*.txt", "*.dat", "?2*"]))
            if q < .03:
                w.append(s.name())
            r.shuffle(w)
            return r.choice(["dir ", "dir ", "Dir "]) + " ".join(w) if w else "dir"
        k = r.random()
        if k < .6:
            return "(echo [[& %s& echo ]])" % dircmd(r.random() < .35)
        if k < .7:
            return "(echo [[& %s& echo ]]) > %s" % (dircmd(False).replace("i-d", "-d").replace("-d-i", "-d").replace(":-di", ":-d").replace("%root%", "."), r.choice(["f1.txt", "f2.txt", "n1.txt", "l.txt"]))
        if k < .85:
            return "%s | %s" % (dircmd(False).replace("%root%", "."), r.choice(['find /c "1"', 'find /c "g"', "wc /l", 'find /c /v "d1/"', "wc /c"]))
        if k < .93:
            return "for /f %%%%i in ('%s') do echo <%%%%i>" % dircmd(False)
        return r.choice(["%s && echo yes || echo no", "%s & echo %%errorlevel%%"]) % (r.choice(["dir /b nofile", "dir /b f1.txt", "dir f1.txt f2.txt", "dir /b /a:d f1.txt", "dir /b d1 d2"]))

    def k_ren(s, c):
        r = s.r
        return r.choice(["ren ", "rename "]) + s.name() + " " + r.choice(["n1.txt", "n2.txt", "f1.txt", "x.y", "g1.txt", '"n 3"', "nd", "a/b", "h.txt", "d2"]) \
            if r.random() < .95 else "ren " + s.name()

    def k_copy(s, c, w="copy"):
        r = s.r; k = r.random()
        w = s.case(w) + " " + r.choice(["", "", "/y ", "/y ", "/-y ", "/y /-y "]) + (s.attr() + " " if r.random() < .1 else "")
        if k < .3:
            return w + s.fname() + " " + r.choice([s.fname(), s.dname(), s.name()]) + s.answers(c, True)
        if k < .45:
            return w + s.fname() + " " + s.fname() + " " + r.choice([s.fname(), s.dname(), s.dname()]) + s.answers(c, True)
        if k < .6:
            return w + s.globname() + " " + r.choice([s.dname(), s.dname(), s.name()]) + s.answers(c, False)
        if k < .75:
            return w + s.fname() + " + " + s.fname() + r.choice(["", " + " + s.fname()]) + " " + r.choice(["n1.txt", "f1.txt", "n2.txt", "nodir/x", "d2"]) + s.answers(c, True)
        if k < .8:
            return w + s.name()
        if k < .85:
            return w + s.globname() + " " + s.fname() + " " + s.dname() + s.answers(c, False)
        return w + "/r " + r.choice([s.dname(), s.name(), s.globname()]) + " " + r.choice(["nd", "d2", "e/f", "tgt", "tgt"]) + s.answers(c, False)

    def k_move(s, c):
        s.noup = True
        t = s.k_copy(c, "move")
        s.noup = False
        return t

    def k_redir(s, c):
        """a command with its output sent to a file, or reading one"""
        r = s.r; k = r.random()
        if c.left:
            return None
        # no file is written through two redirections at a time
        tag = "%s%d" % (c.sub, c.depth)
        o1, o2 = "o1%s.txt" % tag, "o2%s.txt" % tag
        out = r.choice([o1, o2, "d1/o3%s.txt" % tag, "/dev/null", '"o 4%s.txt"' % tag])
        base = s.cmd(c, [n for n in ("echo", "state", "fail", "setlist", "block", "call", "set", "pwd") if n in s.w]).rstrip()
        if k < .4:
            return base + " " + r.choice([">", ">>", ">>"]) + r.choice([" ", ""]) + out
        if k < .5:
            return base + " 2> " + out
        if k < .6:
            return base + " 2>&1"
        if k < .7:
            return base + " > " + out + " 2>&1"
        if k < .8:
            return base + " 1>&2"
        if k < .88:
            return "> " + out + " " + base if not base.startswith("(") else base
        if k < .94:
            return base + " > %s 2>> %s" % (o1, o2)
        return base + " >> nodir/x"

    def k_ask(s, c):
        r = s.r
        if c.left:
            return None
        return r.choice(["set /p %s=", "set /p %s=? ", 'set /p "%s=q: "']) % s.var() + r.choice([" < t1.txt", " < f1.txt", " < /dev/null", " < empty.txt", "", " < t2.txt"] + ([""] * 6 if s.w.get("child") else []))

    def k_pipe(s, c):
        if c.left or c.depth > 2:
            return None
        r = s.r
        c2 = c.but(left=True, depth=c.depth + 1)
        one = r.choice(["echo " + s.text(c2), "(echo " + s.text(c2) + ")", "echo.k", "mac x" if "def" in s.w else "echo k"])
        if not s.w.get("type"):
            return one + " | " + "set /p %s=" % s.var()
        k = r.random()
        many = r.choice(["type t1.txt", "type t2.txt", "set v 2> /dev/null", s.leftblock(c2)])
        if k < .35:
            return one + " | set /p %s=" % s.var()
        last = r.choice(["type", "find \"a\"", "find /v \"o\"", "find /c \"b\"", "find /n \"e\"", "find /i \"F\"", "type > o1.txt"])
        if k < .6:
            return many + " | " + last
        mid = r.choice(["find /v \"zz\"", "type", "find \"o\""])
        if k < .8:
            return many + " | " + mid + " | " + last
        return many + " | " + mid + " | " + "find /v \"q\" | " + last

    def leftblock(s, c):
        n = s.r.randint(1, 4)
        return "(" + "&".join(s.cmd(c, [x for x in ("echo", "set", "state", "cd", "setlist2", "for", "shift") if x in s.w]) for _ in range(n)) + ")"

    # ---- filters
    def fnames(s, c, n=None):
        r = s.r
        one = ["t1.txt", "t2.txt", "t3.txt", "f1.txt", "d1/g1.txt", "./t2.txt", "empty.txt", "d1/g1*", "tx*", "%root%/f2.txt", "d1/../t1.txt"] \
            + (["w1.txt", "w2.txt", "w1.txt", "w2.txt", '"w 3.txt"', '"w 3.txt"'] if s.o.get("filters") else [])
        if c.left:
            return r.choice([x for x in one if x != "tx*" and x[0] != "%"])
        bad = ["nofile", "d1", "d2/*", "*.txt", "nodir/x", "no*", "d1/s", "t1.txt/"]
        return " ".join(r.choice(one) if r.random() < .9 else r.choice(bad) for _ in range(n or r.choice([1, 1, 1, 2, 2, 3])))

    def k_type(s, c):
        return s.r.choice(["type ", "type ", "Type "]) + s.fnames(c)

    def fneedle(s, c):
        r = s.r
        return r.choice(['"a"', '"o"', '"zz"', '"A b"', '"c"', '"x7"', '"e"', '" "', '"l"', "a", "foo", '"b,c"', '""', '"  "', '"%va%"'])

    def fsw(s, c):
        r = s.r; t = ""
        for _ in range(r.choice([0, 0, 1, 1, 2, 3])):
            t += r.choice(["/v ", "/c ", "/n ", "/i ", "/V ", "/N ", "/C ", "/I "])
        return t

    def k_find(s, c, files=True):
        r = s.r
        sw, x = s.fsw(c), s.fneedle(c)
        if r.random() < .25:
            sw, x = sw + "/e ", r.choice(['"*o*"', '"*a*"', '"*"', '"a*"', '"*e"', '"?"', '"*\t*"', '"f?o*"', '"a b*"', '"?*"', '"*z"', '"*O*"'])
        f = s.fnames(c) if files else ""
        k = r.random()
        return "find %s%s %s" % (sw, x, f) if k < .8 else "find %s %s%s" % (x, sw, f) if k < .97 or c.left or not files else "find " + sw

    def k_wc(s, c, files=True):
        r = s.r
        sw = " ".join(r.choice(["/l", "/w", "/c", "/m", "/L", "/W", "/C"]) for _ in range(r.choice([0, 1, 1, 2, 3, 4])))
        if r.random() < .05 and not c.left and files:
            sw += " /z"
        return "wc %s %s" % (sw, s.fnames(c) if files else "")

    def k_more(s, c, files=True):
        r = s.r
        sw = " ".join(r.choice(["/s", "/s", "/S", "/t:4", "/t3", "/t:2", "+1", "+2", "+3", "/e", "/t:16", "/c"]) for _ in range(r.choice([0, 0, 1, 1, 2])))
        if r.random() < .07 and not c.left and files:
            sw += r.choice([" /t:x", " +z", " /t:0", " +", " /t:-2"])
        return "more %s %s" % (sw, s.fnames(c) if files else "")

    def k_big(s, c):
        """more than a pipe holds goes through it"""
        r = s.r
        if c.left or not s.o.get("big"):
            return None
        s.big = True
        first = r.choice(["type big.txt", "(type big.txt & echo end)", "type < big.txt", "(type t1.txt & type big.txt)", "(for %%d in (1 2) do type big.txt)"])
        st = [first] + ["type"] * r.choice([0, 1, 2])
        last = r.choice(["type > o%s%d.txt" % (c.sub, c.depth), "(type > o%s%d.txt & echo done)" % (c.sub, c.depth), "type > /dev/null", "wc /c"])
        return " | ".join(st + [last])

    def k_xargs(s, c):
        r = s.r
        if c.left:
            return "xargs echo < " + r.choice(["t1.txt", "t2.txt", "f1.txt"])
        return r.choice(["xargs echo ", "xargs echo", "xargs", "xargs rem", "xargs find /v \"qqq\"", "xargs wc /l", "xargs rem ", "xargs call :S1" if c.subs else "xargs echo - "]) \
            + " < " + r.choice(["names.txt", "names.txt", "t1.txt", "t2.txt", "empty.txt", "f1.txt", "w1.txt"])

    def k_input(s, c):
        """a filter on its input"""
        r = s.r
        if c.left:
            return None
        t = s.filter(c)
        if r.random() < .3:  # what one command leaves is for the next
            more = [x for x in (s.filter(c), "set /p vc=", "set /p vd=" , "del /p f3.txt", "echo x") for _ in (0,)]
            t = "(" + "&".join(["set /p %s=" % s.var()] + r.sample(more, r.choice([0, 0, 1, 2])) + [t]) + ")"
        return t + " < " + r.choice(["t1.txt", "t2.txt", "w1.txt", '"w 3.txt"', "w2.txt", "empty.txt", "nofile"])

    def filter(s, c):
        if s.w.get("ext") and s.r.random() < .4:
            return "copyin"
        return s.r.choice([lambda: "type", lambda: s.k_find(c, False), lambda: s.k_find(c, False), lambda: s.k_wc(c, False), lambda: s.k_more(c, False)])().strip()

    def stage(s, c, t, i):
        """a stage of a pipe that is not the last one, maybe with redirections"""
        r = s.r; k = r.random()
        if k > .3 or "<" in t or ">" in t.replace("^>", ""):
            return t
        f = "p%d%s%d.txt" % (i, c.sub, c.depth)
        return t + r.choice([" >> " + f, " > " + f, " 2>> " + f, " >> d2/h.txt", " < t3.txt", " < t3.txt", " < t3.txt >> " + f, " 1>&2 2> " + f, " > /dev/null"])

    def k_pipef(s, c):
        """pipes of filters: all of them read the whole of their input"""
        r = s.r
        if c.left or c.depth > 2:
            return None
        c2 = c.but(left=True, depth=c.depth + 1)
        first = r.choice([lambda: s.k_type(c2), lambda: s.k_find(c2), lambda: s.k_wc(c2), lambda: s.k_more(c2), lambda: s.leftblock(c2), lambda: s.leftblock(c2),
                          lambda: "type < " + r.choice(["t1.txt", "t2.txt"]), lambda: "echo " + s.text(c2), lambda: "set v 2> /dev/null"])()
        st = [first.strip()] + [s.filter(c2) for i in range(r.choice([0, 0, 1, 1, 2]))]
        st2 = [s.stage(c, t, i) for i, t in enumerate(st)]
        if s.w.get("ext"):      # a program complains about a pipe nobody reads
            st2 = [a if " < t3.txt" in b else b for a, b in zip(st, st2)]
        for i in range(len(st)):    # nothing waits for what comes before a stage that reads something else
            if not any(" < " in t for t in st2[i + 1:]):
                st[i] = st2[i]
            elif " < t3.txt" in st2[i]:
                st[i] += " < t3.txt"
        last = r.choice([lambda: s.filter(c), lambda: s.filter(c), lambda: "xargs echo", lambda: "xargs echo -",
                         lambda: "(" + s.filter(c) + " & " + s.simple(c) + ")",
                         lambda: s.filter(c) + " > o%s%d.txt" % (c.sub, c.depth), lambda: s.filter(c) + " >> o%s%d.txt" % (c.sub, c.depth)])()
        return r.choice([" | ", "|", " | "]).join(st + [last])

    # ---- arithmetic: (text, level), as pieces that say how they must be written
    def aexp(s, d, f):
        r = s.r; k = r.random()
        if d <= 0 or k < .25:
            k = r.random()
            if k < .45:
                return str(r.choice([0, 1, 2, 3, 5, 7, 10, 12, 16, 25, 31, 100, 255])), 6
            if k < .52:
                return r.choice(["0x1f", "0xA", "0x0f", "010", "017", "00"]), 6
            if f and k < .7:
                return r.choice(["2.5", "0.5", "1.25", ".75", "10.0", "3.125", "0.1", "4."]), 6
            return r.choice(["na", "nb", "nc", "nd", "NA", "nosuch"] + (["fa", "fb", "fa"] if f else ["fa"])), 6
        if k < .33:
            t, l = s.aexp(d - 1, f)
            return r.choice(["-", "-", "- ", "~", "!", "!!"] if s.o.get("neg") else ["-", "-", "- ", "~"]) + (t if l >= 5.5 else "(" + t + ")"), 5.5
        if k < .37 and f:
            return r.choice(["abs(%s)" % s.aexp(d - 1, f)[0], "step(%s)" % s.aexp(d - 1, f)[0], "sqrt(%s)" % r.choice(["16", "49", "0", "(3+1)", "81"])]), 6
        if k < .41:
            return "(" + r.choice(["na", "nb", "ne"]) + "=" + r.choice(["5", "-3", "(nb+1)", "nc"]) + ")", 6
        ops = [("+", 4), ("+", 4), ("-", 4), ("-", 4), ("*", 5), ("*", 5), ("/", 5)]
        if not f or r.random() < .25:
            ops += [("%", 5), ("<<", 3), (">>", 3), ("&", 2), ("|", 1.5), ("^", 1.7), ("&&", 1.2), ("||", 1), ("%", 5)]
        o, l = r.choice(ops)
        a, la = s.aexp(d - 1, f)
        b, lb = s.aexp(d - 1, f)
        if o in ("<<", ">>"):
            b, lb = str(r.randint(0, 9)), 6
        if o in ("/", "%") and r.random() < .9:
            b, lb = r.choice(["2", "3", "7", "-2", "10", "(nd+1000)"]), 5.5
        if la < l or r.random() < .1: a = "(" + a + ")"
        if lb <= l or r.random() < .1: b = "(" + b + ")"
        sp = r.choice(["", "", " "])
        return a + sp + o + sp + b, l

    def k_seta(s, c):
        r = s.r; sets = []; q = c.block or c.depth > 0
        if r.random() < .05:
            return r.choice(["set /a", 'set /a ""', "set /a na", "set /a 3+4", 'set /a "nb"'])
        for _ in range(r.choice([1, 1, 1, 1, 2, 3])):
            f = r.random() < .3
            n = r.choice(["na", "nb", "nc", "nd", "NB"])
            if f:
                n = r.choice(["fa", "fb"])
            op = r.choice(["=", "=", "=", "=", "+=", "-=", "*=", "&=", "|=", "^=", "/=", "%="]) if not f else r.choice(["=", "=", "=", "+=", "-=", "*="])
            e = s.aexp(r.choice([1, 2, 2, 3]), f)[0]
            if op in ("/=", "%="):
                e = r.choice(["3", "2", "-7", "(2+3)"])
            if op == "*=":
                e = r.choice(["3", "-1", "0", "2"])
            if op in ("+=", "-=") and r.random() < .3:
                e = r.choice(["1", "2", "-7"])
            sets.append(n + r.choice(["", "", " "]).replace(" ", "" if op != "=" else " ") + op + r.choice(["", "", " "]) + e)
        t = ",".join(sets)
        if c.fv and r.random() < .5:
            t += "+%%" + r.choice(c.fv)
        if any(x in t for x in "&|<>") or q or " " in t or "," in t or r.random() < .4:
            t = (t.replace("^", "^^"),) if len(sets) == 1 else [x.replace("^", "^^") for x in sets[:-1]] + [t[len(",".join(sets[:-1])) + 1:].replace("^", "^^")]
            t = ",".join('"' + x + '"' for x in t)
        else:
            t = t.replace("^", "^^")
        import re
        t = re.sub(r"%(?!%[ijkABCd])(?<!%%)", "%%", t)
        return r.choice(["set /a ", "set /a ", "SET /A "]) + t

    def k_shown(s, c):
        return "echo [%na%][%nb%][%nc%][%nd%][%ne%][%fa%][%fb%] %errorlevel%" if not c.delayed else "echo [!na!][!nb!][!nc!][!nd!][!ne!][!fa!][!fb!] !errorlevel!"

    def k_forn(s, c):
        """a loop that counts"""
        if c.depth > 1:
            return None
        v = s.newfv(c); r = s.r
        if not v:
            return None
        return "for /l %%%%%s in (%d,%d,%d) do (%s)" % (v, r.choice([0, 1, -2]), r.choice([1, 2, 1]), r.choice([3, 4, 2]),
                                                       s.k_seta(c.but(depth=c.depth + 1, block=True, fv=c.fv + v)) + " & " + s.k_shown(c))

    # ---- programs
    def extname(s, n):
        r = s.r; k = r.random()
        if s.variants and r.random() < .3:
            return r.choice(["s/", "d1/", "d1/s/", "bin/s/", "./", "%root%/d1/"]) + n
        return n if k < .7 else '"%s"' % n if k < .8 else "bin/" + n if k < .87 else '"%root%/bin/' + n + '"' if k < .95 else "%root%/bin/" + n

    def k_ext(s, c):
        r = s.r
        n = r.choice(["args", "args", "args", "stat", "stat", "getv", "getv", "wd", "both", "line1", "line1", "die", "copyin", "bad"])
        if c.left and n in ("both", "copyin", "die", "bad", "line1"):
            n = "args"
        if n == "bad":
            return r.choice(["t1.txt", "d1", "bin/nothing", "d1/g1.txt x", "./f1.txt"])
        t = s.extname(n)
        if n == "args":
            return t + " " + s.cargs(c)
        if n == "stat":
            return t + " " + r.choice(["0", "0", "1", "2", "3", "7", "255", "5"])
        if n == "getv":
            return t + " " + r.choice(["va", "vb", "Vc", "vd", "VA", "_t", "nosuch"])
        if n == "line1" and not c.left:
            k = r.random(); f = r.choice(["t1.txt", "t2.txt", "empty.txt", "names.txt"])
            if k < .4:
                return "%s < %s" % (t, f)
            if k < .7:
                o = [r.choice([t, "set /p %s=" % s.var(), t, "type", "args k", "xargs echo", "find /n \"o\""]) for _ in range(r.randint(2, 4))]
                return "(" + r.choice([" & ", "\n"]).join(o) + ") < " + f
            return t
        if n == "copyin":
            return t + " < " + r.choice(["t1.txt", "t2.txt", "empty.txt"])
        return t

    def k_chain(s, c):
        if c.depth > 2:
            return None
        r = s.r
        def piece():
            if s.w.get("pipe") and r.random() < .15:
                return s.k_pipe(c) or s.simple(c)
            return s.simple(c)
        t = piece()
        for _ in range(r.randint(1, 3)):
            t = t.rstrip() + r.choice([" & ", " && ", " || ", "&", " && ", " || "]) + piece()
        return t

    def line(s, c):
        k = s.r.random()
        if k < s.o.get("chain", .25):
            t = s.k_chain(c)
            if t:
                return t
        t = s.cmd(c)
        if s.o.get("at") and s.r.random() < .1:
            t = "@" + t
        return t

    # ---- whole programs
    def section(s, c, nseg, nline):
        """segments separated by labels; jumps go forward"""
        labels = []
        for _ in range(nseg - 1):
            s.nlabel += 1
            labels.append("L%d" % s.nlabel)
        out = []
        for k in range(nseg):
            if k:
                out.append(":" + labels[k - 1] + s.r.choice(["", " comment", ""]))
            for _ in range(s.r.randint(1, nline)):
                out.append(s.line(c.but(labels=labels[k:])))
                if s.r.random() < s.o.get("probe", .3):
                    out.append("echo e=%errorlevel%" + s.r.choice(["", " %va%", " %1 %2", " [%va%][%vb%][%vc%][%vd%]"]))
        return out

    def epilogue(s):
        o = ["echo end %errorlevel%", "echo [%va%][%vb%][%vc%][%vd%]"]
        if "cd" in s.w or "pushd" in s.w:
            o += ["echo %cd%", "pushd"]
        if "shift" in s.w or "call" in s.w:
            o += ["echo %0^|%1^|%2^|%9^|%+^|%*"] if False else ["echo [%1][%2][%3][%9]"]
        if "deflocal" in s.w:
            o += ["set _"]
        if "seta" in s.w:
            o += ["echo [%na%][%nb%][%nc%][%nd%][%ne%][%fa%][%fb%]"]
        return o

    def shifts(s, c):
        """SHIFT followed by what it does to the arguments"""
        if s.w.get("shift", 0) < 2 or s.r.random() < .4:
            return []
        o = []
        for _ in range(s.r.choice([1, 1, 2, 3])):
            o += [s.k_shift(c), "echo " + s.r.choice(["[%1][%8][%9][%+]", "[%9][%+]", "[%1][%2][%3][%9]", "[%~9][%*]", "[%7][%8][%9][%0]"])]
        return o

    def script(s, c, nseg=2, nline=3, nsub=1, head=True):
        subs = ["S%d" % (k + 1) for k in range(nsub)]
        out = ["@echo off"] if head else []
        if head and c.quiet and s.r.random() < .5:
            out.insert(0, s.r.choice(["@echo e=%errorlevel%", "@if errorlevel 1 echo seen", "@echo %errorlevel% [%1] %cd%", "@if %errorlevel% neq 0 (echo bad) else echo good"]))
        if c.delayed:
            out.append("setlocal enabledelayedexpansion")
        if "seta" in s.w and head and s.r.random() < .8:
            out.append("set na=%d&set nb=%d&set nc=%d&set nd=%s" % (s.r.choice([0, 1, 7, -3, 12]), s.r.choice([2, 40, -1]), s.r.randint(-20, 20), s.r.choice(["word", "1", "0"])))
        if "deflocal" in s.w and head:
            out.append(s.r.choice(["def leaf=(set _t=leaf& set _u=$1& set _w=x& set _z=)", "def leaf=(set _& set _z=$1& set /x _w=$1)",
                                   "def leaf=(set _t=l& set _u=l& set _w=l& set _z=l& set _)"]))
            if s.r.random() < .5:
                out.append("set _t=a&set _u=b&set _w=c&set _z=d")
        out += s.section(c.but(subs=subs), nseg, nline)
        out += s.epilogue()
        out.append(s.r.choice(["exit /b", "goto :eof", "exit /b 4", "exit /b %errorlevel%"]))
        for k in range(nsub):
            out.append(":" + subs[k])
            if s.r.random() < .5:
                out.append("echo %s [%%1][%%2][%%9]" % subs[k] + s.r.choice(["", "[%*]", "[%0]", "[%+]", " %errorlevel%"]))
            out += s.shifts(c)
            out += s.section(c.but(subs=subs[k + 1:], sub=c.sub + "s%d" % k), s.r.choice([1, 1, 2]), nline)
            if s.r.random() < .7:
                out.append(s.r.choice(["exit /b", "goto :eof", "exit /b 7", "exit /b 0"]))
        return "\n".join(out) + "\n"

    def longtext(s):
        """text whose words and lines end around the size of a buffer"""
        r = s.r; t = ""
        if r.random() < .2:     # one long line, or long lines
            return "\n".join("".join(r.choice(["ab", "o ", "x7", "e\t", "zz"]) for _ in range(r.choice([60, 127, 128, 255, 256, 511, 512, 700]))) for _ in range(r.choice([1, 2, 3]))) + r.choice(["\n", ""])
        for b in range(r.choice([1, 1, 2])):
            while len(t) < 1024 * (b + 1) - 60:
                t += " ".join(s.word() for _ in range(r.randint(3, 11))) + r.choice(["\n", "\n", "\n\n", "\r\n"] if r.random() < 0 else ["\n", "\n\n", " "])
            w = s.word() + r.choice(["", "abcd"])
            d = 1024 * (b + 1) + r.choice([0, 0, 0, 1, -1, 2, -2, r.randint(-20, 20)]) - len(t)   # a word ends there
            t += "a" * max(0, d - len(w) - 1) + r.choice([" ", "\n", "x"]) + w + r.choice([" ", "\n", "\t", " ", "\n", ""])
        for _ in range(r.randint(0, 6)):
            t += s.word() + r.choice([" ", "\n"])
        return t

    def filetext(s):
        r = s.r; t = ""
        for _ in range(r.randint(0, 7)):
            k = r.random()
            t += "" if k < .3 else s.word() if k < .45 else " ".join(s.word() for _ in range(r.randint(2, 5))) if k < .6 \
                else "\t".join(r.choice(["", s.word(), "abcdefgh"]) for _ in range(r.randint(2, 4))) if k < .75 \
                else (s.word() + ",. ;" + s.word() + ";;" + s.word()) if k < .85 else (r.choice("abo ") * r.choice([77, 78, 79, 80, 81, 158, 160]))
            t += "\n"
        return t if r.random() < .8 else t.rstrip("\n") if r.random() < .5 else t + "end"

    def promptfmt(s):
        r = s.r
        return "".join(r.choice(["$p", "$P", "$g", "$G", "$a", "$b", "$c", "$f", "$l", "$n", "$q", "$s", "$_", "$$", "$+", "a", "-", " ", "xy", "%va%", ":"]) for _ in range(r.randint(1, 6))).strip() or "$g"

    def k_prompt(s, c):
        r = s.r; f = s.promptfmt()
        return r.choice(["prompt " + f, "prompt " + f, "PROMPT", "set prompt=" + f, "pecho " + f, "pecho " + f, "pecho." + f, "Pecho:" + f, "pecho ", "set prompt="]) if not c.left else "pecho " + f

    def k_echostate(s, c):
        return s.r.choice(["echo on", "echo off", "@echo off", "echo", "@echo on", "rem a b", "echo off x", "break", "@rem x"]) if not c.left else "echo"

    def k_pause(s, c):
        return s.r.choice(["pause", "pause < t1.txt", "PAUSE < empty.txt", "pause"]) if not c.left else "pause < t1.txt"

    def cmdline(s, c, pid, root, files, args):
        """commands given on the command line or through the input"""
        r = s.r
        env = {"PATH": root + "/bin", "PATHEXT": ".bat:.cmd", "root": root, "PROMPT": "$P$G"}
        modes = [r.choice(["/A:", "/a:", "/A", "/a"]) + m for m in [r.choice(["e", "e", "E", "qe", "q", "v", "ev", "vqe"])] if r.random() < .7]
        t = s.script(c.but(scripts=c.scripts), 1, 4, r.choice([0, 0, 1]), head=r.random() < .3)
        argv = list(modes)
        k = r.random()
        if k < .5:
            pass
        elif k < .85:
            argv.append(r.choice(["/C", "/c", "/k", "/K", "/K"]))
            if r.random() < .35:
                argv.append("@")
                env["__PBAT_COMMAND__"] = r.choice([lambda: s.line(c), lambda: s.line(c), lambda: s.k_block(c) or "echo b", lambda: ""])().replace("%", "")
                if r.random() < .2:
                    argv += [r.choice(["m", "m.bat", "./m"])] + args
            else:
                w = r.choice([["echo"] + [s.word() for _ in range(3)], ["echo", s.word() + " " + s.word(), "&", "echo", "z"], ["set", "va=" + s.word()], ["set", "va=a", "&", "set", "Vb=!va!", "&", "set", "v"],
                              ["exit", "3"], ["exit", "/b", "4"], ["type", "t1.txt"], ["type", "nofile"], ["type", "t2.txt", "|", "find", s.word()[0]], ["cd", "d1"], ["set", "/p", "va="],
                              ["(echo", "a", "&", "set", "vb=c)"], ["md", "x y"], ["goto", "L1"], ["call", ":S1"], ["for", "/l", "%a", "in", "(1,1,3)", "do", "echo", "%a"], ["nosuch", "x"],
                              ["echo", "a", ">", "o1.txt", "&&", "type", "o1.txt"], ["set", "va", "||", "echo", "none"], ["shift"], ["setlocal", "&", "set", "vc=1"], ["if", "exist", "d1", "echo", "yes"], ["exit"]]
                             + ([["c1"] + args, ["call", "c2"] + args, ["c1.bat", "q r"]] * 2 if c.scripts else []))
                argv += w
        elif k < .95:
            argv += [r.choice(["m", "m.bat", "./m.bat", "c1", "d1/../m", "c2.bat"])] + args
        else:
            argv += r.choice([["/C"], ["/K"], ["/z"], ["nofile.bat", "a"], ["d1"], ["//", "m", "/C", "x"], ["//"], ["/c", "@", "/k", "@"], ["/c", "@", "/k"]])
        if re.search("(?i)exit|:eof", " ".join(argv) + env.get("__PBAT_COMMAND__", "")):     # where /K goes on from there is not said
            argv = [{"/k": "/c", "/K": "/C"}.get(x, x) for x in argv]
        return {"id": pid, "root": root, "main": root + "/m.bat", "args": args, "argv": argv, "stdin": t if r.random() < .85 else t.rstrip("\n"), "files": files, "env": env, "stdin_file": True}

    def program(s, pid, root):
        r = s.r
        delayed = r.random() < s.o.get("delayed", .25)
        s.big = False
        s.variants = s.w.get("path") and r.random() < .6
        files = {root + "/": ""}
        for f in TREE + (r.sample(MORE, r.randint(0, 4)) if s.o.get("tree") else []):
            for k in range(len(f) - 1):
                if f[k] == "/":
                    files[root + "/" + f[:k + 1]] = ""
            files[root + "/" + f] = "" if f.endswith("/") else r.choice(["x\n", "line one\nline a\n", "o\n", ""])
        files[root + "/t1.txt"] = r.choice(["a b c d\nfoo,bar;baz q\n# no\n\nlast one here\n", "one\n", "a,b,c\nfoo x7 y\n  lead z\n", "f g h\n\n\nA b\nzz top oo\n"])
        files[root + "/t2.txt"] = r.choice(["x y\nz\n", "k:v:w\nm:n\n;c\nq\n", "ooo aaa\nbob\nzed"])
        files[root + "/t3.txt"] = "p q r\ns t u\n"
        files[root + "/empty.txt"] = ""
        if s.o.get("filters"):
            for n in ("w1.txt", "w2.txt", "w 3.txt"):
                files[root + "/" + n] = s.longtext() if r.random() < s.o.get("long", 0) else s.filetext()
            files[root + "/names.txt"] = r.choice(["t1.txt\nt2.txt\n", "w1.txt\nw 3.txt\n", "f1.txt\n\nt3.txt", "t2.txt\n\"w 3.txt\"\n", "a;b\nc,d\ne\tf\n\"q r\" s\n"])
        if any(s.w.get(x) for x in ("del", "copy", "rd")):
            files.update({root + "/yes.txt": "y\nYES\n" * 9, root + "/no.txt": "n\nno\n" * 9, root + "/all.txt": "A\n",
                          root + "/mix.txt": "y\nn\nyes\n\nall\n", root + "/odd.txt": "what\n\n?\nn\nok\ny\n",
                          root + "/d1/sp c.txt": "space\n"})
        files[root + "/bin/"] = ""
        if s.w.get("ext"):
            for n in EXT:
                files[root + "/bin/" + n] = "#!/bin/sh\n# %s\n%s\n" % (n, EXT[n])
            for n in r.sample(sorted(EXT), 3) if s.variants else []:
                files["%s/%s/%s" % (root, r.choice(["d1", "bin/s", "d1/s", "d2"]), n)] = "#!/bin/sh\n# %s\n%s\n" % (lambda k: (k, EXT[k]))(r.choice(["args", "wd"]))
        scripts = []
        if s.variants:
            files[root + "/bin/s/"] = files[root + "/d1/s/"] = ""
            for _ in range(r.randint(2, 5)):
                f = r.choice(["d1/c1.bat", "bin/c1.cmd", "c1.cmd", "bin/s/c1.bat", "d1/s/c2.bat", "d2/c2.cmd", "c2.cmd", "bin/c2.bat", "bin/s/c2.cmd", "d1/s/c1.bat", "d1/c2.bat", "d1/c1", "bin/c2"])
                files[root + "/" + f] = "@echo %s [%%1] [%%~n0]\n@set va=%s\n%s:sub\n@echo sub %s\n" % (f, f, r.choice(["", "@exit /b 3\n"]), f)
        if any(s.w.get(x) for x in ("callfile", "child")):
            for k in (2, 1):
                c = Ctx(delayed=False, scripts=list(scripts), quiet=True, sub="c%d" % k)
                s2 = s
                t = s2.script(c, 1, 2, 1, head=r.random() < .8 or True)
                t += ":sub\necho %s sub [%%1][%%2]\nset va=sub%d\n" % ("c%d" % k, k)
                files["%s/%sc%d.bat" % (root, r.choice(["", "bin/"]), k)] = t
                scripts.append("c%d" % k)
        c = Ctx(delayed=delayed, scripts=scripts)
        files[root + "/m.bat"] = s.script(c, r.choice(s.o.get("nseg", [1, 2, 2])), s.o.get("nline", 3), s.o.get("nsub", r.choice([0, 1, 2])))
        if s.big:
            files[root + "/big.txt"] = "".join("%d %s\n" % (i, "abcdefgh" * (i % 13)) for i in range(r.choice([900, 1700, 3000])))
        args = [s.word() if r.random() < .8 else s.word() + " " + s.word() for _ in range(r.choice(s.o.get("nargs", [0, 1, 2, 3])))]
        stdin = r.choice(["", "in one\nin two\n", "zz\n"] + (["1\n2\n\n3\n4\n5\n6\n7\n8\n"] if s.w.get("child") else [])) if s.w.get("ask") or s.w.get("ext") else ""
        if s.o.get("argv"):
            return s.cmdline(c, pid, root, files, args)
        return {"id": pid, "root": root, "main": root + "/m.bat", "args": args, "stdin": stdin, "files": files,
                "env": {"PATH": root + "/bin", "PATHEXT": ".bat:.cmd", "root": root, "PROMPT": "$P$G"},
                "stdin_file": r.random() < .5 or bool(s.w.get("child"))}
