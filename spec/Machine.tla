------------------------------ MODULE Machine ------------------------------
(***************************************************************************)
(* The state of the interpreter and the operations commands use on it.     *)
(*                                                                         *)
(*   k     control stack, innermost frame first                            *)
(*   env   environment: lower-case name -> stack of [n, v, x]              *)
(*   loc   SETLOCAL stack of the current scope: [env, de, cc]              *)
(*   de    delayed expansion, cc CMDLYCORRECT, echo ECHO state             *)
(*   el    ERRORLEVEL,  ab pending abort: "", "blk" (GOTO), "lvl" (EXIT/B) *)
(*   cwd   current directory, ds directory stack (top first)               *)
(*   fs    file tree: absolute path -> [d |-> directory?, c |-> content]   *)
(*   io    [i, o, e]: input key, output and error sinks                    *)
(*   ins   input key -> text not read yet,  bufs: sink -> text             *)
(*   args  %0..%9 %* %+,  fv FOR variables,  defs DEF routines             *)
(*   scr   script being read [f, ld, cmds, labels, pos, size, eof]         *)
(*   code  exit status (0..255) once k is empty                            *)
(***************************************************************************)
EXTENDS Expand

NoneFv == [c \in {} |-> ""]
Top(m) == m.k[1]
Push(m, fr) == [m EXCEPT !.k = <<fr>> \o @]
Pop(m) == [m EXCEPT !.k = Tail(@)]
SetTop(m, fr) == [m EXCEPT !.k[1] = fr]

(* ---- output ---- *)
(* The stages of a pipe run at once: what a left stage writes elsewhere than
   in the pipe comes out at no given time, or never when the script ends. *)
InStage(m) == \E k \in 1..Len(m.k) : m.k[k].f = "clone" /\ m.k[k].kind = "pipe"
Put(m, sink, t) ==
    IF t = "" \/ sink = "0" THEN m
    ELSE IF sink = "err" /\ InStage(m) THEN [m EXCEPT !.seen = @ \cup {"Racing"}]
    ELSE IF Ch(sink, 1) = "/"
         THEN IF sink \in DOMAIN m.fs THEN [m EXCEPT !.fs[sink].c = @ \o t] ELSE m
    ELSE [m EXCEPT !.bufs[sink] = @ \o t]
Out(m, t) == Put(m, m.io.o, t)
ErrLine == "<E>\n"           \* every diagnostic is one opaque line
Diag(m) == Put(m, m.io.e, ErrLine)

(* a command ends: Ret with a status, RetEl leaving ERRORLEVEL as it is *)
Ret(m, code) == [Pop(m) EXCEPT !.el = code]
RetEl(m) == Pop(m)
Fail(m, code) == Ret(Diag(m), code)

(* ---- environment ---- *)
EnvPutX(m, n0, v, x) ==
    LET n == AdjustName(n0) key == EnvKey(n) IN
    IF v = ""
    THEN IF key \in DOMAIN m.env /\ Len(m.env[key]) = 1
         THEN [m EXCEPT !.env = [q \in DOMAIN @ \ {key} |-> @[q]]] ELSE m
    ELSE IF key \in DOMAIN m.env
         THEN [m EXCEPT !.env[key][1] = [@ EXCEPT !.v = v, !.x = @ \/ x]]
         ELSE [m EXCEPT !.env = (key :> <<[n |-> n, v |-> v, x |-> x]>>) @@ @]
EnvPut(m, n, v) == EnvPutX(m, n, v, FALSE)
LocalKeys(m) == {q \in DOMAIN m.env : Ch(q, 1) = "_"}
PushLocals(m) ==
    [m EXCEPT !.env = [q \in DOMAIN @ |->
        IF Ch(q, 1) = "_" THEN <<[@[q][1] EXCEPT !.x = FALSE]>> \o @[q] ELSE @[q]]]
PopLocals(m) ==
    LET gone == {q \in LocalKeys(m) : Len(m.env[q]) = 1 /\ ~m.env[q][1].x}
    IN [m EXCEPT !.env = [q \in DOMAIN @ \ gone |->
          IF Ch(q, 1) # "_" \/ Len(@[q]) = 1 THEN @[q]
          ELSE IF @[q][1].x THEN <<@[q][1]>> \o SubSeq(@[q], 3, Len(@[q]))
          ELSE Tail(@[q])]]
EnvTops(env) == [q \in DOMAIN env |-> <<[env[q][1] EXCEPT !.x = FALSE]>>]
EnvNames(m) == SortStrs(DOMAIN m.env)

(* ---- variables of FOR ---- *)
SetFv(m, c, v) == [m EXCEPT !.fv = (c :> v) @@ @]
DelFv(m, c) == [m EXCEPT !.fv = [q \in DOMAIN @ \ {c} |-> @[q]]]
DelFvs(m, cs) == [m EXCEPT !.fv = [q \in DOMAIN @ \ cs |-> @[q]]]
VarCodes == "!\"#$%&'()*+,-./0123456789:;<=>?@ABCDEFGHIJKLMNOPQRSTUVWXYZ[\\]^_`abcdefghijklmnopqrstuvwxyz{|}~"
NthVar(c, n) == Ch(VarCodes, OrdFun[c] - 1 + n)       \* n-th variable after c

(* ---- files ---- *)
Exists(m, p) == p \in DOMAIN m.fs
IsDir(m, p) == Exists(m, p) /\ m.fs[p].d
IsFile(m, p) == Exists(m, p) /\ ~m.fs[p].d
PutFile(m, p, c) == [m EXCEPT !.fs = (p :> [d |-> FALSE, c |-> c]) @@ @]
RmPaths(m, ps) == [m EXCEPT !.fs = [q \in DOMAIN @ \ ps |-> @[q]]]
(* canonical form of a path: "." and ".." resolved, no empty component *)
RECURSIVE SplitPath(_)
SplitPath(s) == LET k == FindC(s, 1, {"/"}) IN
    IF k = 0 THEN <<s>> ELSE <<Upto(s, k - 1)>> \o SplitPath(From(s, k + 1))
CanonSeq(parts) == FoldLeft(LAMBDA a, x :
    IF x = "" \/ x = "." THEN a
    ELSE IF x = ".." THEN IF a = <<>> THEN a ELSE SubSeq(a, 1, Len(a) - 1)
    ELSE Append(a, x), <<>>, parts)
Canon(p) == LET c == Concat([k \in 1..Len(CanonSeq(SplitPath(p))) |-> "/" \o CanonSeq(SplitPath(p))[k]])
            IN IF c = "" THEN "/" ELSE c
(* what a name designates: ".." can only follow a directory that exists *)
NoWhere == "/<none>"
RECURSIVE NotThere(_, _, _)
NotThere(m, parts, i) ==         \* is there a ".." after something that is no directory?
    IF i > Len(parts) THEN FALSE
    ELSE (parts[i] = ".." /\ i > 1 /\ ~IsDir(m, Canon(Concat([k \in 1..(i - 1) |-> "/" \o parts[k]])))) \/ NotThere(m, parts, i + 1)
Abs(m, p) == LET f == FullPath(m, p) IN
             IF HasSub(f, "/../") \/ EndsWith(f, "/..")
             THEN IF NotThere(m, SplitPath(f), 1) THEN NoWhere \o "/" \o BaseName(f) ELSE Canon(f)
             ELSE Canon(f)

(* ---- scripts ---- *)
RECURSIVE LoadFrom(_, _, _, _)
LoadFrom(lines, i, cmds, labels) ==
    IF i > Len(lines) THEN [cmds |-> cmds, labels |-> labels]
    ELSE LET l == From(lines[i], SkipB(lines[i], 1)) IN
         IF (i = 1 /\ StartsWith(l, "#!")) \/ l = "" \/ StartsWith(l, "::")
         THEN LoadFrom(lines, i + 1, cmds, labels)
         ELSE IF Ch(l, 1) = ":"
         THEN LoadFrom(lines, i + 1, cmds,
                       Append(labels, [l |-> RTrimSet(l, DelimSet), at |-> Len(cmds) + 1]))
         ELSE LoadFrom(lines, i + 1, Append(cmds, l \o "\n"), labels)
LoadScript(m, f) == LET r == LoadFrom(SplitLines(m.fs[f].c), 1, <<>>, <<>>)
                    IN [f |-> f, ld |-> TRUE, cmds |-> r.cmds, labels |-> r.labels,
                        pos |-> 1, size |-> Len(m.fs[f].c), eof |-> FALSE]
NewScript(f) == [f |-> f, ld |-> FALSE, cmds |-> <<>>, labels |-> <<>>, pos |-> 1,
                 size |-> 0, eof |-> FALSE]
(* the script is loaded on first use, reloaded when its file changed; a
   script that vanished keeps its loaded content *)
Refresh(m, s) ==
    IF ~s.ld THEN [LoadScript(m, s.f) EXCEPT !.eof = s.eof]
    ELSE IF IsFile(m, s.f) /\ Len(m.fs[s.f].c) # s.size
         THEN LET n == LoadScript(m, s.f)
              IN [n EXCEPT !.pos = IF s.pos > Len(n.cmds) THEN 1 ELSE s.pos, !.eof = s.eof]
    ELSE s
LabelMatch(l, name) == StartsWithCI(l, name) /\ EndsWord(Ch(l, Len(name) + 1))
FindLabel(s, name) ==     \* index in cmds, 0 if none
    LET c == {k \in 1..Len(s.labels) : LabelMatch(s.labels[k].l, name)}
    IN IF c = {} THEN 0 ELSE s.labels[CHOOSE k \in c : \A q \in c : k <= q].at
(* The next logical line: physical lines are expanded one by one and joined
   until every block is closed.  [st: "line" | "eof" | "open", t, pos] *)
RECURSIVE TakeLine(_, _, _, _)
TakeLine(m, s, pos, acc) ==
    LET t == acc \o ReplaceVars(m, s.cmds[pos])
        c == Complete(t, 1)
    IN IF c = "ok" THEN [st |-> "line", t |-> IF Last1(t) = "\n" THEN Upto(t, Len(t) - 1) ELSE t,
                         pos |-> pos + 1]
       ELSE IF pos >= Len(s.cmds) THEN [st |-> "open", t |-> "", pos |-> pos + 1]
       ELSE TakeLine(m, s, pos + 1, t)

(* ---- commands found on disk ---- *)
SplitPathVar(s, c) == LET RECURSIVE go(_)
                          go(x) == LET k == FindC(x, 1, {c}) IN
                                   IF x = "" THEN <<>>
                                   ELSE IF k = 0 THEN <<x>>
                                   ELSE <<Upto(x, k - 1)>> \o go(From(x, k + 1))
                      IN go(s)
PathOf(m) == IF EnvHas(m, "PATH") THEN SplitPathVar(EnvGet(m, "PATH"), ":") ELSE <<>>
PathExt(m) == IF EnvHas(m, "PATHEXT") THEN SplitPathVar(EnvGet(m, "PATHEXT"), ":") ELSE <<>>
FindFile(m, name) ==     \* absolute path, "" if none
    LET dirs == IF FindC(name, 1, {"/"}) # 0 THEN <<"">> ELSE <<"">> \o PathOf(m)
        Base(d) == IF d = "" THEN FullPath(m, name)
                   ELSE FullPath(m, IF Last1(d) = "/" THEN d \o name ELSE d \o "/" \o name)
        cands == FoldLeft(LAMBDA a, d : a \o [k \in 1..(Len(PathExt(m)) + 1) |->
                     IF k > Len(PathExt(m)) THEN Base(d) ELSE Base(d) \o PathExt(m)[k]], <<>>, dirs)
        ok == {k \in 1..Len(cands) : IsFile(m, Canon(cands[k]))}
    IN IF name = "" \/ ok = {} THEN "" ELSE Canon(cands[CHOOSE k \in ok : \A q \in ok : k <= q])
IsBatch(p) == Lower(ExtPart(p)) \in {".bat", ".cmd"}

(* ---- input ---- *)
ReadLine(m) ==   \* [l, rest]
    LET s == m.ins[m.io.i] k == FindC(s, 1, {"\n"})
    IN IF k = 0 THEN [l |-> s, rest |-> ""] ELSE [l |-> Upto(s, k - 1), rest |-> From(s, k + 1)]

(* ---- control ---- *)
NoR == NoRedir
El(op, txt, r) == [op |-> op, txt |-> txt, r |-> r]
LineFrame(els) == [f |-> "line", els |-> els, r |-> NoR]
ExpandR(m, r) == [r EXCEPT !.in = IF @ = "" THEN "" ELSE Target(DelayedExpand(m, @)),
                           !.out = IF @ = "" THEN "" ELSE Target(DelayedExpand(m, @)),
                           !.err = IF @ = "" THEN "" ELSE Target(DelayedExpand(m, @))]
RunLine(m, s) ==
    IF Ch(s, SkipB(s, 1)) = ":" THEN m
    ELSE LET els == ParseLine(s) IN
         IF els = <<>> THEN Diag(m)
         ELSE Push(m, LineFrame([k \in 1..Len(els) |-> [els[k] EXCEPT !.r = ExpandR(m, @)]]))
RunBlock(m, s) == Push(m, [f |-> "block", lines |-> BlockLines(s, 1)])
(* the line a command belongs to: index of its frame in k, 0 if none *)
RECURSIVE LineIx(_, _)
LineIx(m, i) == IF i > Len(m.k) THEN 0
                ELSE IF m.k[i].f = "line" THEN i
                ELSE IF m.k[i].f \in {"io", "defret", "cmd"} THEN LineIx(m, i + 1) ELSE 0
Following(m) == LET i == LineIx(m, 2) IN IF i = 0 THEN <<>> ELSE m.k[i].els
LineR(m) == LET i == LineIx(m, 2) IN IF i = 0 THEN NoR ELSE m.k[i].r
DropRest(m) == LET i == LineIx(m, 2) IN IF i = 0 THEN m ELSE [m EXCEPT !.k[i].els = <<>>]

(* redirections of an element, opened in the order input, output, error *)
OpenIn(m, p) ==
    IF p = "" THEN m
    ELSE LET a == Abs(m, p) key == "f" \o Str(m.n) IN
         IF p = "/dev/null" THEN [m EXCEPT !.io.i = "nul"]
         ELSE IF p = NoName \/ IsDir(m, a) THEN [m EXCEPT !.io.i = "nul"]   \* a directory has no line
         ELSE IF ~IsFile(m, a) THEN Diag(m)
         ELSE [m EXCEPT !.io.i = key, !.ins = (key :> m.fs[a].c) @@ @]
OpenOut(m, p, app) ==   \* [m, sink]
    LET a == Abs(m, p) IN
    IF p = "/dev/null" THEN [m |-> m, s |-> "0"]
    ELSE IF p = NoName \/ IsDir(m, a) \/ ~IsDir(m, DirName(a)) THEN [m |-> Diag(m), s |-> ""]
    ELSE IF app /\ IsFile(m, a) THEN [m |-> m, s |-> a]
    ELSE [m |-> PutFile(m, a, ""), s |-> a]
Redirect(m, r) ==
    LET a == OpenIn(m, r.in)
        o == IF r.out = "" THEN [m |-> a, s |-> ""] ELSE OpenOut(a, r.out, r.oapp)
        b == IF o.s = "" THEN o.m ELSE [o.m EXCEPT !.io.o = o.s]
        e == IF r.err = "" THEN [m |-> b, s |-> ""] ELSE OpenOut(b, r.err, r.eapp)
        c == IF e.s = "" THEN e.m ELSE [e.m EXCEPT !.io.e = e.s]
    IN CASE r.dup = "2>1" -> [c EXCEPT !.io.e = c.io.o]
         [] r.dup = "1>2" -> [c EXCEPT !.io.o = c.io.e]
         [] OTHER -> c

(* a copy of the interpreter: what it changes stays with it, except files
   and the streams it shares *)
Saved(m) == [env |-> m.env, loc |-> m.loc, de |-> m.de, cc |-> m.cc, echo |-> m.echo,
             el |-> m.el, ab |-> m.ab, cwd |-> m.cwd, ds |-> m.ds, io |-> m.io,
             args |-> m.args, fv |-> m.fv, defs |-> m.defs, scr |-> m.scr]
Clone(m, kind, extra) ==
    [Push(m, [f |-> "clone", kind |-> kind, saved |-> Saved(m), x |-> extra])
        EXCEPT !.env = EnvTops(@), !.loc = <<>>, !.scr = [@ EXCEPT !.ld = FALSE]]
Restore(m, s) ==
    [m EXCEPT !.env = s.env, !.loc = s.loc, !.de = s.de, !.cc = s.cc, !.echo = s.echo,
              !.el = s.el, !.ab = s.ab, !.cwd = s.cwd, !.ds = s.ds, !.io = s.io,
              !.args = s.args, !.fv = s.fv, !.defs = s.defs, !.scr = s.scr]

(* arguments *)
QuoteArg(s) == IF FindC(s, 1, {" ", ",", ";", "=", "\t", "&", "|"}) # 0
               THEN "\"" \o ReplaceStr(s, "\"", "^\"") \o "\"" ELSE ReplaceStr(s, "\"", "^\"")
Arg(seq, k) == IF k <= Len(seq) THEN seq[k] ELSE ""
MkArgs(zero, seq, star, plus) ==
    [c \in DigitSet \cup {"*", "+"} |->
        IF c = "0" THEN zero ELSE IF c = "*" THEN star ELSE IF c = "+" THEN plus
        ELSE Arg(seq, DigFun[c])]
RestFrom(seq, k) == SubSeq(seq, k, Len(seq))
=============================================================================
