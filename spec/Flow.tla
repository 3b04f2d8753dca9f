-------------------------------- MODULE Flow --------------------------------
(***************************************************************************)
(* Control flow of the interpreter: scripts, lines, operators, pipes,      *)
(* blocks, IF, FOR, CALL, child scripts, GOTO, EXIT, DEF.                  *)
(* Every operator maps a machine to the machine after one small step; the  *)
(* frame it works on is the innermost one.                                 *)
(***************************************************************************)
EXTENDS ForF

(* ---- the prompt, printed before a line when ECHO is on ---- *)
RECURSIVE PromptFrom(_, _, _)
PromptFrom(m, p, i) ==
    IF i > Len(p) THEN ""
    ELSE IF Ch(p, i) # "$" THEN Ch(p, i) \o PromptFrom(m, p, i + 1)
    ELSE LET c == Lower(Ch(p, i + 1))
             t == CASE c = "a" -> "&" [] c = "b" -> "|" [] c = "c" -> "(" [] c = "f" -> ")"
                    [] c = "g" -> ">" [] c = "l" -> "<" [] c = "q" -> "=" [] c = "s" -> " "
                    [] c = "_" -> "\n" [] c = "$" -> "$" [] c = "p" -> m.cwd
                    [] c = "n" -> Ch(m.cwd, 1)
                    [] c = "+" -> Concat([k \in 1..Len(m.ds) |-> "+"])
                    [] OTHER -> ""
         IN t \o PromptFrom(m, p, i + 2)
PromptText(m) == IF EnvHas(m, "PROMPT") THEN PromptFrom(m, EnvGet(m, "PROMPT"), 1) ELSE ""

(* ---- scripts ---- *)
EndScript(m) == Pop(m)
ScriptStep(m0) ==
    LET m == IF m0.ab = "blk" THEN [m0 EXCEPT !.ab = ""] ELSE m0 IN
    IF m.ab = "lvl" \/ m.scr.eof THEN EndScript(m)
    ELSE LET s == Refresh(m, m.scr) IN
         IF s.pos > Len(s.cmds) THEN EndScript([m EXCEPT !.scr = [s EXCEPT !.eof = TRUE]])
         ELSE LET l == TakeLine(m, s, s.pos, "")
                  n == [m EXCEPT !.scr = [s EXCEPT !.pos = l.pos,
                                          !.eof = l.st = "open" \/ l.pos > Len(s.cmds)]]
                  b == From(l.t, SkipSet(l.t, 1, {" ", "\t", ";"}))
                  e == IF m.echo /\ Ch(b, 1) # "@" THEN Out(n, PromptText(m) \o l.t \o "\n") ELSE n
              IN IF l.st = "open" THEN Diag([n EXCEPT !.scr.eof = TRUE])
                 ELSE RunLine(e, l.t)

(* ---- commands read from the input of the interpreter (no script): the prompt is shown
   before each of them, ">" before each line that continues one ---- *)
RECURSIVE TakeInput(_, _)
TakeInput(m, acc) ==     \* [m, st: "line", "none", "open"; t, eof]
    IF m.ins[m.io.i] = "" THEN [m |-> m, st |-> IF acc = "" THEN "none" ELSE "open", t |-> "", eof |-> TRUE]
    ELSE LET r == ReadLine(m)
             n == [m EXCEPT !.ins[m.io.i] = r.rest]
             x == ReplaceVars(m, r.l \o "\n")
             t == acc \o x
             void == Ch(r.l, SkipAB(r.l, 1)) \in {"", ":"}
         IN IF void THEN IF acc = "" THEN [m |-> n, st |-> "none", t |-> "", eof |-> FALSE] ELSE TakeInput(n, acc)
            ELSE IF Complete(t, 1) = "ok" THEN [m |-> n, st |-> "line", t |-> Upto(t, Len(t) - 1), eof |-> FALSE]
            ELSE TakeInput(Out(n, ">"), t)
InputStep(m0) ==
    LET m == IF m0.ab = "blk" THEN [m0 EXCEPT !.ab = ""] ELSE m0
        p == IF m.echo THEN Out(m, "\n" \o PromptText(m)) ELSE m
        l == TakeInput(p, "")
        n == [l.m EXCEPT !.scr.eof = l.eof]
    IN IF m.ab = "lvl" \/ m.scr.eof THEN Pop(m)
       ELSE CASE l.st = "line" -> RunLine(n, l.t)
              [] l.st = "none" -> n
              [] l.st = "open" -> Diag(n)

(* ---- one line: operators ---- *)
Look(txt) == LookAhead(txt, SkipAB(txt, 1))
Skips(m, op) == \/ op = "&&" /\ m.el # 0
                \/ op = "||" /\ m.el = 0
                \/ op = "|"
RECURSIVE Chain(_)            \* number of stages of the pipe starting at head
Chain(els) == IF Len(els) >= 2 /\ els[2].op = "|" THEN 1 + Chain(Tail(els)) ELSE 1
CmdFrame(t) == [f |-> "cmd", t |-> t, again |-> FALSE]
IoFrame(m) == [f |-> "io", io |-> m.io]
LineStep(m) ==
    LET fr == Top(m) IN
    IF m.ab # "" \/ fr.els = <<>> THEN Pop(m)
    ELSE LET h == Head(fr.els)
             look == Look(h.txt)
             n == Chain(fr.els)
             next == SetTop(m, [fr EXCEPT !.els = Tail(@), !.r = h.r])
         IN IF Skips(m, h.op) THEN IF look THEN Pop(m) ELSE next
            ELSE IF n > 1 /\ ~look
            THEN LET last == fr.els[n]
                     p == SetTop(m, [fr EXCEPT !.els = RestFrom(@, n + 1), !.r = last.r])
                 IN Push(Push(p, IoFrame(m)),
                         [f |-> "pipe", todo |-> SubSeq(fr.els, 1, n - 1), last |-> last, inp |-> ""])
            ELSE LET a == Push(next, IoFrame(m))
                     b == IF look THEN a ELSE Redirect(a, h.r)
                 IN Push(b, CmdFrame(h.txt))
IoStep(m) == [Pop(m) EXCEPT !.io = Top(m).io]

(* ---- pipes: the left stages run in copies of the interpreter, the last
   one in the interpreter itself; a stage reads what the previous wrote ---- *)
Feed(m, key) == [m EXCEPT !.io.i = "p" \o key, !.ins = (("p" \o key) :> m.bufs[key]) @@ @]
NewBuf(m, key) == [m EXCEPT !.bufs = (key :> "") @@ @]
PipeStep(m) ==
    LET fr == Top(m) key == "b" \o Str(m.n)
        Input(x) == IF fr.inp = "" THEN x ELSE Feed(x, fr.inp)
    IN IF fr.todo = <<>>
       THEN LET a == Redirect(Input(Pop(m)), fr.last.r) IN Push(a, CmdFrame(fr.last.txt))
       ELSE LET st == Head(fr.todo)
                a == Clone(NewBuf(SetTop(m, [fr EXCEPT !.todo = Tail(@), !.inp = key]), key),
                           "pipe", "")
                b == Redirect([Input(a) EXCEPT !.io.o = key], st.r)
            IN Push(b, CmdFrame(st.txt))
CloneStep(m) ==      \* the copy is gone; only files and streams remain
    LET fr == Top(m) c == m.el IN
    CASE fr.kind = "ext" -> [Restore(Pop(m), fr.saved) EXCEPT !.el = c]
      [] OTHER -> Restore(Pop(m), fr.saved)

(* ---- blocks ---- *)
BlockCmdStep(m, t) ==
    LET e == BlockEnd(t, 1) IN
    IF e = 0 \/ SkipB(t, e + 1) <= Len(t) THEN Fail(m, 27)
    ELSE RunBlock(Pop(m), Sub(t, 2, e - 1))
BlockStep(m) ==
    LET fr == Top(m) IN
    IF m.ab # "" \/ fr.lines = <<>> THEN Pop(m)
    ELSE RunLine(SetTop(m, [fr EXCEPT !.lines = Tail(@)]), Head(fr.lines))

(* ---- IF ---- *)
Body(m, t, follow) ==
    LET els == <<El("", "(" \o t \o ")", IF follow THEN LineR(m) ELSE NoR)>>
               \o (IF follow THEN Following(m) ELSE <<>>)
    IN LineFrame(els)
IfStep(m, t) ==
    LET s == From(t, 3)
        c == Cond(m, s)
        i == SkipB(s, c.e)
        Run(blk, follow) == Push(Pop(DropRest(m)), Body(m, Sub(s, blk.b, blk.e - 1), follow))
        Bad(code) == Fail(DropRest(m), code)
        tb == TakeBlock(s, i)
        j == SkipB(s, tb.nxt)
        IsElse == Lower(Sub(s, j, j + 3)) = "else" /\ EndsWord(Ch(s, j + 4))
        eb == TakeBlock(s, SkipB(s, j + 4))
        k == SkipB(s, eb.nxt)
    IN IF c.r = "bad" THEN Bad(c.code)
       ELSE IF c.r = "yes"
            THEN Run(tb, SkipB(s, IF Ch(s, tb.e) = ")" THEN tb.e + 1 ELSE tb.e) > Len(s))
       ELSE IF Ch(s, i) # "(" THEN RetEl(DropRest(m))
       ELSE IF IsElse THEN IF k <= Len(s) /\ Ch(s, k) # "\n" THEN Bad(4) ELSE Run(eb, TRUE)
       ELSE IF j <= Len(s) THEN Bad(4)
       ELSE RetEl(DropRest(m))

(* ---- FOR ---- *)
TextInput(l) == Ch(l, 1) \in {"'", "\"", "`"}
Between(l) == LET q == FindC(l, 2, {Ch(l, 1)}) IN IF q = 0 THEN "" ELSE Sub(l, 2, q - 1)
Closed(l) == FindC(l, 2, {Ch(l, 1)}) # 0
ForFKind(p) ==
    LET c == Ch(p.list, 1) IN
    IF c = "'" THEN IF p.opt.bq THEN "string" ELSE "command"
    ELSE IF c = "`" THEN IF p.opt.bq THEN "command" ELSE "violation"
    ELSE IF c = "\"" /\ ~p.opt.bq THEN "string"
    ELSE "files"
ForFVars(p) == [k \in 1..Len(p.opt.toks) |-> NthVar(p.v, k - 1)]
ForFFrame(p, body, lines) ==
    [f |-> "forf", lines |-> RestFrom(lines, p.opt.skip + 1), opt |-> p.opt, v |-> p.v, body |-> body]
StringLines(s) == SplitLines(s)
StartForF(m0, p, body) ==      \* m0: the FOR command is still on top
    LET m == DropRest(m0) kind == ForFKind(p) key == "b" \o Str(m.n)
        files == ParamsFrom(m, p.list, 1)
        paths == [k \in 1..Len(files) |-> Abs(m, files[k])]
    IN IF \E k \in 1..Len(p.opt.toks) : ForFVars(p)[k] \in DOMAIN m.fv THEN Fail(m, 25)
       ELSE IF kind = "violation" THEN Fail(m, 20)
       ELSE IF kind # "files" /\ ~Closed(p.list) THEN Fail(m, -1)
       ELSE IF kind = "string" THEN Push(Pop(m), ForFFrame(p, body, StringLines(Between(p.list))))
       ELSE IF kind = "command"
            THEN LET a == Push(Pop(m), [f |-> "forfin", p |-> p, body |-> body, key |-> key])
                     b == Clone(NewBuf(a, key), "ff", "")
                 IN RunBlock([b EXCEPT !.io.o = key], Between(p.list))
       ELSE IF files = <<>> THEN Ret(m, -1)
       ELSE IF ~IsFile(m, paths[1]) THEN Fail(m, 1)
       ELSE Push(Pop(m), ForFFrame(p, body,
                 FoldLeft(LAMBDA a, k : a \o SplitLines(m.fs[paths[k]].c), <<>>, Ix(Len(paths)))))
ForFInStep(m) ==
    LET fr == Top(m) IN SetTop(m, ForFFrame(fr.p, fr.body, SplitLines(m.bufs[fr.key])))
ForFStep(m) ==
    LET fr == Top(m)
        names == [k \in 1..Len(fr.opt.toks) |-> NthVar(fr.v, k - 1)]
        Done == DelFvs(Pop(m), {names[k] : k \in 1..Len(names)})
    IN IF m.ab # "" \/ fr.lines = <<>> THEN Done
       ELSE LET l == Head(fr.lines)
                n == SetTop(m, [fr EXCEPT !.lines = Tail(@)])
                tb == TokBounds(l, 1, Set(fr.opt.delims))
                fv == FoldLeft(LAMBDA a, k : (names[k] :> TokValue(l, tb, fr.opt.toks[k])) @@ a,
                               m.fv, Ix(Len(names)))
            IN IF (l # "" /\ Ch(l, 1) \in Set(fr.opt.eol)) \/ (m.cc /\ SkipB(l, 1) > Len(l)) THEN n
               ELSE Push([n EXCEPT !.fv = fv], LineFrame(fr.body))

ForLBad(m) == Fail(DropRest(m), 24)
StartForL(m, p, body) ==
    LET ps == ParamsFrom(m, p.list, 1)
        n == [k \in 1..3 |-> IF k > Len(ps) THEN 0 ELSE StrToL(ps[k], 1).v]
    IN IF Len(ps) > 3 \/ \E k \in 1..Len(ps) : ps[k] # "" /\ StrToL(ps[k], 1).e <= Len(ps[k]) THEN ForLBad(m)
       ELSE Push(Pop(DropRest(m)), [f |-> "forl", i |-> n[1], inc |-> n[2], end |-> n[3], v |-> p.v, body |-> body])
ForLStep(m) ==
    LET fr == Top(m) IN
    IF m.ab # "" \/ fr.i > fr.end THEN DelFv(Pop(m), fr.v)
    ELSE Push(SetFv(SetTop(m, [fr EXCEPT !.i = @ + fr.inc]), fr.v, Str(fr.i)), LineFrame(fr.body))

ForSStep(m) ==      \* simple FOR: items are taken one by one, patterns when reached
    LET fr == Top(m) Done == DelFv(Pop(m), fr.v)
        Run(fr2, item) == Push(SetFv(SetTop(m, fr2), fr.v, item), LineFrame(fr.body))
    IN IF m.ab # "" THEN Done
       ELSE IF fr.items # <<>> THEN Run([fr EXCEPT !.items = Tail(@)], Head(fr.items))
       ELSE LET it == NextItem(fr.list, fr.i) IN
            IF ~it.ok THEN Done
            ELSE IF HasGlob(it.t) THEN SetTop(m, [fr EXCEPT !.i = it.e, !.items = GlobItems(m, it.t)])
            ELSE Run([fr EXCEPT !.i = it.e], it.t)
ForStep(m, t) ==
    LET p == ParseFor(m, From(t, 4)) IN
    IF p.err # 0 THEN Fail(DropRest(m), p.err)
    ELSE LET body == Body(m, p.body, TRUE).els IN
         CASE p.kind = "/l" -> StartForL(m, p, body)
           [] p.kind = "/f" -> StartForF(m, p, body)
           [] OTHER -> Push(Pop(DropRest(m)), [f |-> "fors", list |-> p.list, i |-> 1, items |-> <<>>,
                                               v |-> p.v, body |-> body])

(* ---- GOTO, EXIT ---- *)
Jump(m, f, name) ==      \* [ok, scr]
    LET s == IF f = "" THEN (IF m.scr.f = "" THEN m.scr ELSE Refresh(m, m.scr))
             ELSE IF f = m.scr.f THEN Refresh(m, m.scr) ELSE LoadScript(m, f)
        at == FindLabel(s, name)
    IN [ok |-> at # 0, scr |-> [s EXCEPT !.pos = at, !.eof = FALSE]]
RECURSIVE GotoOpts(_, _, _, _)
GotoOpts(m, s, q, f) ==   \* [q, f, s]
    LET p == Param(m, s, 1) w == Lower(p.t) IN
    IF p.ok /\ ~m.cc /\ w = "/q" THEN GotoOpts(m, From(s, p.e), TRUE, f)
    ELSE IF p.ok /\ ~m.cc /\ StartsWith(w, "/f")
         THEN GotoOpts(m, From(s, p.e), q,
                       LET x == From(p.t, 3) IN Abs(m, IF Ch(x, 1) = ":" THEN From(x, 2) ELSE x))
    ELSE [q |-> q, f |-> f, s |-> s]
GotoStep(m, t) ==
    LET o == GotoOpts(m, From(t, 5), FALSE, "")
        s == RTrimSet(From(o.s, SkipB(o.s, 1)), DelimSet)
        x == DelayedExpand(m, s)
        l == IF Ch(s, 1) = ":" THEN x ELSE ":" \o x
    IN IF Lower(l) = ":eof" THEN RetEl([m EXCEPT !.ab = "lvl"])
       ELSE IF o.f # "" /\ ~IsFile(m, o.f) THEN Fail(m, 1)
       ELSE LET j == Jump(m, o.f, l) IN
            IF j.ok THEN RetEl([m EXCEPT !.ab = "blk", !.scr = j.scr])
            ELSE IF o.q THEN RetEl(m) ELSE Fail(m, 6)

RECURSIVE ToClone(_)
ToClone(k) == IF k = <<>> THEN <<>> ELSE IF k[1].f = "clone" THEN k ELSE ToClone(Tail(k))
ExitStep(m, t) ==
    LET p == Param(m, t, 5)
        q == Param(m, t, p.e)
        Leave(c) == [m EXCEPT !.k = ToClone(@), !.el = c]
    IN IF ~p.ok THEN Leave(m.el)
       ELSE IF Lower(p.t) = "/b"
            THEN IF ~q.ok THEN RetEl([m EXCEPT !.ab = "lvl"])
                 ELSE IF q.e <= Len(t) THEN Fail(m, 4)
                 ELSE Ret([m EXCEPT !.ab = "lvl"], AToI(q.t))
       ELSE Leave(AToI(p.t))

(* ---- CALL ---- *)
RECURSIVE CallArgs(_, _, _, _, _, _, _)
CallArgs(m, s, i, ext, nb, lbl, file) ==    \* [err, lbl, file, i]
    LET p == Param(m, s, i) IN
    IF ~p.ok THEN [err |-> 0, lbl |-> lbl, file |-> file, i |-> i]
    ELSE IF Lower(p.t) = "/e" /\ nb = 0
         THEN IF m.cc THEN [err |-> 7, lbl |-> "", file |-> "", i |-> i]
              ELSE CallArgs(m, s, p.e, TRUE, nb, lbl, file)
    ELSE IF (nb > 0 /\ ~ext) \/ nb = 2 THEN [err |-> 0, lbl |-> lbl, file |-> file, i |-> i]
    ELSE IF Ch(p.t, 1) = ":"
         THEN CallArgs(m, s, p.e, ext, nb + 1, IF lbl = "" THEN p.t ELSE lbl, file)
    ELSE CallArgs(m, s, p.e, ext, nb + 1, lbl, IF file = "" THEN p.t ELSE file)
EscArg(t) == FoldLeft(LAMBDA a, i : a \o (IF SubSeq(t, i, i) \in {" ", ";", ",", "\t", "\""} THEN "^" ELSE "")
                                      \o SubSeq(t, i, i), "", Ix(Len(t)))
SubArgs(m, zero, s) ==   \* arguments of a subroutine called with text s
    LET ps == ParamsFrom(m, s, 1)
    IN MkArgs(zero, ps, DelayedExpand(m, s),
              Concat([k \in 1..Max2(0, Len(ps) - 9) |-> EscArg(ps[k + 9]) \o " "]))
CallFrame(m) == [f |-> "call-ret", scr |-> m.scr, fv |-> m.fv, args |-> m.args, loc |-> m.loc]
EnterCall(m, scr, zero, rest) ==
    LET a == Push(Pop(m), CallFrame(m))
        b == [a EXCEPT !.scr = scr, !.args = SubArgs(m, zero, rest), !.fv = NoneFv, !.loc = <<>>]
    IN Push(b, [f |-> "script"])
CallEnd(m) ==      \* SETLOCAL left open by the callee stays above the caller's
    LET fr == Top(m) IN
    [Pop(m) EXCEPT !.ab = "", !.scr = fr.scr, !.fv = fr.fv, !.args = fr.args, !.loc = @ \o fr.loc]
CallStep(m, t) ==
    LET s0 == From(t, 5) s == From(s0, SkipB(s0, 1))
        a == CallArgs(m, s, 1, FALSE, 0, "", "")
        rest == From(s, a.i)
        full == FindFile(m, a.file)
        f == IF a.file = "" THEN "" ELSE Abs(m, a.file)
    IN IF a.err # 0 THEN Fail(m, a.err)
       ELSE IF a.lbl = "" /\ a.file = "" THEN Fail(m, 8)
       ELSE IF a.lbl # ""
            THEN IF f # "" /\ ~IsFile(m, f) THEN Fail(m, 1)
                 ELSE LET j == Jump(m, f, a.lbl) IN
                      IF j.ok THEN EnterCall(m, j.scr, a.lbl, rest) ELSE Fail(m, 6)
       ELSE IF full = "" THEN Fail(m, 3)
       ELSE IF IsBatch(full) THEN EnterCall(m, NewScript(full), full, rest)
       ELSE RunBlock(Pop(m), ReplaceVars(m, full \o " " \o DelayedExpand(m, From(rest, SkipB(rest, 1)))))

(* ---- scripts run without CALL: a copy of the interpreter ---- *)
RunChild(m, full, t) ==
    LET ps == ParamsFrom(m, t, 1)
        line == DelayedExpand(m, From(t, SkipB(t, 1)))
        p1 == Param(m, line, 1)
        star == From(line, SkipB(line, p1.e))
        a == Clone(Pop(m), "ext", "")
        b == [a EXCEPT !.fv = NoneFv, !.scr = NewScript(full),
                       !.args = MkArgs(full, Tail(ps), star,
                                  Concat([k \in 1..Max2(0, Len(ps) - 10) |-> QuoteArg(ps[k + 10]) \o " "]))]
    IN Push(EnvPut(b, "PBAT_IS_SCRIPT", "true"), [f |-> "script"])

(* ---- DEF routines ---- *)
DefNames(m) == DOMAIN m.defs
ExpandDef(m, body, rest0) ==
    LET rest == From(rest0, SkipB(rest0, 1))
        ps == ParamsFrom(m, rest, 1)
        names == <<"$1", "$2", "$3", "$4", "$5", "$6", "$7", "$8", "$9", "$:">>
    IN FoldLeft(LAMBDA a, k : ReplaceStr(a, names[k], Arg(ps, k)), ReplaceStr(body, "$*", rest), Ix(10))
RunDef(m, name, t) ==
    LET a == SetTop(m, [f |-> "defret", fv |-> m.fv])
        b == PushLocals([a EXCEPT !.fv = NoneFv])
    IN Push(b, CmdFrame(ExpandDef(m, m.defs[name].b, From(t, Len(name) + 1))))
DefRet(m) == LET fv == Top(m).fv IN PopLocals([Pop(m) EXCEPT !.fv = fv])
=============================================================================
