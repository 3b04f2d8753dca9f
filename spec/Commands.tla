------------------------------ MODULE Commands ------------------------------
(***************************************************************************)
(* Commands on the state of the interpreter: variables, options, arguments,*)
(* directories, output.  C_x(m, t): t is the whole text of the command and *)
(* the innermost frame of m is the command itself.                         *)
(***************************************************************************)
EXTENDS Flow

PunctSet == Set("!\"#$%&'()*+,-./:;<=>?@[\\]^_`{|}~")
EndOfLine(m, s) == DelayedExpand(m, s)

(* ---- ECHO ---- *)
EchoOnMsg == "Echo command enabled\n"
EchoOffMsg == "Echo command disabled\n"
C_echo(m, t) ==
    LET c == Ch(t, 5)
        p == Param(m, t, 5)
        q == Param(m, t, p.e)
        Alone(w) == Lower(p.t) = w /\ ~q.ok
    IN IF c \in PunctSet THEN Ret(Out(m, EndOfLine(m, From(t, 6)) \o "\n"), 0)
       ELSE IF c \notin {" ", "\t", ""} THEN Fail(m, 3)
       ELSE IF ~p.ok THEN Ret(Out(m, IF m.echo THEN EchoOnMsg ELSE EchoOffMsg), 0)
       ELSE IF Alone("off") THEN Ret([m EXCEPT !.echo = FALSE], 0)
       ELSE IF Alone("on") THEN Ret([m EXCEPT !.echo = TRUE], 0)
       ELSE Ret(Out(m, EndOfLine(m, From(t, 6)) \o "\n"), 0)

C_pecho(m, t) ==
    LET c == Ch(t, 6) IN
    IF c \notin PunctSet \cup {" ", "\t", ""} THEN Fail(m, 3)
    ELSE Ret(Out(m, PromptFrom(m, EndOfLine(m, From(t, 7)), 1) \o "\n"), 0)
C_pause(m) == LET s == m.ins[m.io.i] IN
              Ret([Out(m, "Press any key to continue...\n") EXCEPT !.ins[m.io.i] = From(s, 2)], 0)
C_prompt(m, t) == LET p == EndOfLine(m, From(t, SkipB(t, 7)))
                  IN Ret(EnvPut(m, "PROMPT", IF p = "" THEN "$P$G" ELSE p), 0)

(* ---- SET ---- *)
Listing(m, prefix) ==
    LET names == EnvNames(m)
        sel == SelectSeq(names, LAMBDA q : StartsWithCI(m.env[q][1].n, prefix))
    IN Concat([k \in 1..Len(sel) |-> m.env[sel[k]][1].n \o "=" \o m.env[sel[k]][1].v \o "\n"])
SetList(m, t) == LET l == Listing(m, From(t, SkipB(t, 4)))
                 IN IF l = "" THEN Fail(m, 4) ELSE Ret(Out(m, l), 0)
Assign(m, t, s, x) ==      \* s: text after the switch, t: whole command
    LET raw == EndOfLine(m, From(s, SkipB(s, 1)))
        q == FindLastC(raw, Len(raw), {"\""})
        e == IF Ch(raw, 1) = "\"" /\ q > 1 THEN Sub(raw, 2, q - 1) ELSE raw
        k == FindC(e, 1, {"="})
    IN IF SkipB(s, 1) > Len(s) THEN Ret(m, 0)
       ELSE IF k = 0 THEN SetList(m, t)
       ELSE Ret(EnvPutX(m, Upto(e, k - 1), From(e, k + 1), x), 0)
Ask(m, s0) ==
    LET s == From(s0, SkipB(s0, 1))
        e == IF Ch(s, 1) = "\"" THEN Param(m, s, 1).t ELSE EndOfLine(m, s)
        k == FindC(e, 1, {"="})
        r == ReadLine(m)
        a == [Out(m, From(e, k + 1)) EXCEPT !.ins[m.io.i] = r.rest]
    IN IF k = 0 THEN Fail(m, 4)
       ELSE Ret(EnvPut(a, Upto(e, k - 1), r.l), IF r.l = "" THEN 1 ELSE 0)

(* ---- SETLOCAL, ENDLOCAL ---- *)
RECURSIVE SetlocalOpts(_, _, _, _)
SetlocalOpts(m, s, i, o) ==      \* o: [push, de, cc, bad]
    LET p == Param(m, s, i) w == Lower(p.t) IN
    IF ~p.ok THEN o
    ELSE CASE w = "/q" -> SetlocalOpts(m, s, p.e, [o EXCEPT !.push = FALSE])
           [] w = "enabledelayedexpansion" -> SetlocalOpts([m EXCEPT !.de = TRUE], s, p.e, [o EXCEPT !.de = TRUE])
           [] w = "disabledelayedexpansion" -> SetlocalOpts([m EXCEPT !.de = FALSE], s, p.e, [o EXCEPT !.de = FALSE])
           [] w = "cmdlycorrect" -> SetlocalOpts(m, s, p.e, [o EXCEPT !.cc = TRUE])
           [] w = "cmdlyincorrect" -> SetlocalOpts(m, s, p.e, [o EXCEPT !.cc = FALSE])
           [] w \in {"enableextensions", "disableextension"} -> SetlocalOpts(m, s, p.e, o)
           [] OTHER -> [o EXCEPT !.bad = TRUE]
C_setlocal(m, t) ==
    LET o == SetlocalOpts(m, t, 9, [push |-> TRUE, de |-> m.de, cc |-> m.cc, bad |-> FALSE])
        n == [m EXCEPT !.de = o.de, !.cc = o.cc]
    IN IF o.bad THEN Fail(n, 4)
       ELSE RetEl(IF o.push THEN [n EXCEPT !.loc = <<[env |-> m.env, de |-> m.de, cc |-> m.cc]>> \o @] ELSE n)
C_endlocal(m, t) ==
    RetEl(IF m.loc = <<>> THEN m
          ELSE [m EXCEPT !.env = m.loc[1].env, !.de = m.loc[1].de, !.cc = m.loc[1].cc, !.loc = Tail(@)])

(* ---- SHIFT ---- *)
RECURSIVE ShiftOpts(_, _, _, _)
ShiftOpts(m, s, i, o) ==       \* o: [b, d, bad]
    LET p == Param(m, s, i)
        c == Ch(p.t, 2)
        j == IF Ch(p.t, 3) = ":" THEN 4 ELSE 3
        d == Ch(p.t, j)
        Bad == [o EXCEPT !.bad = TRUE]
    IN IF ~p.ok THEN o
       ELSE IF Ch(p.t, 1) # "/" THEN Bad
       ELSE IF c \in DigitSet THEN ShiftOpts(m, s, p.e, [o EXCEPT !.b = DigFun[c]])
       ELSE IF c \in {"s", "d"} /\ d \in DigitSet /\ Len(p.t) = j
            THEN ShiftOpts(m, s, p.e, IF c = "s" THEN [o EXCEPT !.b = DigFun[d]] ELSE [o EXCEPT !.d = DigFun[d]])
       ELSE Bad
Dig(k) == Ch(DIGITS, k + 1)
RECURSIVE Refill(_, _, _, _)
Refill(m, args, n, i) ==      \* position i of %+, next argument number n
    LET p == Param(m, args["+"], i) IN
    IF n > 9 THEN [args EXCEPT !["+"] = From(@, i)]
    ELSE IF ~p.ok THEN [c \in DOMAIN args |->
             IF c = "+" \/ (c \in DigitSet /\ DigFun[c] >= n) THEN "" ELSE args[c]]
    ELSE Refill(m, [args EXCEPT ![Dig(n)] = p.t], n + 1, p.e)
C_shift(m, t) ==
    LET o == ShiftOpts(m, t, 6, [b |-> 0, d |-> 1, bad |-> FALSE])
        moved == [c \in DOMAIN m.args |->
                     IF c \in DigitSet /\ DigFun[c] >= o.b /\ DigFun[c] + o.d <= 9
                     THEN m.args[Dig(DigFun[c] + o.d)] ELSE m.args[c]]
        first == Max2(o.b, 10 - o.d)
    IN IF o.bad THEN Fail(m, 4)
       ELSE Ret([m EXCEPT !.args = Refill(m, moved, first, 1)], 0)

(* ---- DEF ---- *)
BuiltinNames == {"exit", "pause", "set", "setlocal", "endlocal", "help", "rem", "cls", "color",
    "title", "type", "more", "goto", "start", "cd", "chdir", "dir", "if", "del", "erase", "ren",
    "rename", "move", "md", "mkdir", "rd", "rmdir", "copy", "for", "call", "def", "shift", "find",
    "break", "chcp", "pushd", "popd", "wc", "xargs", "prompt", "pecho", "timeout", "mod", "locale",
    "ver"}
CmdWord(t) == LET k == FindC(t, 1, {" ", ",", ";", "\n", "\t", "/"})
              IN Lower(IF k = 0 THEN t ELSE Upto(t, k - 1))
(* name of the command a text calls: "" if it is not an internal one *)
Resolve(m, t) ==
    LET w == CmdWord(t) IN
    IF w \in DOMAIN m.defs \/ w \in BuiltinNames THEN w
    ELSE IF StartsWith(w, "echo") /\ "echo" \notin DOMAIN m.defs THEN "echo"
    ELSE IF StartsWith(w, "pecho") /\ "pecho" \notin DOMAIN m.defs THEN "pecho"
    ELSE IF Ch(t, 1) = "(" THEN "("
    ELSE IF StartsWith(w, "goto:") THEN "goto"
    ELSE IF StartsWith(w, "call:") THEN "call"
    ELSE ""
RECURSIVE DefOpts(_, _, _, _)
DefOpts(m, s, f, l) ==
    LET p == Param(m, s, 1) w == Lower(p.t) IN
    IF p.ok /\ w = "/f" THEN DefOpts(m, From(s, p.e), TRUE, l)
    ELSE IF p.ok /\ w = "/l" THEN DefOpts(m, From(s, p.e), f, TRUE)
    ELSE [f |-> f, l |-> l, s |-> IF p.ok THEN From(s, SkipAB(s, 1)) ELSE s]
DefListing(m, prefix) ==
    LET sel == {n \in DOMAIN m.defs : StartsWithCI(m.defs[n].n, prefix)} IN
    Concat([k \in 1..Cardinality(sel) |-> LET q == SortStrs(sel)[k]
                                          IN m.defs[q].n \o "=" \o m.defs[q].b \o "\n"])
C_def(m0, t) ==
    LET m == DropRest(m0)
        o == DefOpts(m, From(t, 4), FALSE, FALSE)
        k == FindU(o.s, 1, {"="})
        n == Upto(o.s, k - 1)
        old == Resolve(m, n)
        Add == [m EXCEPT !.defs = (Lower(n) :> [n |-> n, b |-> From(o.s, k + 1)]) @@ @]
    IN IF o.l THEN Ret(Out(m, DefListing(m, o.s)), 0)
       ELSE IF k = 0 THEN Fail(m, 4)
       ELSE IF old # "" /\ ~o.f THEN Fail(m, 37)
       ELSE IF old # "" /\ old # Lower(n) THEN Fail(m, 38)
       ELSE Ret(Add, 0)

(* ---- directories ---- *)
(* A program that leaves the directories it was given for the root of the  *)
(* system is not specified: nothing is known of what is there.             *)
Unspecified(m) == SetTop(m, [f |-> "unspecified"])
ToDir(m, a, n) == IF a = "/" THEN Unspecified(m) ELSE IF IsDir(m, a) THEN n ELSE Fail(m, 2)
C_cd(m, t) ==
    LET s0 == From(t, IF StartsWithCI(t, "cd") THEN 3 ELSE 6)
        p == Param(m, s0, 1)
        s1 == IF p.ok /\ Lower(p.t) = "/d" THEN From(s0, p.e) ELSE s0
        e == EndOfLine(m, From(s1, SkipSet(s1, 1, BlankSet)))
        x == From(e, SkipB(e, 1))
        q == Ch(x, 1) = "\""
        d == IF q THEN RTrimSet(From(x, 2), BlankSet \cup {"\""}) ELSE RTrimSet(x, BlankSet)
        a == Abs(m, d)
    IN IF ~p.ok THEN Ret(Out(m, m.cwd), 0)
       ELSE ToDir(m, a, Ret([m EXCEPT !.cwd = a], 0))
RECURSIVE PushAll(_, _)
PushAll(m, ps) ==
    IF ps = <<>> THEN Ret(m, 0)
    ELSE LET a == Abs(m, Head(ps)) IN
         ToDir(m, a, PushAll([m EXCEPT !.ds = <<m.cwd>> \o @, !.cwd = a], Tail(ps)))
C_pushd(m, t) ==
    LET ps == ParamsFrom(m, t, 6) IN
    IF ps = <<>> THEN Ret(Out(m, Concat([k \in 1..Len(m.ds) |-> m.ds[k] \o "\n"])), 0)
    ELSE PushAll(m, ps)
C_popd(m, t) ==
    IF m.ds = <<>> THEN Ret(m, -1)
    ELSE LET n == [m EXCEPT !.ds = Tail(@)] IN
         IF IsDir(m, Head(m.ds)) THEN Ret([n EXCEPT !.cwd = Head(m.ds)], 0) ELSE Fail(n, 2)
=============================================================================
