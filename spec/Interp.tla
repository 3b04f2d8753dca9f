------------------------------- MODULE Interp -------------------------------
(***************************************************************************)
(* The interpreter as a transition system: m is the machine, one action    *)
(* per kind of frame or command.  Prog is the program it runs, see         *)
(* InitOf.  Every action consumes one step (m.n).                          *)
(***************************************************************************)
EXTENDS Arith, Json, IOUtils

VARIABLE m, pid
vars == <<m, pid>>

(* ---- initial machine of a program:
   [id, root, files: path -> content (directories: "/" suffix), args, stdin, main, env: name -> value] *)
FsOf(p) ==
    LET names == DOMAIN p.files
        files == {n \in names : Last1(n) # "/"}
        dirs == {RTrimSet(n, {"/"}) : n \in names \ files}
        Rec(n) == IF n \in files THEN [d |-> FALSE, c |-> p.files[n]] ELSE [d |-> TRUE, c |-> ""]
        up == {Upto(p.root, i - 1) : i \in {j \in 2..Len(p.root) : Ch(p.root, j) = "/"}}
    IN [n \in files \cup dirs \cup {"/"} \cup up |-> Rec(n)]
EnvOf(p) == LET names == {n \in DOMAIN p.env : p.env[n] # ""} IN
            [k \in {Lower(n) : n \in names} |->
                LET n == CHOOSE n \in names : Lower(n) = k IN <<[n |-> n, v |-> p.env[n], x |-> FALSE]>>]
MachineOf(p) ==
    [k |-> <<[f |-> "script"]>>, env |-> EnvOf(p), loc |-> <<>>, de |-> TRUE, cc |-> FALSE,
     echo |-> TRUE, rev |-> 0, el |-> 0, ab |-> "", cwd |-> p.root, ds |-> <<>>, fs |-> FsOf(p),
     io |-> [i |-> "std", o |-> "out", e |-> "err"], ins |-> ("std" :> p.stdin) @@ ("nul" :> ""),
     bufs |-> ("out" :> "") @@ ("err" :> ""),
     args |-> MkArgs(p.main, p.args,
                Concat([k \in 1..Len(p.args) |-> QuoteArg(p.args[k]) \o " "]),
                Concat([k \in 1..Max2(0, Len(p.args) - 9) |-> QuoteArg(p.args[k + 9]) \o " "])),
     fv |-> NoneFv, defs |-> [c \in {} |-> [n |-> "", b |-> ""]], scr |-> NewScript(p.main), n |-> 0,
     seen |-> {}]

(* ---- the command line of the interpreter: options until the name of a script, whose
   arguments all the other words are, or until /C or /K, whose command they make.
   [st: "ok", "bad"; de, echo, cmd: <<text>> or <<>>, keep, file, args] ---- *)
RECURSIVE ParseArgv(_, _, _)
ParseArgv(p, a, c) ==
    IF a = <<>> \/ c.st = "bad" THEN c
    ELSE LET w == Head(a) o == Lower(Ch(w, 2)) modes == Set(Lower(From(w, IF Ch(w, 3) = ":" THEN 4 ELSE 3)))
             Word(x) == (IF FindC(x, 1, {" ", "\t", "\n"}) # 0 THEN "\"" \o x \o "\"" ELSE x) \o " "
         IN IF c.file = "" /\ ~c.last /\ Ch(w, 1) = "/" THEN
               CASE o = "a" -> ParseArgv(p, Tail(a), [c EXCEPT !.de = @ \/ "v" \in modes, !.echo = @ /\ "e" \notin modes])
                 [] o = "/" -> ParseArgv(p, Tail(a), [c EXCEPT !.last = TRUE])
                 [] o \in {"c", "k"} ->
                    IF Len(a) = 1 \/ c.cmd # <<>> THEN [c EXCEPT !.st = "bad"]
                    ELSE LET k == [c EXCEPT !.keep = @ \/ o = "k"] IN
                         IF a[2] = "@" THEN ParseArgv(p, Tail(Tail(a)), [k EXCEPT !.cmd =
                            <<IF "__PBAT_COMMAND__" \in DOMAIN p.env THEN p.env["__PBAT_COMMAND__"] ELSE "">>])
                         ELSE [k EXCEPT !.cmd = <<Concat([i \in 1..Len(a) - 1 |-> Word(a[i + 1])])>>]
                 [] OTHER -> [c EXCEPT !.st = "bad"]
            ELSE [c EXCEPT !.file = w, !.args = Tail(a)]
InitOf(p) ==
    IF "argv" \notin DOMAIN p THEN MachineOf(p)
    ELSE LET a == ParseArgv(p, p.argv, [st |-> "ok", de |-> TRUE, echo |-> TRUE, cmd |-> <<>>, keep |-> FALSE,
                                        file |-> "", args |-> <<>>, last |-> FALSE])
             x == MachineOf([p EXCEPT !.args = a.args])
             f == IF a.file = "" THEN "" ELSE FindFile(x, a.file)
             m1 == [x EXCEPT !.de = a.de, !.echo = a.echo, !.scr = NewScript(f), !.args = [@ EXCEPT !["0"] = f],
                             !.k = IF f = "" THEN <<[f |-> "input"]>> ELSE @]
             m2 == IF a.cmd # <<>> /\ ~a.keep THEN [m1 EXCEPT !.k = <<>>] ELSE m1
         IN IF a.st = "bad" THEN [Diag(x) EXCEPT !.k = <<>>, !.el = 5]
            ELSE IF a.file # "" /\ f = "" THEN [Diag(x) EXCEPT !.k = <<>>, !.el = 1]
            ELSE IF a.cmd # <<>> THEN RunLine(m2, a.cmd[1]) ELSE m2

(* ---- dispatch of a command ---- *)
ExtMark == "#!/bin/sh\n# "
ExtKind(mm, full) ==
    LET c == IF IsFile(mm, full) THEN mm.fs[full].c ELSE ""
    IN IF StartsWith(c, ExtMark) THEN Sub(c, Len(ExtMark) + 1, FindC(c, Len(ExtMark) + 1, {"\n"}) - 1) ELSE ""
(* a stage that does not read does not wait for those that write *)
Unread(mm) == IF Upto(mm.io.i, 1) = "p" THEN [mm EXCEPT !.seen = @ \cup {"Racing"}] ELSE mm
External(mm, t) ==
    LET fr == Top(mm)
        p == Param(mm, t, 1)
        full == FindFile(mm, p.t)
    IN IF ~p.ok THEN Ret(mm, 0)
       ELSE IF full = "" THEN
            IF fr.again THEN Ret(Diag(Unread(mm)), -1)
            ELSE SetTop(mm, [f |-> "cmd", t |-> DelayedExpand(mm, fr.t), again |-> TRUE])
       ELSE IF IsBatch(full) THEN RunChild(mm, full, t)
       ELSE IF ExtKind(mm, full) = "" THEN Ret(Diag(Unread(mm)), 3)
       ELSE SetTop(mm, [f |-> "program", t |-> t, full |-> full])
(* programs: what they get is their words, the variables, the directory and the streams.
   Those that are run are shell scripts, which tell what they do on their second line *)
Program(mm, t, full) ==
    LET a == Tail(ParamsFrom(mm, t, 1))
        k == ExtKind(mm, full)
        r == ReadLine(mm)
        key == EnvKey(AdjustName(a[1]))
    IN CASE k = "args" -> Ret(Out(mm, Concat([i \in 1..Len(a) |-> "<" \o a[i] \o ">"]) \o "\n"), 0)
         [] k = "stat" -> Ret(mm, IF a = <<>> THEN 0 ELSE AToI(a[1]) % 256)
         [] k = "copyin" -> Ret(Drained(Out(mm, Rest(mm))), 0)
         [] k = "getv" -> Ret(Out(mm, IF a # <<>> /\ key \in DOMAIN mm.env THEN mm.env[key][1].v \o "\n" ELSE ""), 0)
         [] k = "wd" -> Ret(Out(mm, mm.cwd \o "\n"), 0)
         [] k = "both" -> Ret(Put(Out(mm, "o\n"), mm.io.e, "e\n"), 0)
         [] k = "line1" -> Ret([Out(mm, "<" \o r.l \o ">\n") EXCEPT !.ins[mm.io.i] = r.rest], 0)
         [] k = "die" -> Ret(mm, 137)
Dispatch(mm) ==
    LET fr == Top(mm)
        t == From(fr.t, SkipAB(fr.t, 1))
        w == Resolve(mm, t)
        Frame(name) == SetTop(mm, [f |-> name, t |-> t])
    IN IF w \in DOMAIN mm.defs THEN RunDef(mm, w, t)
       ELSE IF w = "" THEN External(mm, t)
       ELSE CASE w = "chdir" -> Frame("cd") [] w = "erase" -> Frame("del")
              [] w = "rename" -> Frame("ren") [] w = "mkdir" -> Frame("md")
              [] w = "rmdir" -> Frame("rd") [] OTHER -> Frame(w)
SetKind == LET p == Param(m, Top(m).t, 4) IN IF p.ok THEN Lower(p.t) ELSE ""
AfterSwitch == From(Top(m).t, Param(m, Top(m).t, 4).e)

Running == m.n >= 0 /\ m.k # <<>> /\ Top(m).f # "unspecified"
At(name) == Running /\ Top(m).f = name
T == Top(m).t
Do(name, x) == m' = [x EXCEPT !.n = @ + 1, !.seen = @ \cup {name}] /\ UNCHANGED pid

ReadScriptLine == At("script") /\ Do("ReadScriptLine", ScriptStep(m))
ReadCommand == At("input") /\ Do("ReadCommand", InputStep(m))
NextElement == At("line") /\ Do("NextElement", LineStep(m))
CloseStreams == At("io") /\ Do("CloseStreams", IoStep(m))
RunCommand == At("cmd") /\ Do("RunCommand", Dispatch(m))
RunProgram == At("program") /\ Do("RunProgram", Program(m, T, Top(m).full))
PipeStage == At("pipe") /\ Do("PipeStage", PipeStep(m))
EndClone == At("clone") /\ Do("EndClone", CloneStep(m))
BlockLine == At("block") /\ Do("BlockLine", BlockStep(m))
Block == At("(") /\ Do("Block", BlockCmdStep(m, T))
If == At("if") /\ Do("If", IfStep(m, T))
For == At("for") /\ Do("For", ForStep(m, T))
ForItem == At("fors") /\ Do("ForItem", ForSStep(m))
ForRange == At("forl") /\ Do("ForRange", ForLStep(m))
ForInput == At("forfin") /\ Do("ForInput", ForFInStep(m))
ForLine == At("forf") /\ Do("ForLine", ForFStep(m))
Goto == At("goto") /\ Do("Goto", GotoStep(m, T))
Exit == At("exit") /\ Do("Exit", ExitStep(m, T))
Call == At("call") /\ Do("Call", CallStep(m, T))
EndCall == At("call-ret") /\ Do("EndCall", CallEnd(m))
EndDef == At("defret") /\ Do("EndDef", DefRet(m))
Echo == At("echo") /\ Do("Echo", C_echo(m, T))
SetVar == At("set") /\ SetKind \notin {"/a", "/p", "/x"}
          /\ Do("SetVar", IF SetKind = "" THEN SetList(m, T) ELSE Assign(m, T, From(T, 4), FALSE))
SetInherit == At("set") /\ SetKind = "/x" /\ Do("SetInherit", Assign(m, T, AfterSwitch, TRUE))
SetArith == At("set") /\ SetKind = "/a" /\ Do("SetArith", SetA(m, AfterSwitch))
SetAsk == At("set") /\ SetKind = "/p" /\ Do("SetAsk", Ask(m, AfterSwitch))
Setlocal == At("setlocal") /\ Do("Setlocal", C_setlocal(m, T))
Endlocal == At("endlocal") /\ Do("Endlocal", C_endlocal(m, T))
Shift == At("shift") /\ Do("Shift", C_shift(m, T))
Def == At("def") /\ Do("Def", C_def(m, T))
Cd == At("cd") /\ Do("Cd", C_cd(m, T))
Pushd == At("pushd") /\ Do("Pushd", C_pushd(m, T))
Popd == At("popd") /\ Do("Popd", C_popd(m, T))
Prompt == At("prompt") /\ Do("Prompt", C_prompt(m, T))
(* which files are empty is not known while output to one of them may be held back *)
Sized(x) == LET at == Attrs(Words(m, T, IF Top(m).f \in {"dir", "del"} THEN 4 ELSE 5)) IN
            IF (m.io.o # "out" \/ m.io.e # "err") /\ \E y \in at : y[1] = "i" THEN Unspecified(m) ELSE x
Md == At("md") /\ Do("Md", C_md(m, T))
Rd == At("rd") /\ Do("Rd", AnyOrder(m, LAMBDA x : C_rd(x, T)))
Del == At("del") /\ Do("Del", Sized(AnyOrder(m, LAMBDA x : C_del(x, T))))
Ren == At("ren") /\ Do("Ren", C_ren(m, T))
Copy == At("copy") /\ Do("Copy", Sized(AnyOrder(m, LAMBDA x : C_copy(x, T))))
Move == At("move") /\ Do("Move", Sized(AnyOrder(m, LAMBDA x : C_move(x, T))))
Dir == At("dir") /\ Do("Dir", Sized(C_dir(m, T)))
Type == At("type") /\ Do("Type", C_type(m, T))
Find == At("find") /\ Do("Find", C_find(m, T))
Wc == At("wc") /\ Do("Wc", C_wc(m, T))
Xargs == At("xargs") /\ Do("Xargs", C_xargs(m, T))
More == At("more") /\ Do("More", C_more(m, T))
Pecho == At("pecho") /\ Do("Pecho", C_pecho(m, T))
Pause == At("pause") /\ Do("Pause", C_pause(m))
Nop == Running /\ Top(m).f \in {"rem", "break", "title"} /\ Do("Nop", Ret(m, 0))

Control == \/ ReadScriptLine \/ ReadCommand \/ NextElement \/ CloseStreams \/ RunCommand \/ RunProgram \/ PipeStage \/ EndClone
           \/ BlockLine \/ Block \/ If \/ For \/ ForItem \/ ForRange \/ ForInput \/ ForLine
           \/ Goto \/ Exit \/ Call \/ EndCall \/ EndDef
State == \/ Echo \/ SetVar \/ SetInherit \/ SetArith \/ SetAsk \/ Setlocal \/ Endlocal \/ Shift \/ Def
         \/ Cd \/ Pushd \/ Popd \/ Prompt \/ Pecho \/ Pause \/ Nop
Tree == Md \/ Rd \/ Del \/ Ren \/ Copy \/ Move \/ Dir
Filter == Type \/ Find \/ Wc \/ Xargs \/ More
Step == Control \/ State \/ Tree \/ Filter

(* ---- what is observed at the end ---- *)
MAXSTEPS == 4000
Done == m.n >= 0 /\ m.k = <<>>
Lost == m.n >= MAXSTEPS \/ (m.n >= 0 /\ ~Done /\ ~Running)     \* outside of what is specified
Code == LET c == m.el % 256 IN c
FsView == [q \in DOMAIN m.fs |-> IF m.fs[q].d THEN "<DIR>" ELSE m.fs[q].c]
Observation == [id |-> pid, out |-> m.bufs["out"], err |-> m.bufs["err"], code |-> Code,
                fs |-> FsView, n |-> m.n, cov |-> m.seen]
=============================================================================
