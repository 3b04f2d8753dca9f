------------------------------ MODULE Filters -------------------------------
(***************************************************************************)
(* Commands that read files or their input: TYPE FIND WC XARGS MORE.       *)
(***************************************************************************)
EXTENDS Files

Contents(m, p) == m.fs[p].c
Rest(m) == m.ins[m.io.i]
Drained(m) == [m EXCEPT !.ins[m.io.i] = ""]
RECURSIVE LinesOf(_)
LinesOf(s) == IF s = "" THEN <<>>
              ELSE LET k == FindC(s, 1, {"\n"})
                   IN IF k = 0 THEN <<s>> ELSE <<Upto(s, k - 1)>> \o LinesOf(From(s, k + 1))

(* files a list of words designates: the name shown and the path of each.
   Directories are left out; a pattern several files match is in no specified order *)
Shown(w, p) == IF HasGlob(w) THEN LET k == FindLastC(w, FindC(w, 1, {"*", "?"}), {"/"})
                                  IN Upto(w, k) \o BaseName(p)
               ELSE w
Hits(m, w) == IF Slashed(m, w) THEN {} ELSE Match(m, Abs(m, w))
FilesOf(m, ws) == Flat([k \in 1..Len(ws) |->
                    LET q == Sorted(m, FilesIn(m, Hits(m, ws[k])))
                    IN [i \in 1..Len(q) |-> [w |-> Shown(ws[k], q[i]), p |-> q[i]]]])
Missing(m, ws, dots) == \E k \in 1..Len(ws) : Hits(m, ws[k]) = {} /\ ~(dots /\ DotsMatch(m, Abs(m, ws[k])))
Unordered(m, ws) == \E k \in 1..Len(ws) : Cardinality(FilesIn(m, Hits(m, ws[k]))) > 1
                    \/ (HasGlob(ws[k]) /\ HasGlob(DirName(Abs(m, ws[k]))))
Header(m, x) == "---------- " \o FullPath(m, x.w) \o "\n"

(* ---- TYPE ---- *)
C_type(m, t) ==
    LET ws == Words(m, t, 5)
        fl == FilesOf(m, ws)
        One(n, x) == Out(IF Len(fl) > 1 THEN Put(n, n.io.e, Header(n, x)) ELSE n, Contents(n, x.p))
    IN IF ws = <<>> THEN Ret(Drained(Out(m, Rest(m))), 0)
       ELSE IF Missing(m, ws, TRUE) THEN Fail(m, 42)
       ELSE IF fl = <<>> THEN Fail(m, 43)
       ELSE IF Unordered(m, ws) THEN Unspecified(m)
       ELSE Ret(FoldLeft(One, m, fl), 0)

(* ---- FIND: o is [str, count, ci, re, rev] ---- *)
Found(o, l) ==
    LET a == IF o.ci THEN Lower(l) ELSE l
        b == IF o.ci THEN Lower(o.str) ELSE o.str
    IN o.str # "" /\ IF o.re THEN GlobMatchCS(b, a) ELSE HasSub(a, b)
FindIn(o, s) ==     \* [t, none]
    LET ls == LinesOf(s)
        is == SelectSeq(Ix(Len(ls)), LAMBDA i : Found(o, ls[i]) # o.rev)
        Show(i) == IF o.count = "/n" THEN "[" \o Str(i) \o "]" \o ls[i] \o "\n"
                   ELSE IF o.count = "" THEN ls[i] \o "\n" ELSE ""
    IN [none |-> is = <<>>,
        t |-> Concat([k \in 1..Len(is) |-> Show(is[k])]) \o IF o.count = "/c" THEN Str(Len(is)) \o "\n" ELSE ""]
FindSw == {"/c", "/n", "/i", "/e", "/v"}
C_find(m, t) ==
    LET ws == Words(m, t, 5)
        rest == NamesOf(ws, FindSw)
        cn == SelectSeq([k \in 1..Len(ws) |-> Lower(ws[k])], LAMBDA w : w \in {"/c", "/n"})
        o == [str |-> rest[1], count |-> IF cn = <<>> THEN "" ELSE cn[Len(cn)],
              ci |-> HasW(ws, "/i"), re |-> HasW(ws, "/e"), rev |-> HasW(ws, "/v")]
        ns == Tail(rest)
        fl == FilesOf(m, ns)
        In == FindIn(o, Rest(m))
        One(n, x) == Out(Out(n, IF Len(fl) > 1 THEN Header(n, x) ELSE ""), FindIn(o, Contents(n, x.p)).t)
    IN IF rest = <<>> THEN Fail(m, 8)
       ELSE IF Missing(m, ns, TRUE) THEN Fail(m, 42)
       ELSE IF ns # <<>> /\ fl = <<>> THEN Fail(m, 43)
       ELSE IF ns = <<>> THEN Ret(Drained(Out(m, In.t)), IF In.none THEN 1 ELSE 0)
       ELSE IF Unordered(m, ns) THEN Unspecified(m)
       ELSE Ret(FoldLeft(One, m, fl), IF \E k \in 1..Len(fl) : FindIn(o, Contents(m, fl[k].p)).none THEN 1 ELSE 0)

(* ---- WC ---- *)
WordSep == {" ", "\t", "\n", ",", ".", ";", "\r"}
CountC(s, set) == FoldLeft(LAMBDA a, i : a + (IF SubSeq(s, i, i) \in set THEN 1 ELSE 0), 0, Ix(Len(s)))
Counts(s, sw) ==
    [b |-> Len(s), l |-> IF "/l" \in sw THEN CountC(s, {"\n"}) ELSE 0,
     w |-> IF "/w" \notin sw THEN 0 ELSE FoldLeft(LAMBDA a, i : a + (IF SubSeq(s, i, i) \notin WordSep
                                                  /\ (i = Len(s) \/ SubSeq(s, i + 1, i + 1) \in WordSep) THEN 1 ELSE 0), 0, Ix(Len(s)))]
AddC(a, b) == [l |-> a.l + b.l, b |-> a.b + b.b, w |-> a.w + b.w]
IsSwitch1(w) == Len(w) = 2 /\ Ch(w, 1) = "/"
C_wc(m, t) ==
    LET ws == Words(m, t, 3)
        sw == {Lower(ws[k]) : k \in {i \in 1..Len(ws) : IsSwitch1(ws[i])}}
        ns == SelectSeq(ws, LAMBDA w : ~IsSwitch1(w))
        fl == FilesOf(m, ns)
        def == sw = {}
        Line(c, name) == (IF "/l" \in sw THEN Str(c.l) \o " " ELSE "") \o (IF "/w" \in sw THEN Str(c.w) \o " " ELSE "")
                         \o (IF def \/ "/c" \in sw THEN Str(c.b) \o " " ELSE "") \o (IF "/m" \in sw THEN Str(c.b) \o " " ELSE "")
                         \o name \o "\n"
        Cs == [k \in 1..Len(fl) |-> Counts(Contents(m, fl[k].p), sw)]
        total == FoldLeft(AddC, [l |-> 0, b |-> 0, w |-> 0], Cs)
        first == CHOOSE k \in 1..Len(ws) + 1 : /\ \A j \in 1..(k - 1) : (IF IsSwitch1(ws[j]) THEN Lower(ws[j]) \in {"/l", "/w", "/c", "/m"}
                                                                       ELSE FilesIn(m, Hits(m, ws[j])) # {})
                                               /\ (k = Len(ws) + 1 \/ IF IsSwitch1(ws[k]) THEN Lower(ws[k]) \notin {"/l", "/w", "/c", "/m"}
                                                                      ELSE FilesIn(m, Hits(m, ws[k])) = {})
    IN IF first <= Len(ws) THEN Fail(m, IF IsSwitch1(ws[first]) THEN 4 ELSE 42)
       ELSE IF ns = <<>> THEN Ret(Drained(Out(m, Line(Counts(Rest(m), sw), ""))), 0)
       ELSE IF Unordered(m, ns) THEN Unspecified(m)
       ELSE Ret(Out(m, Concat([k \in 1..Len(fl) |-> Line(Cs[k], fl[k].w)])
                       \o IF Len(fl) > 1 THEN Line(total, "Total") ELSE ""), 0)

(* ---- XARGS: the lines of the input become arguments ---- *)
C_xargs(m, t) ==
    LET c == From(t, SkipB(t, 6))
        One(a, l) == a \o " " \o IF FindC(l, 1, {" ", ";", ",", "\t"}) # 0 /\ Ch(l, SkipAB(l, 1)) # "\""
                                 THEN "\"" \o l \o "\"" ELSE l
    IN IF c = "" THEN Fail(m, 8)
       ELSE SetTop(Drained(m), CmdFrame(FoldLeft(One, EndOfLine(m, c), LinesOf(Rest(m)))))

(* ---- MORE, when its output is not a terminal: o is [tab, sq, skip].
   a: what remains, column, whether the line above was empty, was cut, lines to skip ---- *)
Blanks(n) == FoldLeft(LAMBDA x, i : x \o " ", "", Ix(n))
MoreText(s, o) ==
    LET Emit(a, t) == IF a.skip > 0 THEN a ELSE [a EXCEPT !.t = @ \o t]
        EndLine(a) == [Emit(a, "\n") EXCEPT !.col = 0, !.skip = IF @ > 0 THEN @ - 1 ELSE 0]
        Char(a, i) ==
            LET c == SubSeq(s, i, i)
                n == o.tab - (a.col % o.tab)
                b == IF c = "\t"
                     THEN IF a.col + n < 80 THEN [Emit(a, Blanks(n)) EXCEPT !.col = @ + n, !.blank = FALSE, !.cut = FALSE]
                          ELSE [EndLine(a) EXCEPT !.blank = FALSE]
                     ELSE IF c = "\n"
                     THEN IF a.col = 0 /\ a.blank /\ o.sq THEN a
                          ELSE IF a.col = 0 /\ a.cut THEN [a EXCEPT !.cut = FALSE]
                          ELSE [EndLine(a) EXCEPT !.blank = a.col = 0]
                     ELSE [Emit(a, c) EXCEPT !.col = @ + 1, !.blank = FALSE, !.cut = FALSE]
            IN IF b.col >= 79 THEN [EndLine(b) EXCEPT !.cut = b.col = 79] ELSE b
    IN FoldLeft(Char, [t |-> "", col |-> 0, blank |-> FALSE, cut |-> FALSE, skip |-> o.skip], Ix(Len(s))).t
TabOpt(w) == StartsWithCI(w, "/t") /\ Ch(w, 3) \in {":"} \cup DigitSet
MoreOpt(w) == Lower(w) \in {"/e", "/c", "/p", "/s", "/u", "/a"} \/ TabOpt(w) \/ Ch(w, 1) = "+"
C_more(m, t) ==
    LET ws == Words(m, t, 5)
        ns == SelectSeq(ws, LAMBDA w : ~MoreOpt(w))
        LastOf(P(_)) == LET k == {i \in 1..Len(ws) : P(ws[i])} IN IF k = {} THEN "" ELSE ws[CHOOSE i \in k : \A j \in k : j <= i]
        IsT(w) == TabOpt(w)
        IsP(w) == Ch(w, 1) = "+"
        TNum(w) == From(w, IF Ch(w, 3) = ":" THEN 4 ELSE 3)
        NumOk(s) == StrToL(s, 1).e > Len(s) /\ s # ""
        Bad(w) == (IsT(w) /\ (~NumOk(TNum(w)) \/ StrToL(TNum(w), 1).v <= 0)) \/ (IsP(w) /\ ~NumOk(From(w, 2)))
        Lost1(w) == ~MoreOpt(w) /\ Hits(m, w) = {} /\ ~DotsMatch(m, Abs(m, w))
        errs == {k \in 1..Len(ws) : Bad(ws[k]) \/ Lost1(ws[k])}
        e == CHOOSE k \in errs : \A j \in errs : k <= j
        lt == LastOf(IsT) lp == LastOf(IsP)
        o == [tab |-> IF lt = "" THEN 8 ELSE StrToL(TNum(lt), 1).v, sq |-> HasW(ws, "/s"),
              skip |-> IF lp = "" THEN 0 ELSE StrToL(From(lp, 2), 1).v]
        fl == FilesOf(m, ns)
    IN IF errs # {} THEN Fail(m, IF Bad(ws[e]) THEN 44 ELSE 42)
       ELSE IF ns = <<>> THEN Ret(Drained(Out(m, MoreText(Rest(m), o))), 0)
       ELSE IF fl = <<>> THEN Fail(m, 42)
       ELSE IF Unordered(m, ns) THEN Unspecified(m)
       ELSE Ret(Out(m, Concat([k \in 1..Len(fl) |-> MoreText(Contents(m, fl[k].p), o)])), 0)
=============================================================================
