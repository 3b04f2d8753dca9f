-------------------------------- MODULE Cond --------------------------------
(***************************************************************************)
(* Conditions of IF: comparisons, DEFINED, EXIST, ERRORLEVEL, and the      *)
(* bracketed boolean expressions.  A result is "yes", "no" or "bad".       *)
(***************************************************************************)
EXTENDS Machine

(* ---- glob patterns: * and ? ---- *)
RECURSIVE Glob(_, _, _, _)
Glob(p, i, s, j) ==
    IF i > Len(p) THEN j > Len(s)
    ELSE IF Ch(p, i) = "*" THEN Glob(p, i + 1, s, j) \/ (j <= Len(s) /\ Glob(p, i, s, j + 1))
    ELSE j <= Len(s) /\ (Ch(p, i) = "?" \/ Ch(p, i) = Ch(s, j)) /\ Glob(p, i + 1, s, j + 1)
GlobMatch(p, s) == Glob(Lower(p), 1, Lower(s), 1)   \* names are matched whatever their case
GlobMatchCS(p, s) == Glob(p, 1, s, 1)
HasGlob(s) == FindC(s, 1, {"*", "?"}) # 0
(* paths of the tree matching an absolute pattern, component by component *)
RECURSIVE MatchParts(_, _, _)
MatchParts(m, bases, parts) ==
    IF parts = <<>> THEN bases
    ELSE MatchParts(m, {q \in DOMAIN m.fs : \E b \in bases :
             /\ DirName(q) = (IF b = "/" THEN "" ELSE b) /\ q # "/"
             /\ m.fs[IF b \in DOMAIN m.fs THEN b ELSE q].d
             /\ GlobMatch(Head(parts), BaseName(q))
             /\ (Ch(BaseName(q), 1) = "." => Ch(Head(parts), 1) = ".")}, Tail(parts))
Match(m, p) ==   \* p absolute and canonical
    LET k == IF HasGlob(p) THEN FindLastC(p, FindC(p, 1, {"*", "?"}), {"/"}) ELSE 0
    IN IF k = 0 THEN IF Exists(m, p) THEN {p} ELSE {}
       ELSE MatchParts(m, {Upto(p, k - 1)} \cap DOMAIN m.fs, SplitPath(From(p, k + 1)))

(* ---- comparisons ---- *)
SCALE == 1000          \* values are compared exactly with up to 3 decimals
NumVal(s) ==           \* [ok, v]: decimal, octal, hexadecimal, or with decimals
    LET r == StrToL(s, 1) IN
    IF SkipB(s, r.e) > Len(s) THEN [ok |-> TRUE, v |-> r.v * SCALE]
    ELSE LET a == SkipSet(s, 1, BlankSet)
             neg == Ch(s, a) = "-"
             b == IF Ch(s, a) \in {"-", "+"} THEN a + 1 ELSE a
             e == DigitsEnd(s, b, DigitSet)
             f == IF Ch(s, e) = "." THEN DigitsEnd(s, e + 1, DigitSet) ELSE e
             frac == Upto(Sub(s, e + 1, f - 1) \o "000", 3)
             v == ToNat(Sub(s, b, e - 1), 10) * SCALE + ToNat(frac, 10)
         IN IF (e = b /\ f <= e + 1) \/ SkipB(s, f) <= Len(s) THEN [ok |-> FALSE, v |-> 0]
            ELSE [ok |-> TRUE, v |-> IF neg THEN -v ELSE v]
YN(b) == IF b THEN "yes" ELSE "no"
Neg(r, n) == IF ~n \/ r = "bad" THEN r ELSE IF r = "yes" THEN "no" ELSE "yes"
Compare(op0, a, b, ci) ==
    LET x == NumVal(a) y == NumVal(b) op == Lower(op0)
        c == IF x.ok /\ y.ok THEN IF x.v < y.v THEN -1 ELSE IF x.v > y.v THEN 1 ELSE 0
             ELSE IF ci THEN CmpCI(a, b) ELSE Cmp(a, b)
    IN CASE op \in {"equ", "=="} -> YN(c = 0)
         [] op = "neq" -> YN(c # 0)
         [] op = "geq" -> YN(c >= 0)
         [] op = "gtr" -> YN(c > 0)
         [] op = "leq" -> YN(c <= 0)
         [] op = "lss" -> YN(c < 0)
         [] OTHER -> "bad"
TestDefined(m, a) == YN(EnvHas(m, a))
TestExist(m, a) == YN(Match(m, Abs(m, a)) # {})
TestErrorlevel(m, a) == YN(m.el >= StrToL(a, 1).v)

(* ---- [ ... ] expressions: a sequence of elements ---- *)
RECURSIVE Elements(_, _, _, _)
Elements(m, s, i, level) ==   \* [els, e]
    LET r == Param(m, s, i) IN
    IF ~r.ok THEN [els |-> <<>>, e |-> 0]
    ELSE LET l == IF r.t = "[" THEN level + 1 ELSE IF r.t = "]" THEN level - 1 ELSE level
         IN IF l <= 0 THEN [els |-> <<r.t>>, e |-> r.e]
            ELSE LET n == Elements(m, s, r.e, l) IN [els |-> <<r.t>> \o n.els, e |-> n.e]
Level(els, k) == LET F(a, i) == a + (IF els[i] = "[" THEN 1 ELSE IF els[i] = "]" THEN -1 ELSE 0)
                 IN FoldLeft(F, 0, Ix(k))
RECURSIVE Unbracket(_)
Unbracket(els) ==
    IF Len(els) >= 2 /\ els[1] = "["
       /\ (\A k \in 1..(Len(els) - 1) : Level(els, k) > 0)
    THEN Unbracket(SubSeq(els, 2, Len(els) - 1)) ELSE els
CutAt(els, w) == LET c == {k \in 2..Len(els) : Lower(els[k]) = w /\ Level(els, k) = 0}
                 IN IF c = {} THEN 0 ELSE CHOOSE k \in c : \A q \in c : k <= q
Simple(m, els0, ci) ==
    LET n == els0 # <<>> /\ Lower(els0[1]) = "not"
        els == IF n THEN Tail(els0) ELSE els0
        w == IF els = <<>> THEN "" ELSE Lower(els[1])
    IN IF els = <<>> THEN "bad"
       ELSE IF w \in {"defined", "exist", "errorlevel"}
            THEN IF Len(els) # 2 THEN "bad"
                 ELSE Neg(CASE w = "defined" -> TestDefined(m, els[2])
                            [] w = "exist" -> TestExist(m, els[2])
                            [] OTHER -> TestErrorlevel(m, els[2]), n)
       ELSE IF Len(els) # 3 THEN "bad" ELSE Neg(Compare(els[2], els[1], els[3], ci), n)
RECURSIVE Eval(_, _, _)
Eval(m, els0, ci) ==       \* AND binds tighter than OR, both short-circuit
    LET els == Unbracket(els0) o == CutAt(els, "or") a == CutAt(els, "and") IN
    IF els = <<>> THEN "bad"
    ELSE IF o # 0 THEN IF o = Len(els) THEN "bad"
         ELSE LET l == Eval(m, SubSeq(els, 1, o - 1), ci) IN
              IF l # "no" THEN l ELSE Eval(m, SubSeq(els, o + 1, Len(els)), ci)
    ELSE IF a # 0 THEN IF a = Len(els) THEN "bad"
         ELSE LET l == Eval(m, SubSeq(els, 1, a - 1), ci) IN
              IF l # "yes" THEN l ELSE Eval(m, SubSeq(els, a + 1, Len(els)), ci)
    ELSE Simple(m, els, ci)

(* The condition of an IF command: s is the text after "IF".
   [r: "yes" | "no" | "bad", code, e: position after the condition] *)
Cond(m, s) ==
    LET p1 == Param(m, s, 1)
        ci == p1.ok /\ Lower(p1.t) = "/i"
        i1 == IF ci THEN p1.e ELSE 1
        p2 == Param(m, s, i1)
        n == p2.ok /\ Lower(p2.t) = "not"
        i2 == IF n THEN p2.e ELSE i1
        p3 == Param(m, s, i2)
        w == Lower(p3.t)
        More == [r |-> "bad", code |-> 8, e |-> 0]
        Unary(Test(_, _)) ==
            LET q == Param(m, s, p3.e) IN
            IF ci THEN [r |-> "bad", code |-> 9, e |-> 0]
            ELSE IF ~q.ok THEN More
            ELSE [r |-> Neg(Test(m, q.t), n), code |-> 0, e |-> q.e]
    IN IF ~p3.ok THEN More
       ELSE IF w = "exist" THEN Unary(TestExist)
       ELSE IF w = "defined" THEN Unary(TestDefined)
       ELSE IF w = "errorlevel" THEN Unary(TestErrorlevel)
       ELSE IF p3.t = "["
            THEN LET x == Elements(m, s, i2, 0)
                     r == Eval(m, x.els, ci)
                 IN [r |-> r, code |-> IF r = "bad" THEN 46 ELSE 0, e |-> x.e]
       ELSE LET eq == FindStr(p3.t, 1, "==") IN
            IF eq # 0
            THEN LET l == Upto(p3.t, eq - 1) r == From(p3.t, eq + 2)
                     q == Last1(l) = "\""
                 IN [r |-> Neg(Compare("==", IF q THEN Upto(l, Len(l) - 1) ELSE l,
                                       IF q THEN From(r, 2) ELSE r, ci), n),
                     code |-> 0, e |-> p3.e]
            ELSE LET op == Param(m, s, p3.e)
                     b == Param(m, s, op.e)
                 IN IF ~op.ok \/ ~b.ok THEN More
                    ELSE LET r == Neg(Compare(op.t, p3.t, b.t, ci), FALSE)
                         IN [r |-> r, code |-> IF r = "bad" THEN -1 ELSE 0, e |-> b.e]
=============================================================================
