------------------------------- MODULE Arith -------------------------------
(***************************************************************************)
(* SET /A.  A value is [f, i, p, q]: f says whether it is a floating-point *)
(* one, i is its integer form and p/q (q > 0) its exact form, which only   *)
(* counts once a floating-point operand has been met.                      *)
(* Results the specification does not define (overflow, irrational values, *)
(* malformed expressions) are "bad".                                       *)
(***************************************************************************)
EXTENDS Filters

LIMIT == 1000000
BadV == [f |-> FALSE, i |-> 0, p |-> 0, q |-> 0]
IsBad(v) == v.q = 0
Abs1(n) == IF n < 0 THEN -n ELSE n
RECURSIVE Gcd(_, _)
Gcd(a, b) == IF b = 0 THEN a ELSE Gcd(b, a % b)
IntV(n) == IF Abs1(n) > LIMIT THEN BadV ELSE [f |-> FALSE, i |-> n, p |-> n, q |-> 1]
QDiv(a, b) == IF a < 0 THEN -((-a) \div b) ELSE a \div b      \* towards 0, b > 0
Rat(f, i, p, q) ==      \* q # 0
    LET s == IF q < 0 THEN -1 ELSE 1
        g == Gcd(Abs1(p), Abs1(q))
        a == (s * p) \div g b == (s * q) \div g
    IN IF Abs1(a) > LIMIT \/ b > 40000 \/ Abs1(i) > LIMIT THEN BadV ELSE [f |-> f, i |-> i, p |-> a, q |-> b]
Small(v) == Abs1(v.p) <= 40000 /\ v.q <= 40000 /\ Abs1(v.i) <= 40000

RECURSIVE BitAnd(_, _)
BitAnd(a, b) == IF a = 0 \/ b = 0 THEN 0 ELSE IF a = -1 THEN b ELSE IF b = -1 THEN a
                ELSE 2 * BitAnd(a \div 2, b \div 2) + (a % 2) * (b % 2)
BitOr(a, b) == a + b - BitAnd(a, b)
BitXor(a, b) == a + b - 2 * BitAnd(a, b)
RECURSIVE Pow2(_)
Pow2(n) == IF n = 0 THEN 1 ELSE 2 * Pow2(n - 1)
B2I(x) == IF x THEN 1 ELSE 0
CDiv(a, b) == IF b < 0 THEN QDiv(-a, -b) ELSE QDiv(a, b)
CMod(a, b) == a - b * CDiv(a, b)

IntOp(op, a, b) ==      \* bitwise and logical operators
    CASE op = "&" -> IntV(BitAnd(a, b)) [] op = "|" -> IntV(BitOr(a, b)) [] op = "^" -> IntV(BitXor(a, b))
      [] op = "&&" -> IntV(B2I(a # 0 /\ b # 0)) [] op = "||" -> IntV(B2I(a # 0 \/ b # 0))
      [] op = "<<" -> IF b < 0 \/ b > 12 \/ a < 0 \/ a > 200 THEN BadV ELSE IntV(a * Pow2(b))
      [] op = ">>" -> IF b < 0 \/ b > 12 THEN BadV ELSE IntV(a \div Pow2(b))
(* a number whose denominator is a power of two is exact in the machine;   *)
(* others are approximations, which must not be mistaken for exact ones     *)
RECURSIVE Dyadic(_)
Dyadic(q) == q = 1 \/ (q % 2 = 0 /\ Dyadic(q \div 2))
BinOp1(op, x, y) ==
    LET f == x.f \/ y.f IN
    IF IsBad(x) \/ IsBad(y) \/ ~Small(x) \/ ~Small(y) THEN BadV
    ELSE CASE op = "+" -> Rat(f, x.i + y.i, x.p * y.q + y.p * x.q, x.q * y.q)
           [] op = "-" -> Rat(f, x.i - y.i, x.p * y.q - y.p * x.q, x.q * y.q)
           [] op = "*" -> Rat(f, x.i * y.i, x.p * y.p, x.q * y.q)
           [] op = "/" -> IF y.p = 0 \/ (~f /\ y.i = 0) THEN BadV
                          ELSE Rat(f, IF y.i = 0 THEN 0 ELSE CDiv(x.i, y.i), x.p * y.q, x.q * y.p)
           [] op = "%" -> IF y.p = 0 \/ (~f /\ y.i = 0) THEN BadV
                          ELSE LET t == CDiv(x.p * y.q, x.q * y.p) IN
                               IF Abs1(t) > 1000 THEN BadV
                               ELSE Rat(f, IF y.i = 0 THEN 0 ELSE CMod(x.i, y.i),
                                        x.p * y.q - t * y.p * x.q, x.q * y.q)
           [] OTHER ->     \* on whole numbers: decimals are dropped
                LET d == IntOp(op, QDiv(x.p, x.q), QDiv(y.p, y.q)) i == IF f THEN d ELSE IntOp(op, x.i, y.i)
                IN IF IsBad(d) \/ IsBad(i) THEN BadV ELSE Rat(f, i.i, d.i, 1)
BinOp(op, x, y) ==
    LET r == BinOp1(op, x, y) IN
    IF IsBad(r) \/ ~(x.f \/ y.f) \/ (Dyadic(x.q) /\ Dyadic(y.q)) THEN r
    ELSE IF op \in {"+", "-", "%", "*", "/"} /\ (Dyadic(r.q) \/ ((Abs1(r.p) * 1000) \div r.q < (Abs1(x.p) * 1000) \div (16 * x.q))) THEN BadV
    ELSE r
RECURSIVE Root(_, _)
Root(n, k) == IF k * k > n THEN -1 ELSE IF k * k = n THEN k ELSE Root(n, k + 1)
Fn(name, x) ==
    IF IsBad(x) \/ ~Small(x) THEN BadV
    ELSE CASE name = "abs" -> Rat(TRUE, 0, Abs1(IF x.f THEN x.p ELSE x.i), IF x.f THEN x.q ELSE 1)
           [] name = "step" -> Rat(TRUE, 0, B2I((IF x.f THEN x.p ELSE x.i) >= 0), 1)
           [] name = "sqrt" -> IF (x.f /\ x.q # 1) \/ x.i < 0 THEN BadV
                               ELSE LET v == IF x.f THEN x.p ELSE x.i IN
                                    IF v < 0 \/ Root(v, 0) < 0 THEN BadV ELSE Rat(TRUE, 0, Root(v, 0), 1)
           [] OTHER -> BadV

(* ---- tokens: [k, t] with k in "num", "flt", "id", "op" ---- *)
OpChars == Set("+-*%/&><|=()^~!")
EndsId == OpChars \cup {"\n", "\t", " "}
Functions == {"abs", "step", "sqrt"}
RECURSIVE Tokens(_, _)
Tokens(s, i0) ==
    LET i == SkipSet(s, i0, BlankSet) c == Ch(s, i) IN
    IF i > Len(s) THEN <<>>
    ELSE IF c \in OpChars
         THEN LET two == Sub(s, i, i + 1) d == two \in {">>", "<<", "&&", "||"}
              IN <<[k |-> "op", t |-> IF d THEN two ELSE c]>> \o Tokens(s, IF d THEN i + 2 ELSE i + 1)
    ELSE LET q == FindC(s, i, EndsId)
             w == Sub(s, i, IF q = 0 THEN Len(s) ELSE q - 1)
             hex == Ch(w, 1) = "0" /\ Ch(w, 2) = "x" /\ Len(w) > 2 /\ DigitsEnd(w, 3, HexDigits) > Len(w)
             int == DigitsEnd(w, 1, DigitSet) > Len(w)
             flt == FindC(w, 1, {"."}) # 0 /\ Len(w) > 1 /\ DigitsEnd(ReplaceStr(w, ".", ""), 1, DigitSet) >= Len(w)
         IN <<[k |-> IF hex \/ int THEN "num" ELSE IF flt THEN "flt"
                     ELSE IF w \in Functions THEN "fn" ELSE "id", t |-> w]>>
            \o Tokens(s, IF q = 0 THEN Len(s) + 1 ELSE q)
NumV(w) == IF Len(w) > 6 THEN BadV ELSE IntV(StrToL(w, 1).v)
FltV(w) == LET k == FindC(w, 1, {"."}) fr == From(w, k + 1)
               ten == FoldLeft(LAMBDA a, x : a * 10, 1, Ix(Len(fr)))
           IN IF Len(w) > 6 THEN BadV ELSE Rat(TRUE, 0, ToNat(Upto(w, k - 1) \o fr, 10), ten)

(* ---- evaluation by precedence: result [m, v, i] with i the next token ---- *)
Levels == <<{"||"}, {"&&"}, {"|"}, {"^"}, {"&"}, {">>", "<<"}, {"+", "-"}, {"*", "/", "%"}>>
(* the number a text begins with: 0 when there is none *)
AToR(v) ==
    LET a == SkipSet(v, 1, BlankSet)
        neg == Ch(v, a) = "-"
        b == IF Ch(v, a) \in {"-", "+"} THEN a + 1 ELSE a
        e == DigitsEnd(v, b, DigitSet)
        f == IF Ch(v, e) = "." THEN DigitsEnd(v, e + 1, DigitSet) ELSE e
        fr == RTrimSet(Sub(v, e + 1, f - 1), {"0"})
        ten == FoldLeft(LAMBDA x, k : x * 10, 1, Ix(Len(fr)))
        n == ToNat(Sub(v, b, e - 1) \o fr, 10)
    IN IF Lower(Sub(v, b, b + 2)) \in {"inf", "nan"} \/ Lower(Sub(v, b, b + 1)) = "0x" THEN BadV
       ELSE IF e = b /\ f <= e + 1 THEN IntV(0)
       ELSE IF Lower(Ch(v, f)) = "e" \/ f - b > 6 THEN BadV
       ELSE IF fr = "" THEN IntV(IF neg THEN -n ELSE n)
       ELSE Rat(TRUE, 0, IF neg THEN -n ELSE n, ten)
AVar(m, n) == IF ~EnvHas(m, n) THEN IntV(0) ELSE AToR(EnvGet(m, n))
RatText(p, q) ==      \* as %.14g
    LET RECURSIVE digits(_, _, _)
        digits(r, n, acc) == IF r = 0 \/ n = 0 THEN [t |-> acc, r |-> r]
                             ELSE digits((r * 10) % q, n - 1, acc \o Ch(DIGITS, (r * 10) \div q + 1))
        RECURSIVE zeros(_)
        zeros(r) == IF (r * 10) \div q = 0 THEN 1 + zeros((r * 10) % q) ELSE 0
        a == Abs1(p)
        ip == a \div q
        lead == IF ip = 0 THEN zeros(a % q) ELSE 0
        d == digits(a % q, IF ip = 0 THEN 14 + lead ELSE 14 - Len(Str(ip)), "")
        up == d.r # 0 /\ 2 * d.r > q
        RECURSIVE inc(_)
        inc(t) == IF Last1(t) = "9" THEN inc(Upto(t, Len(t) - 1)) ELSE Upto(t, Len(t) - 1) \o Ch(DIGITS, DigFun[Last1(t)] + 2)
        fr == RTrimSet(IF up THEN inc(d.t) ELSE d.t, {"0"})
    IN IF q = 1 THEN Str(p)
       ELSE IF (ip = 0 /\ lead > 3) \/ 2 * d.r = q \/ DigitsEnd(d.t, 1, {"9"}) > Len(d.t) THEN "?"
       ELSE (IF p < 0 THEN "-" ELSE "") \o Str(ip) \o "." \o fr
TextOf(v) == IF v.f THEN RatText(v.p, v.q) ELSE Str(v.i)
Out1(m, v, i) == [m |-> m, v |-> v, i |-> i]
RECURSIVE Climb(_, _, _, _), ClimbRest(_, _, _), Unary(_, _, _), Primary(_, _, _)
OpAt(tk, i, set) == i <= Len(tk) /\ tk[i].k = "op" /\ tk[i].t \in set
Climb(m, tk, i, lv) ==
    IF lv > Len(Levels) THEN Unary(m, tk, i)
    ELSE ClimbRest(tk, lv, Climb(m, tk, i, lv + 1))
ClimbRest(tk, lv, a) ==
    IF IsBad(a.v) \/ ~OpAt(tk, a.i, Levels[lv]) THEN a
    ELSE LET b == Climb(a.m, tk, a.i + 1, lv + 1)
         IN ClimbRest(tk, lv, Out1(b.m, BinOp(tk[a.i].t, a.v, b.v), b.i))
Unary(m, tk, i) ==
    IF OpAt(tk, i, {"-"})
    THEN LET a == Unary(m, tk, i + 1) IN
         IF IsBad(a.v) THEN a
         ELSE [a EXCEPT !.v.i = -@, !.v.p = -@]
    ELSE IF OpAt(tk, i, {"~"})
    THEN LET a == Unary(m, tk, i + 1)
         IN IF IsBad(a.v) THEN a ELSE [a EXCEPT !.v = Rat(a.v.f, -a.v.i - 1, -QDiv(a.v.p, a.v.q) - 1, 1)]
    ELSE IF OpAt(tk, i, {"!"})
    THEN LET a == Unary(m, tk, i + 1) n == B2I(QDiv(a.v.p, a.v.q) = 0)
         IN IF IsBad(a.v) THEN a ELSE [a EXCEPT !.v = Rat(a.v.f, B2I(a.v.i = 0), n, 1)]
    ELSE Primary(m, tk, i)
Primary(m, tk, i) ==
    LET B == Out1(m, BadV, i) IN
    IF i > Len(tk) THEN B
    ELSE CASE tk[i].k = "num" -> Out1(m, NumV(tk[i].t), i + 1)
           [] tk[i].k = "flt" -> Out1(m, FltV(tk[i].t), i + 1)
           [] tk[i].k = "id" ->
                IF OpAt(tk, i + 1, {"="})
                THEN LET a == Unary(m, tk, i + 2) IN
                     IF IsBad(a.v) \/ a.v.f THEN [a EXCEPT !.v = BadV]
                     ELSE [a EXCEPT !.m = EnvPut(a.m, tk[i].t, TextOf(a.v))]
                ELSE Out1(m, AVar(m, tk[i].t), i + 1)
           [] tk[i].k = "fn" ->
                IF ~OpAt(tk, i + 1, {"("}) THEN B
                ELSE LET a == Climb(m, tk, i + 2, 1) IN
                     IF OpAt(tk, a.i, {")"}) THEN Out1(a.m, Fn(tk[i].t, a.v), a.i + 1) ELSE B
           [] tk[i].t = "(" -> LET a == Climb(m, tk, i + 1, 1) IN
                               IF OpAt(tk, a.i, {")"}) THEN [a EXCEPT !.i = @ + 1] ELSE B
           [] OTHER -> B
EvalA(m, s) == LET tk == Tokens(s, 1) a == Climb(m, tk, 1, 1)
              IN IF a.i <= Len(tk) THEN [a EXCEPT !.v = BadV] ELSE a

(* ---- the command ---- *)
SetOne(m, e0) ==      \* [st, m]: st an error code, 0, or -9 when unspecified
    LET e1 == RTrimSet(e0, BlankSet)      \* the closing quote may be followed by blanks
        e2 == IF Last1(e1) = "\"" THEN Upto(e1, Len(e1) - 1) ELSE e0
        e == From(e2, SkipB(e2, 1))
        k == FindC(e, 1, {"="})
        c == Ch(e, k - 1)
        dbl == c \in {"&", "|"} /\ Ch(e, k - 2) = c
        isop == k > 1 /\ c \in Set("*/+-%^&|")
        name == AdjustName(Upto(e, IF ~isop THEN k - 1 ELSE IF dbl THEN k - 3 ELSE k - 2))
        a == EvalA(m, From(e, k + 1))
        r == IF isop THEN BinOp(IF dbl THEN c \o c ELSE c, AVar(a.m, name), IF a.v.f \/ IsBad(a.v) THEN a.v ELSE IntV(a.v.i)) ELSE a.v
    IN IF e = "" THEN [st |-> 8, m |-> m]
       ELSE IF k = 0 THEN [st |-> 26, m |-> m]
       ELSE IF IsBad(a.v) \/ IsBad(r) THEN [st |-> -9, m |-> m]
       ELSE IF TextOf(r) = "?" THEN [st |-> -9, m |-> m]
       ELSE [st |-> 0, m |-> EnvPut(a.m, name, TextOf(r))]
RECURSIVE SetA(_, _)
SetA(m, s) ==
    LET p == ParamD(m, s, 1, {"\"", ","}) IN
    IF ~p.ok THEN Ret(m, 0)
    ELSE LET o == SetOne(m, p.t) IN
         IF o.st = -9 THEN Unspecified(m)
         ELSE IF o.st # 0 THEN Fail(m, o.st)
         ELSE SetA(o.m, From(s, p.e))
=============================================================================
