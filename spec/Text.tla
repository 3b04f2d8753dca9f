-------------------------------- MODULE Text --------------------------------
(***************************************************************************)
(* Text of a batch script: strings, character classes and the scanning     *)
(* primitives of the language (escape character, quotes, delimiters).      *)
(* Positions are 1-based; a search that fails returns 0.                   *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, SequencesExt, TLC

Ch(s, i)   == IF i >= 1 /\ i <= Len(s) THEN SubSeq(s, i, i) ELSE ""
Sub(s, i, j) == IF i > j THEN "" ELSE SubSeq(s, i, IF j > Len(s) THEN Len(s) ELSE j)
From(s, i) == IF i > Len(s) THEN "" ELSE SubSeq(s, i, Len(s))
Upto(s, j) == IF j < 1 THEN "" ELSE SubSeq(s, 1, IF j > Len(s) THEN Len(s) ELSE j)
Last1(s)   == IF s = "" THEN "" ELSE SubSeq(s, Len(s), Len(s))
Ix(n)      == [i \in 1..n |-> i]
Max2(a, b) == IF a > b THEN a ELSE b
Min2(a, b) == IF a < b THEN a ELSE b

Set(str)   == {SubSeq(str, i, i) : i \in 1..Len(str)}

UPPERS == "ABCDEFGHIJKLMNOPQRSTUVWXYZ"
LOWERS == "abcdefghijklmnopqrstuvwxyz"
DIGITS == "0123456789"
UpperSet == Set(UPPERS)
LowerSet == Set(LOWERS)
DigitSet == Set(DIGITS)
LowFun == [c \in UpperSet |-> LET k == CHOOSE k \in 1..26 : Ch(UPPERS, k) = c IN Ch(LOWERS, k)]
DigFun == [c \in DigitSet |-> (CHOOSE k \in 1..10 : Ch(DIGITS, k) = c) - 1]
HexFun == [c \in Set("0123456789abcdefABCDEF") |->
              IF c \in DigitSet THEN DigFun[c]
              ELSE 9 + (CHOOSE k \in 1..6 : Ch("abcdef", k) = c \/ Ch("ABCDEF", k) = c)]
LowerCh(c) == IF c \in UpperSet THEN LowFun[c] ELSE c
Lower(s)   == FoldLeft(LAMBDA a, i : a \o LowerCh(SubSeq(s, i, i)), "", Ix(Len(s)))
CIEq(a, b) == Len(a) = Len(b) /\ Lower(a) = Lower(b)

(* character order, used to sort names and to compare strings *)
ORDER == " !\"#$%&'()*+,-./0123456789:;<=>?@ABCDEFGHIJKLMNOPQRSTUVWXYZ[\\]^_`abcdefghijklmnopqrstuvwxyz{|}~"
OrdFun == [c \in Set(ORDER) |-> CHOOSE k \in 1..Len(ORDER) : Ch(ORDER, k) = c]
Ord(c) == IF c = "" THEN 0 ELSE IF c \in DOMAIN OrdFun THEN 31 + OrdFun[c] ELSE 9
RECURSIVE CmpFrom(_, _, _)
CmpFrom(a, b, i) ==   \* -1, 0, 1 as strcmp()
    IF i > Len(a) /\ i > Len(b) THEN 0
    ELSE LET x == Ord(Ch(a, i)) y == Ord(Ch(b, i))
         IN IF x < y THEN -1 ELSE IF x > y THEN 1 ELSE CmpFrom(a, b, i + 1)
Cmp(a, b) == CmpFrom(a, b, 1)
CmpCI(a, b) == CmpFrom(Lower(a), Lower(b), 1)

HasAt(s, i, p) == Sub(s, i, i + Len(p) - 1) = p /\ i + Len(p) - 1 <= Len(s)
StartsWith(s, p) == HasAt(s, 1, p)
StartsWithCI(s, p) == Len(s) >= Len(p) /\ Lower(Upto(s, Len(p))) = Lower(p)
EndsWith(s, p) == Len(s) >= Len(p) /\ From(s, Len(s) - Len(p) + 1) = p

RECURSIVE FindC(_, _, _)          \* first position >= i with a character of set
FindC(s, i, set) ==
    IF i > Len(s) THEN 0
    ELSE IF SubSeq(s, i, i) \in set THEN i ELSE FindC(s, i + 1, set)
RECURSIVE FindLastC(_, _, _)      \* last position <= i with a character of set
FindLastC(s, i, set) ==
    IF i < 1 THEN 0
    ELSE IF SubSeq(s, i, i) \in set THEN i ELSE FindLastC(s, i - 1, set)
RECURSIVE FindStr(_, _, _)        \* first occurrence of p at or after i
FindStr(s, i, p) ==
    IF i + Len(p) - 1 > Len(s) THEN 0
    ELSE IF SubSeq(s, i, i + Len(p) - 1) = p THEN i ELSE FindStr(s, i + 1, p)
HasSub(s, p) == p = "" \/ FindStr(s, 1, p) # 0
RECURSIVE ReplaceStr(_, _, _)
ReplaceStr(s, p, r) ==
    LET k == IF p = "" THEN 0 ELSE FindStr(s, 1, p)
    IN IF k = 0 THEN s ELSE Upto(s, k - 1) \o r \o ReplaceStr(From(s, k + Len(p)), p, r)

(* ---- delimiters, escapes and quotes ---- *)
DelimSet == {" ", "\t", ",", ";", "\n"}
BlankSet == {" ", "\t"}
IsDelim(c) == c \in DelimSet
EndsWord(c) == c = "" \/ c \in DelimSet
RECURSIVE SkipSet(_, _, _)
SkipSet(s, i, set) == IF i <= Len(s) /\ SubSeq(s, i, i) \in set THEN SkipSet(s, i + 1, set) ELSE i
SkipB(s, i)  == SkipSet(s, i, DelimSet)
SkipAB(s, i) == SkipSet(s, i, DelimSet \cup {"@"})
SkipLB(s, i) == SkipSet(s, i, (DelimSet \ {"\n"}) \cup {"@"})
RECURSIVE RTrimSet(_, _)
RTrimSet(s, set) == IF s # "" /\ Last1(s) \in set THEN RTrimSet(Upto(s, Len(s) - 1), set) ELSE s
LTrimSet(s, set) == From(s, SkipSet(s, 1, set))
Trim(s) == RTrimSet(LTrimSet(s, BlankSet), BlankSet)

RECURSIVE FindU(_, _, _)          \* first unescaped character of set
FindU(s, i, set) ==
    IF i > Len(s) THEN 0
    ELSE LET c == SubSeq(s, i, i) IN
         IF c = "^" THEN FindU(s, i + 2, set)
         ELSE IF c \in set THEN i ELSE FindU(s, i + 1, set)
RECURSIVE FindOut(_, _, _)        \* same, out of quotation marks
FindOut(s, i, set) ==
    IF i > Len(s) THEN 0
    ELSE LET c == SubSeq(s, i, i) IN
         IF c = "^" THEN FindOut(s, i + 2, set)
         ELSE IF c = "\"" THEN LET q == FindU(s, i + 1, {"\""})
                               IN IF q = 0 THEN 0 ELSE FindOut(s, q + 1, set)
         ELSE IF c \in set THEN i ELSE FindOut(s, i + 1, set)
FindHybrid(s, i, uset, oset) ==   \* unescaped uset, or oset out of quotes
    LET a == FindU(s, i, uset) b == FindOut(s, i, oset)
    IN IF a = 0 THEN b ELSE IF b = 0 THEN a ELSE Min2(a, b)

RECURSIVE UnEscape(_)             \* every ^ disappears and protects the next
UnEscape(s) ==
    LET k == FindC(s, 1, {"^"})
    IN IF k = 0 THEN s ELSE Upto(s, k - 1) \o Ch(s, k + 1) \o UnEscape(From(s, k + 2))

(* ---- numbers ---- *)
RECURSIVE DigitsEnd(_, _, _)
DigitsEnd(s, i, set) == IF i <= Len(s) /\ SubSeq(s, i, i) \in set THEN DigitsEnd(s, i + 1, set) ELSE i
ToNat(s, base) == FoldLeft(LAMBDA a, i : a * base + HexFun[SubSeq(s, i, i)], 0, Ix(Len(s)))
HexDigits == DOMAIN HexFun
OctDigits == Set("01234567")
(* strtol(s, &end, 0): value and position after the number (end = i if none) *)
StrToL(s, i) ==
    LET a == SkipSet(s, i, {" ", "\t", "\n"})
        neg == Ch(s, a) = "-"
        b == IF Ch(s, a) \in {"-", "+"} THEN a + 1 ELSE a
        hex == Ch(s, b) = "0" /\ Ch(s, b + 1) \in {"x", "X"} /\ Ch(s, b + 2) \in HexDigits
        oct == ~hex /\ Ch(s, b) = "0"
        st == IF hex THEN b + 2 ELSE b
        e == DigitsEnd(s, st, IF hex THEN HexDigits ELSE IF oct THEN OctDigits ELSE DigitSet)
        v == ToNat(Sub(s, st, e - 1), IF hex THEN 16 ELSE IF oct THEN 8 ELSE 10)
    IN IF e = st THEN [v |-> 0, e |-> i] ELSE [v |-> IF neg THEN -v ELSE v, e |-> e]
(* atoi(): decimal *)
AToI(s) ==
    LET a == SkipSet(s, 1, {" ", "\t", "\n"})
        neg == Ch(s, a) = "-"
        b == IF Ch(s, a) \in {"-", "+"} THEN a + 1 ELSE a
        e == DigitsEnd(s, b, DigitSet)
        v == ToNat(Sub(s, b, e - 1), 10)
    IN IF neg THEN -v ELSE v
IsInt0(s) == LET r == StrToL(s, 1) IN r.e > 1 /\ SkipB(s, r.e) > Len(s)
Str(n) == ToString(n)

(* ---- sequences of strings ---- *)
RECURSIVE SplitLines(_)           \* "a\nb" -> <<"a", "b">>; a final newline ends the last line
SplitLines(s) ==
    LET k == FindC(s, 1, {"\n"})
    IN IF s = "" THEN <<>>
       ELSE IF k = 0 THEN <<s>>
       ELSE <<Upto(s, k - 1)>> \o SplitLines(From(s, k + 1))
Concat(seq) == FoldLeft(LAMBDA a, x : a \o x, "", seq)
JoinSp(seq) == FoldLeft(LAMBDA a, x : IF a = "" THEN x ELSE a \o " " \o x, "", seq)
SortBy(seq, Less(_, _)) == SortSeq(seq, Less)
RECURSIVE SetToSeq0(_)
SetToSeq0(S) == IF S = {} THEN <<>> ELSE LET x == CHOOSE x \in S : TRUE IN <<x>> \o SetToSeq0(S \ {x})
SortStrs(S) == SortBy(SetToSeq0(S), LAMBDA a, b : CmpCI(a, b) < 0)
=============================================================================
