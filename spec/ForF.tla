-------------------------------- MODULE ForF --------------------------------
(***************************************************************************)
(* FOR: parsing of the command and options; items, ranges and tokens.      *)
(***************************************************************************)
EXTENDS Cond

(* ---- options of FOR /F ---- *)
DefaultOpt == [delims |-> " \t", eol |-> ";", skip |-> 0, bq |-> FALSE,
               toks |-> <<[a |-> 1, b |-> 1]>>, err |-> 0]
SpecAt(s, i) ==
    LET l == Lower(Sub(s, i, i + 7)) IN
    IF StartsWith(l, "tokens=") THEN "tokens" ELSE IF StartsWith(l, "eol=") THEN "eol"
    ELSE IF StartsWith(l, "delims=") THEN "delims" ELSE IF StartsWith(l, "skip=") THEN "skip"
    ELSE IF l = "usebackq" /\ Ch(s, i + 8) \in {"", " "} THEN "usebackq" ELSE ""
RECURSIVE SpecEnd(_, _)
SpecEnd(s, i) ==    \* i on a space: the option goes on until a known one starts
    LET j == SkipSet(s, i, {" "}) IN
    IF j > Len(s) THEN Len(s) + 1
    ELSE IF SpecAt(s, j) # "" THEN j - 1
    ELSE LET k == FindC(s, j, {" "}) IN IF k = 0 THEN Len(s) + 1 ELSE SpecEnd(s, k)

ALL == -1
(* tokens=: sequence of [a, b] ranges kept together, or error code *)
RECURSIVE Toks(_, _, _, _)
Toks(s, i, acc, last) ==   \* one chunk at a time
    LET a0 == SkipSet(s, i, BlankSet)
        e0 == DigitsEnd(s, a0, DigitSet)
        has == e0 > a0
        n == AToI(Sub(s, a0, e0 - 1))
        o == SkipSet(s, e0, BlankSet)
        c == Ch(s, o)
        Next(pos, ch, l) ==
            LET p == SkipSet(s, pos, BlankSet) IN
            IF p > Len(s) THEN [ok |-> TRUE, t |-> acc \o ch]
            ELSE IF Ch(s, p) = "," THEN Toks(s, p + 1, acc \o ch, l)
            ELSE [ok |-> FALSE, t |-> <<>>]
    IN IF c = "*"
       THEN IF has THEN Next(o + 1, <<[a |-> n, b |-> n], [a |-> n + 1, b |-> ALL]>>, n)
            ELSE Next(o + 1, <<[a |-> last + 1, b |-> ALL]>>, last)
       ELSE IF ~has THEN [ok |-> FALSE, t |-> <<>>]
       ELSE IF c \in {"-", "."}
       THEN LET b0 == SkipSet(s, o + 1, BlankSet)
                f0 == DigitsEnd(s, b0, DigitSet)
                n2 == AToI(Sub(s, b0, f0 - 1))
            IN IF c = "." /\ Ch(s, b0) = "*" THEN Next(b0 + 1, <<[a |-> n, b |-> ALL]>>, ALL)
               ELSE IF f0 = b0 THEN [ok |-> FALSE, t |-> <<>>]
               ELSE IF c = "." THEN Next(f0, <<[a |-> n, b |-> n2]>>, n2)
               ELSE Next(f0, [k \in 1..Max2(0, n2 - n + 1) |-> [a |-> n + k - 1, b |-> n + k - 1]], n2)
       ELSE Next(e0, <<[a |-> n, b |-> n]>>, n)
RECURSIVE Options(_, _, _)
Options(s, i, o) ==
    IF i > Len(s) \/ o.err # 0 THEN o
    ELSE LET t == SpecAt(s, i)
             k == FindC(s, i, {" "})
             e == IF k = 0 THEN Len(s) + 1
                  ELSE IF t \in {"", "usebackq"} THEN SkipSet(s, k, {" "}) - 1 ELSE SpecEnd(s, k)
             v == Sub(s, i + Len(t) + 1, e - 1)
             nxt == e + 1
         IN CASE t = "" -> [o EXCEPT !.err = 4]
              [] t = "usebackq" -> Options(s, nxt, [o EXCEPT !.bq = TRUE])
              [] t = "delims" -> Options(s, nxt,
                   [o EXCEPT !.delims = v, !.eol = IF HasSub(v, ";") /\ @ = ";" THEN "" ELSE @])
              [] t = "skip" -> Options(s, nxt, [o EXCEPT !.skip = StrToL(v, 1).v])
              [] t = "eol" -> Options(s, nxt, [o EXCEPT !.eol = v])
              [] OTHER -> LET r == Toks(v, 1, <<>>, 0) IN
                          IF r.ok THEN Options(s, nxt, [o EXCEPT !.toks = r.t])
                          ELSE [o EXCEPT !.err = 18]

(* ---- the command: kind, variable, options, list, body ----
   err is an error code, 0 if the command is well formed *)
ForBad(code) == [err |-> code]
RECURSIVE ForSwitches(_, _, _, _)
ForSwitches(m, s, i, kind) ==
    LET p == Param(m, s, i) IN
    IF p.ok /\ Lower(p.t) \in {"/f", "/l", "/r", "/d"}
    THEN ForSwitches(m, s, p.e, Lower(p.t)) ELSE [kind |-> kind, i |-> i]
RECURSIVE ForOpts(_, _, _, _, _)
ForOpts(m, s, i, kind, o) ==   \* up to the variable
    LET p == Param(m, s, i) IN
    IF ~p.ok THEN [err |-> 8, opt |-> o, v |-> "", e |-> 0]
    ELSE IF Ch(p.t, 1) = "%"
         THEN [err |-> 0, opt |-> o, v |-> IF Ch(p.t, 2) = "%" THEN Ch(p.t, 3) ELSE Ch(p.t, 2), e |-> p.e]
    ELSE IF kind # "/f" THEN [err |-> 4, opt |-> o, v |-> "", e |-> 0]
    ELSE LET o2 == Options(p.t, 1, o) IN
         IF o2.err # 0 THEN [err |-> o2.err, opt |-> o, v |-> "", e |-> 0]
         ELSE ForOpts(m, s, p.e, kind, o2)
ParseFor(m, s) ==     \* s: text after "FOR"
    LET sw == ForSwitches(m, s, 1, "")
        ov == ForOpts(m, s, sw.i, sw.kind, DefaultOpt)
        pin == Param(m, s, ov.e)
        b == SkipSet(s, pin.e, BlankSet)
        be == BlockEnd(s, b)
        pdo == Param(m, s, be + 1)
        bb == SkipB(s, pdo.e)
        body == TakeBlock(s, bb)
    IN IF ov.err # 0 THEN ForBad(ov.err)
       ELSE IF ~pin.ok \/ Lower(pin.t) # "in" THEN ForBad(8)
       ELSE IF Ch(s, b) # "(" THEN ForBad(17)
       ELSE IF be = 0 \/ ~pdo.ok THEN ForBad(8)
       ELSE IF Lower(pdo.t) # "do" THEN ForBad(4)
       ELSE IF SkipB(s, body.nxt) <= Len(s) THEN ForBad(4)
       ELSE [err |-> 0, kind |-> sw.kind, opt |-> ov.opt, v |-> ov.v,
             list |-> DelayedExpand(m, Sub(s, b + 1, be - 1)), body |-> Sub(s, body.b, body.e - 1)]

(* ---- simple FOR: next item ---- *)
FORDELIMS == {" ", ",", ":", ";", "\n", "\t", "\""}
RECURSIVE NextItem(_, _)
NextItem(s, i) ==
    LET pb == ParamBounds(s, i, FORDELIMS) IN
    IF pb.b = 0 THEN [ok |-> FALSE, t |-> "", e |-> 0]
    ELSE IF pb.e = pb.b THEN NextItem(s, pb.b + 1)
    ELSE [ok |-> TRUE, t |-> Sub(s, pb.b, pb.e - 1), e |-> pb.e]
Unquote(t) == IF Ch(t, 1) # "\"" THEN t
              ELSE LET r == From(t, 2) IN IF Last1(r) = "\"" THEN Upto(r, Len(r) - 1) ELSE r
(* files (not directories) matching, named as the pattern is: what comes before
   the first component with a wildcard stays as it is written *)
GlobItems(m, t) ==
    LET p == Unquote(t)
        hits == {q \in Match(m, Abs(m, p)) : ~m.fs[q].d}
        k == FindLastC(p, FindC(p, 1, {"*", "?"}), {"/"})
        base == IF k = 0 THEN m.cwd ELSE IF k = 1 THEN "" ELSE Abs(m, Upto(p, k - 1))
        Name(q) == (IF k <= 1 THEN Upto(p, k) ELSE RTrimSet(Upto(p, k - 1), {"/"}) \o "/") \o From(q, Len(base) + 2)
        s == SortBy(SetToSeq0(hits), LAMBDA a, b : Cmp(a, b) < 0)
    IN [j \in 1..Len(s) |-> Name(s[j])]

(* ---- FOR /F: tokens of a line ---- *)
RECURSIVE TokBounds(_, _, _)
TokBounds(l, i, ds) ==     \* sequence of [b, e]
    LET b == SkipSet(l, i, ds) e == FindC(l, b, ds) IN
    IF b > Len(l) THEN <<>>
    ELSE IF e = 0 THEN <<[b |-> b, e |-> Len(l)]>>
    ELSE <<[b |-> b, e |-> e - 1]>> \o TokBounds(l, e + 1, ds)
TokValue(l, tb, t) ==
    IF t.a < 1 \/ t.a > Len(tb) \/ (t.b # ALL /\ t.b < t.a) THEN ""
    ELSE IF t.b = ALL \/ t.b > Len(tb) THEN From(l, tb[t.a].b)
    ELSE IF t.b = Len(tb) /\ tb[t.b].e = Len(l) THEN From(l, tb[t.a].b)
    ELSE Sub(l, tb[t.a].b, tb[t.b].e)
=============================================================================
