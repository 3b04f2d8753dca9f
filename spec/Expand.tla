------------------------------- MODULE Expand -------------------------------
(***************************************************************************)
(* Expansion of variables.                                                 *)
(*   ReplaceVars   %name%, %1, %~f0, ... : once, when a line is read       *)
(*   DelayedExpand %X of FOR, then !name! : when a command uses its text   *)
(* A "machine" m has at least env (lower-case name -> stack of [n,v,x]),   *)
(* args and fv (one-character name -> string), de, el, cwd, scr.f, fs.     *)
(***************************************************************************)
EXTENDS Lex

AdjustName(n) ==  \* trailing blanks of a name are ignored
    LET t == RTrimSet(n, BlankSet) IN IF t = "" THEN n ELSE t
EnvKey(n) == Lower(n)
EnvHas(m, n) == EnvKey(n) \in DOMAIN m.env
EnvGet(m, n) == m.env[EnvKey(n)][1].v

SpecialNames == {"cd", "errorlevel"}
VarDefined(m, n) == Lower(n) \in SpecialNames \/ EnvHas(m, n)
BaseValue(m, n) ==
    LET l == Lower(n) IN
    IF l = "cd" THEN m.cwd
    ELSE IF l = "errorlevel" THEN Str(m.el)
    ELSE EnvGet(m, n)

Substring(v, b0, l) ==
    LET total == Len(v)
        b == IF b0 < 0 THEN total + b0 ELSE b0
    IN IF b < 0 \/ b > total THEN ""
       ELSE IF l > 0 THEN IF b + l <= total THEN Sub(v, b + 1, b + l) ELSE ""
       ELSE IF -l <= total - b THEN Sub(v, b + 1, total + l) ELSE ""

(* content of %expr% : name, name:a=b, name:~b,l, name:default *)
GetVar(m, expr) ==
    LET c == FindC(expr, 1, {":"})
        e == IF c = 0 THEN 0 ELSE FindC(expr, c, {"="})
        cut == c # 0 /\ e = 0 /\ Ch(expr, c + 1) = "~"
        name == IF c = 0 THEN expr ELSE Upto(expr, c - 1)
    IN IF ~VarDefined(m, name)
       THEN IF c # 0 /\ e = 0 /\ ~cut THEN From(expr, c + 1) ELSE ""
       ELSE LET v == BaseValue(m, name) IN
            IF e # 0 THEN ReplaceStr(v, Sub(expr, c + 1, e - 1), From(expr, e + 1))
            ELSE IF cut
                 THEN LET k == FindC(expr, c, {","})
                      IN Substring(v, AToI(Sub(expr, c + 2, IF k = 0 THEN Len(expr) ELSE k - 1)),
                                   IF k = 0 THEN 0 ELSE AToI(From(expr, k + 1)))
            ELSE v

(* ---- paths: absolute, "/"-separated ---- *)
BaseName(p) == From(p, FindLastC(p, Len(p), {"/"}) + 1)
DirName(p) == Upto(p, FindLastC(p, Len(p), {"/"}) - 1)     \* no trailing slash
NamePart(p) == LET b == BaseName(p) k == FindLastC(b, Len(b), {"."})
               IN IF k = 0 THEN b ELSE Upto(b, k - 1)
ExtPart(p) == LET b == BaseName(p) k == FindLastC(b, Len(b), {"."})
              IN IF k = 0 THEN "" ELSE From(b, k)
FullPath(m, p) == IF Ch(p, 1) = "/" THEN p ELSE m.cwd \o "/" \o p

(* ---- special variables (parameters and FOR variables) ---- *)
XFlags == Set("fdnpxz")          \* t and a depend on the clock / permissions
StripQ(v) == LET q == Ch(v, 1) IN
             IF q \notin {"\"", "'"} THEN v
             ELSE LET k == FindLastC(v, Len(v), {q})
                  IN IF k <= 1 THEN From(v, 2) ELSE Sub(v, 2, k - 1)
RECURSIVE FlagText(_, _, _)
FlagText(fl, i, p) ==     \* p: record [path, size]
    IF i > Len(fl) THEN ""
    ELSE LET c == Ch(fl, i)
             nx == Ch(fl, i + 1)
             tab(skip) == IF nx # "" /\ nx \notin skip THEN "\t" ELSE ""
             t == CASE c = "f" -> p.path \o tab({})
                    [] c = "d" -> tab({"p"})
                    [] c = "p" -> DirName(p.path) \o "/" \o tab({"n"})
                    [] c = "n" -> NamePart(p.path) \o tab({"x"})
                    [] c = "x" -> ExtPart(p.path) \o tab({})
                    [] c = "z" -> Str(p.size) \o tab({})
                    [] OTHER -> ""
         IN t \o FlagText(fl, i + 1, p)
(* variable of block f at position i of s: [ok, v, e] (e: after it) *)
LocalVar(m, f, s, i) ==
    IF Ch(s, i) # "~"
    THEN IF Ch(s, i) \in DOMAIN f THEN [ok |-> TRUE, v |-> f[Ch(s, i)], e |-> i + 1]
         ELSE [ok |-> FALSE, v |-> "", e |-> 0]
    ELSE LET fe == DigitsEnd(s, i + 1, XFlags \cup {"t", "a"})
             Valid(p) == Ch(s, p) \in DOMAIN f
             cand == {p \in (i + 1)..fe : Valid(p)}
         IN IF cand = {} THEN [ok |-> FALSE, v |-> "", e |-> 0]
            ELSE LET p == CHOOSE p \in cand : \A q \in cand : q <= p
                     fl == Sub(s, i + 1, p - 1)
                     raw == StripQ(f[Ch(s, p)])
                     path == IF Ch(s, p) = "0" THEN m.scr.f ELSE FullPath(m, raw)
                     size == IF path \in DOMAIN m.fs THEN Len(m.fs[path].c) ELSE 0
                 IN [ok |-> TRUE, e |-> p + 1,
                     v |-> IF fl = "" THEN raw ELSE FlagText(fl, 1, [path |-> path, size |-> size])]

RECURSIVE ExpandFrom(_, _, _, _)
ExpandFrom(m, s, i, d) ==
    LET k == FindU(s, i, {d})
        Esc(x) == IF d = "!" THEN UnEscape(x) ELSE x
    IN IF k = 0 THEN Esc(From(s, i))
       ELSE LET pre == Esc(Sub(s, i, k - 1)) nx == Ch(s, k + 1)
                lv == IF d = "%" /\ nx \in DigitSet \cup {"*", "+", "~"}
                      THEN LocalVar(m, m.args, s, k + 1)
                      ELSE [ok |-> FALSE, v |-> "", e |-> 0]
            IN IF nx = d THEN pre \o d \o ExpandFrom(m, s, k + 2, d)
               ELSE IF lv.ok THEN pre \o lv.v \o ExpandFrom(m, s, lv.e, d)
               ELSE LET k2 == FindU(s, k + 1, {d})
                    IN IF k2 = 0 THEN pre \o ExpandFrom(m, s, k + 1, d)
                       ELSE pre \o GetVar(m, Sub(s, k + 1, k2 - 1)) \o ExpandFrom(m, s, k2 + 1, d)
ReplaceVars(m, s) == IF FindC(s, 1, {"%"}) = 0 THEN s ELSE ExpandFrom(m, s, 1, "%")

RECURSIVE SpecialFrom(_, _, _)
SpecialFrom(m, s, i) ==
    LET k == FindU(s, i, {"%"}) IN
    IF k = 0 THEN From(s, i)
    ELSE LET lv == LocalVar(m, m.fv, s, k + 1)
         IN IF lv.ok THEN Sub(s, i, k - 1) \o lv.v \o SpecialFrom(m, s, lv.e)
            ELSE Sub(s, i, k) \o SpecialFrom(m, s, k + 1)
DelayedExpand(m, s) ==
    LET a == IF FindC(s, 1, {"%"}) = 0 THEN s ELSE SpecialFrom(m, s, 1)
    IN IF m.de THEN ExpandFrom(m, a, 1, "!") ELSE UnEscape(a)

(* next parameter, expanded: [ok, t, e] *)
ParamD(m, s, i, set) ==
    LET r == RawParam(s, i, set)
    IN IF r.ok THEN [r EXCEPT !.t = DelayedExpand(m, @)] ELSE r
Param(m, s, i) == ParamD(m, s, i, PDELIMS)
RECURSIVE ParamsFrom(_, _, _)
ParamsFrom(m, s, i) ==     \* all of them
    LET r == Param(m, s, i) IN IF ~r.ok THEN <<>> ELSE <<r.t>> \o ParamsFrom(m, s, r.e)
=============================================================================
