------------------------------- MODULE Files --------------------------------
(***************************************************************************)
(* Commands on the file tree: MD RD DEL REN COPY MOVE, and the questions   *)
(* they ask.  Their order among the files a pattern matches is not         *)
(* specified; Unspecified ends a behaviour that depends on it.             *)
(***************************************************************************)
EXTENDS Commands


(* ---- bitwise or of statuses ---- *)
RECURSIVE OrBits(_, _)
OrBits(a, b) == IF a = 0 THEN b ELSE IF b = 0 THEN a
                ELSE 2 * OrBits(a \div 2, b \div 2) + Max2(a % 2, b % 2)
StOr(a, b) == IF a = -1 \/ b = -1 THEN -1 ELSE OrBits(a, b)

(* ---- questions: "y", "n" (default, also at the end of the input), "a" ---- *)
Question == "<Q>"
RECURSIVE AskMore(_)
AskMore(m0) ==
    LET m == Put(m0, m0.io.e, Question)
        r == ReadLine(m)
        l == Lower(r.l)
        n == [m EXCEPT !.ins[m.io.i] = r.rest]
    IN CASE l \in {"y", "yes"} -> [m |-> n, r |-> "y"]
         [] l \in {"", "n", "no"} -> [m |-> n, r |-> "n"]
         [] l \in {"a", "all"} -> [m |-> n, r |-> "a"]
         [] OTHER -> AskMore(n)

(* ---- what names designate ---- *)
Under(m, d) == {q \in DOMAIN m.fs : StartsWith(q, IF d = "/" THEN "/" ELSE d \o "/") /\ q # "/"}
Children(m, d) == {q \in DOMAIN m.fs : q # "/" /\ DirName(q) = (IF d = "/" THEN "" ELSE d)}
(* static part of a pattern and what follows; of a plain path, its folder *)
BaseOf(p) == LET i == FindC(p, 1, {"*", "?"}) k == FindLastC(p, IF i = 0 THEN Len(p) ELSE i, {"/"})
             IN [dir |-> Upto(p, k - 1), last |-> From(p, k + 1), at |-> k]
(* dm: the content of a directory stands for it; rec: at every depth *)
Named(m, p, dm, rec) ==
    IF IsDir(m, p) /\ (dm \/ rec)
    THEN (IF rec THEN Under(m, p) ELSE Children(m, p)) \cup (IF dm THEN {} ELSE {p})
    ELSE IF Exists(m, p) THEN {p}
    ELSE IF ~HasGlob(p) THEN {}
    ELSE IF rec /\ ~HasGlob(BaseName(p))      \* a plain name, in the folders that match
    THEN Match(m, p) \cup UNION {Under(m, d) : d \in {q \in Match(m, p) : IsDir(m, q)}}
    ELSE IF rec THEN LET ds == IF HasGlob(DirName(p)) THEN Match(m, DirName(p)) ELSE {DirName(p)}
                     IN {q \in UNION {Under(m, d) : d \in ds} : GlobMatch(BaseName(p), BaseName(q))}
    ELSE Match(m, p)
(* a name that ends with a slash can only be that of a directory *)
Slashed(m, w) == Last1(w) = "/" /\ ~HasGlob(w) /\ ~IsDir(m, Abs(m, w))
NamedW(m, w, dm, rec) == IF Slashed(m, w) THEN {} ELSE Named(m, Abs(m, w), dm, rec)
(* patterns such as * also match "." and "..", where these are not ignored *)
DotsMatch(m, p) == HasGlob(p) /\ GlobMatch(BaseName(p), ".") /\ \E d \in Match(m, DirName(p)) : IsDir(m, d)
(* The order in which what a pattern matches is visited is not specified: m.rev gives several,
   and AnyOrder only accepts what is the same with each *)
Before(rev, a, b) == IF rev = 0 THEN Cmp(a, b) < 0
                     ELSE IF rev = 1 THEN Cmp(b, a) < 0
                     ELSE IF Len(a) # Len(b) THEN Len(a) > Len(b)
                     ELSE Cmp(From(b, Len(b)) \o b, From(a, Len(a)) \o a) < 0
Sorted(m, S) == SortBy(SetToSeq0(S), LAMBDA a, b : Before(m.rev, a, b))
Deepest(m, S) ==     \* what is in a directory comes before it
    IF m.rev = 0 THEN SortBy(SetToSeq0(S), LAMBDA a, b : Cmp(a, b) > 0)
    ELSE SortBy(SetToSeq0(S), LAMBDA a, b : Cmp(a \o "~", b \o "~") < 0)
AnyOrder(m, C(_)) ==
    LET r == C(m) Same(k) == [C([m EXCEPT !.rev = k]) EXCEPT !.rev = 0] = r
    IN IF Same(1) /\ Same(2) THEN r ELSE Unspecified(m)
FilesIn(m, S) == {q \in S : ~m.fs[q].d}
DirsIn(m, S) == {q \in S : m.fs[q].d}

(* ---- /A:attributes: the last one counts.  Nothing is read-only, hidden, system or an
   archive here; what is empty is only known of files ---- *)
RECURSIVE AttrFrom(_, _, _)
AttrFrom(w, i, neg) ==
    IF i > Len(w) THEN {}
    ELSE LET c == Lower(Ch(w, i)) IN
         IF c \in {"a", "d", "h", "i", "r", "s"} THEN {<<c, neg>>} \cup AttrFrom(w, i + 1, FALSE)
         ELSE AttrFrom(w, i + 1, neg \/ c = "-")
IsAttr(w) == StartsWith(Lower(w), "/a")
Attrs(ws) == LET k == {i \in 1..Len(ws) : IsAttr(ws[i])}
             IN IF k = {} THEN {} ELSE AttrFrom(ws[CHOOSE i \in k : \A j \in k : j <= i], 3, FALSE)
HasAttr(isd, c, x) == CASE x = "d" -> isd [] x = "i" -> ~isd /\ c = "" [] OTHER -> FALSE
Chosen(at, isd, c) == \A x \in {y[1] : y \in at} : HasAttr(isd, c, x) = (<<x, TRUE>> \notin at)
WithAttr(m, at, S) == {q \in S : Chosen(at, m.fs[q].d, m.fs[q].c)}
EmptyDir(at) == (\E y \in at : y[1] = "i") /\ <<"d", TRUE>> \notin at

(* ---- switches: words the predicate accepts; the rest are names ---- *)
Words(m, t, n) == ParamsFrom(m, t, n)
HasW(ws, w) == \E k \in 1..Len(ws) : Lower(ws[k]) = w
NoAttr(ws) == SelectSeq(ws, LAMBDA w : ~IsAttr(w))
NamesOf(ws, sw) == SelectSeq(ws, LAMBDA w : Lower(w) \notin sw)
WordEnd(t) == FindC(t \o " ", 1, {" ", ",", ";", "\n", "\t", "/"})

(* ---- DIR: entries are [n, d, c]; their order is not specified, Sorted only gives one ---- *)
Pad(c, n) == Concat([i \in 1..n |-> c])
RECURSIVE Scaled(_, _, _)
Scaled(n, last, u) == IF n >= 1000 THEN Scaled(n \div 1000, n % 1000, u + 1) ELSE [n |-> n, last |-> last, u |-> u]
SizeText(b) == LET x == Scaled(b, 0, 0) u == " " \o <<"o", "ko", "mo", "go">>[(x.u % 4) + 1]
                   c == x.last \div 10
               IN IF x.n >= 100 THEN " " \o Str(x.n) \o u ELSE IF x.n >= 10 THEN "  " \o Str(x.n) \o u
                  ELSE Str(x.n) \o "," \o (IF c < 10 THEN "0" ELSE "") \o Str(c) \o u
Moment == "<T>"
LongEntry(e) == Moment \o " " \o (IF e.d THEN "<REP>\t" ELSE Pad(" ", 7) \o SizeText(Len(e.c)))
                \o "\t" \o (IF e.d THEN "D" ELSE " ") \o Pad(" ", 6) \o "\t" \o e.n \o "\n"
C_dir(m, t) ==
    LET ws == Words(m, t, 4)
        names == NoAttr(NamesOf(ws, {"/b", "/s"}))
        bare == HasW(ws, "/b")
        rec == HasW(ws, "/s")
        at == Attrs(ws)
        w0 == IF names = <<>> THEN "*" ELSE names[1]
        p == Abs(m, w0)
        whole == IsDir(m, p)
        w == IF whole /\ Last1(w0) = "/" THEN Upto(w0, Len(w0) - 1) ELSE w0
        k == FindLastC(w, FindC(w, 1, {"*", "?"}), {"/"})
        base == IF whole THEN p ELSE IF k = 0 THEN m.cwd ELSE Abs(m, Upto(w, k - 1))
        Name(q) == IF whole THEN w \o From(q, Len(p) + 1)
                   ELSE IF ~HasGlob(w) THEN w ELSE Upto(w, k) \o From(q, Len(base) + 2)
        hits == NamedW(m, w0, TRUE, rec)
        Dots(d) == {x \in {".", ".."} : (whole \/ (HasGlob(w) /\ GlobMatch(BaseName(p), x)))}
        seen == IF bare \/ ~(whole \/ HasGlob(w)) \/ ~IsDir(m, base) THEN {}
                ELSE {base} \cup IF rec THEN DirsIn(m, Under(m, base)) ELSE {}
        es == {[n |-> Name(q), d |-> m.fs[q].d, c |-> m.fs[q].c] : q \in hits}
              \cup UNION {{[n |-> Name(d \o "/" \o x), d |-> TRUE, c |-> ""] : x \in Dots(d)} : d \in seen}
        sel == {e \in es : Chosen(at, e.d, e.c)}
        list == SortBy(SetToSeq0(sel), LAMBDA a, b : Cmp(a.n, b.n) < 0)
        Count(b) == Str(Cardinality({e \in sel : e.d = b}))
        lines == Concat([i \in 1..Len(list) |-> IF bare THEN list[i].n \o "\n" ELSE LongEntry(list[i])])
        title == "\nLast change\t\tSize\tAttr.\tName\n"
        total == Pad("\t", 4) \o Count(FALSE) \o " Files\n" \o Pad("\t", 4) \o Count(TRUE) \o " Folders\n"
    IN IF Len(names) > 1 THEN Fail(m, 4)
       ELSE IF base = "/" \/ (EmptyDir(at) /\ \E e \in es : e.d)
               \/ (~whole /\ HasGlob(DirName(p)) /\ ~bare) THEN Unspecified(m)
       ELSE Ret(Out(m, IF bare THEN lines
                       ELSE title \o IF es = {} THEN "\tNo files found\n" ELSE lines \o total), 0)

(* ---- MD ---- *)
RECURSIVE MakeParents(_, _, _)
MakeParents(m, p, i) ==      \* creates what can be of the directories above p
    LET k == FindC(p, i, {"/"}) d == Upto(p, k - 1) IN
    IF k = 0 THEN m
    ELSE MakeParents(IF ~Exists(m, d) /\ IsDir(m, DirName(d)) THEN [m EXCEPT !.fs = (d :> [d |-> TRUE, c |-> ""]) @@ @]
                     ELSE m, p, k + 1)
Parent(p) == LET d == DirName(p) IN IF d = "" THEN "/" ELSE d
MakeDirs(m0, p) ==           \* [m, ok]
    LET m == MakeParents(m0, p, 2) IN
    IF IsDir(m, p) THEN [m |-> m, ok |-> TRUE]
    ELSE IF Exists(m, p) \/ ~IsDir(m, Parent(p)) THEN [m |-> Diag(m), ok |-> FALSE]
    ELSE [m |-> [m EXCEPT !.fs = (p :> [d |-> TRUE, c |-> ""]) @@ @], ok |-> TRUE]
RECURSIVE MakeAll(_, _)
MakeAll(m, ps) == IF ps = <<>> THEN Ret(m, 0)
                  ELSE LET r == MakeDirs(m, Abs(m, Head(ps)))
                       IN IF r.ok THEN MakeAll(r.m, Tail(ps)) ELSE Ret(r.m, 13)
C_md(m, t) == LET ps == Words(m, t, WordEnd(t))
              IN IF ps = <<>> \/ \E k \in 1..Len(ps) : StartsWith(Abs(m, ps[k]), NoWhere) THEN Unspecified(m) ELSE MakeAll(m, ps)

(* ---- deletion of lists: [m, ch, st]; ch is "a" once nothing is asked any more ---- *)
Removed(m, p) == RmPaths(m, {p})
DelOne(r, p, asks) ==
    LET q == IF asks /\ r.ch # "a" THEN AskMore(r.m) ELSE [m |-> r.m, r |-> "y"]
        ch == IF q.r = "a" THEN "a" ELSE r.ch
    IN IF q.r = "n" THEN [m |-> q.m, ch |-> ch, st |-> r.st]
       ELSE IF IsFile(q.m, p) THEN [m |-> Removed(q.m, p), ch |-> ch, st |-> r.st]
       ELSE [m |-> Diag(q.m), ch |-> ch, st |-> -1]
RdOne(r, p, asks) ==
    LET q == IF asks /\ r.ch # "a" THEN AskMore(r.m) ELSE [m |-> r.m, r |-> "y"]
        ch == IF q.r = "a" THEN "a" ELSE r.ch
    IN IF q.r = "n" THEN [m |-> q.m, ch |-> ch, st |-> r.st]
       ELSE IF IsDir(q.m, p) /\ Children(q.m, p) = {} THEN [m |-> Removed(q.m, p), ch |-> ch, st |-> r.st]
       ELSE [m |-> Diag(q.m), ch |-> ch, st |-> StOr(r.st, 51)]
DelSeq(m, ps, ch, asks) == FoldLeft(LAMBDA r, p : DelOne(r, p, asks), [m |-> m, ch |-> ch, st |-> 0], ps)
RdSeq(r0, ps, asks) == FoldLeft(LAMBDA r, p : RdOne(r, p, asks), r0, ps)
Flat(seqs) == FoldLeft(LAMBDA a, x : a \o x, <<>>, seqs)

(* ---- DEL ---- *)
C_del(m, t) ==
    LET ws == Words(m, t, WordEnd(t))
        names == NoAttr(NamesOf(ws, {"/p", "/f", "/s", "/q"}))
        at == Attrs(ws)
        hits == [k \in 1..Len(names) |-> NamedW(m, names[k], TRUE, HasW(ws, "/s"))]
        asks == HasW(ws, "/p") \/ (~HasW(ws, "/q") /\ \E k \in 1..Len(names) : HasGlob(names[k]))
        r == DelSeq(m, Flat([k \in 1..Len(names) |-> Sorted(m, WithAttr(m, at, FilesIn(m, hits[k])))]), IF asks THEN "" ELSE "a", asks)
    IN IF names = <<>> THEN Fail(m, -1)
       ELSE IF \E k \in 1..Len(names) : hits[k] = {} THEN Fail(m, 42)
       ELSE Ret(r.m, r.st)

(* ---- RD ---- *)
C_rd(m, t) ==
    LET ws == Words(m, t, WordEnd(t))
        s == HasW(ws, "/s")
        asks == ~HasW(ws, "/q")
        names == NamesOf(ws, {"/s", "/q"})
        hits == [k \in 1..Len(names) |-> NamedW(m, names[k], FALSE, s)]
        one == RdOne([m |-> m, ch |-> "a", st |-> 0], Abs(m, names[1]), FALSE)
        fs == DelSeq(m, Flat([k \in 1..Len(names) |-> Sorted(m, FilesIn(m, hits[k]))]), IF asks THEN "" ELSE "a", asks)
        r == RdSeq(fs, Flat([k \in 1..Len(names) |-> Deepest(m, DirsIn(m, hits[k]))]), asks)
    IN IF names = <<>> THEN Fail(m, 8)
       ELSE IF Len(names) = 1 /\ ~s THEN IF Slashed(m, names[1]) THEN Fail(m, 51) ELSE Ret(one.m, one.st)
       ELSE IF \E k \in 1..Len(names) : hits[k] = {} THEN Fail(m, 42)
       ELSE IF \E k \in 1..Len(names) : StartsWith(m.cwd \o "/", Abs(m, names[k]) \o "/") THEN Unspecified(m)
       ELSE Ret(r.m, r.st)

(* ---- rename(2): [m, ok] ---- *)
Renamed(m, a, b) ==
    LET no == [m |-> m, ok |-> FALSE]
        move == {q \in DOMAIN m.fs : q = a \/ StartsWith(q, a \o "/")}
        To(q) == b \o From(q, Len(a) + 1)
        rest == DOMAIN m.fs \ (move \cup {b})
    IN IF ~Exists(m, a) \/ ~IsDir(m, Parent(b)) THEN no
       ELSE IF a = b THEN [m |-> m, ok |-> TRUE]
       ELSE IF IsDir(m, a) /\ (StartsWith(b, a \o "/") \/ IsFile(m, b)) THEN no
       ELSE IF IsDir(m, b) /\ (IsFile(m, a) \/ Children(m, b) # {}) THEN no
       ELSE [ok |-> TRUE,
             m |-> [m EXCEPT !.fs = [q \in rest \cup {To(x) : x \in move} |->
                        IF q \in rest THEN m.fs[q] ELSE m.fs[CHOOSE x \in move : To(x) = q]]]]
C_ren(m, t) ==
    LET ws == Words(m, t, WordEnd(t))
        a == Abs(m, ws[1])
        r == Renamed(m, a, (IF Parent(a) = "/" THEN "/" ELSE Parent(a) \o "/") \o ws[2])
    IN IF Len(ws) < 2 THEN Fail(m, 8)
       ELSE IF FindC(ws[2], 1, {"/", "\\"}) # 0 THEN Fail(m, 52)
       ELSE IF StartsWith(m.cwd \o "/", a \o "/") THEN Unspecified(m)
       ELSE IF r.ok THEN Ret(r.m, 0) ELSE Fail(m, 10)

(* ---- COPY and MOVE ----
   o: [mv, cat, multi, dst]; r: [m, st, sil, second] *)
Transfer(r, src, o) ==      \* one file
    LET dst == IF o.multi /\ ~o.cat THEN o.dst \o "/" \o BaseName(src) ELSE o.dst
        q == IF IsFile(r.m, dst) /\ ~r.sil /\ ~r.second THEN AskMore(r.m) ELSE [m |-> r.m, r |-> "y"]
        m == q.m
        n == [r EXCEPT !.m = m, !.sil = @ \/ q.r = "a"]
        Bad(code) == [n EXCEPT !.m = Diag(m), !.st = StOr(@, code)]
        CanWrite == ~IsDir(m, dst) /\ IsDir(m, Parent(dst))
        mvd == Renamed(m, src, dst)
    IN IF q.r = "n" THEN n
       ELSE IF o.mv THEN IF mvd.ok THEN [n EXCEPT !.m = mvd.m] ELSE Bad(47)
       ELSE IF ~IsFile(m, src) THEN Bad(IF o.cat THEN 58 ELSE -1)
       ELSE IF o.cat
            THEN IF src = dst THEN IF r.second THEN Bad(58) ELSE [n EXCEPT !.second = TRUE]
                 ELSE IF ~CanWrite THEN [Bad(58) EXCEPT !.second = TRUE]
                 ELSE [n EXCEPT !.second = TRUE,
                                !.m = PutFile(m, dst, (IF r.second /\ IsFile(m, dst) THEN m.fs[dst].c ELSE "") \o m.fs[src].c)]
       ELSE IF src = dst \/ ~CanWrite THEN Bad(48)
       ELSE [n EXCEPT !.m = PutFile(m, dst, m.fs[src].c)]
(* /R: the tree below (or the files matched by) one source *)
MakeTree(r, p) == LET x == MakeDirs(r.m, p)
                  IN [r EXCEPT !.m = x.m, !.st = IF x.ok THEN @ ELSE StOr(@, 13)]
TransferTree(r0, src, name, o) ==
    LET slash == Last1(name) = "/"
        found == NamedW(r0.m, name, TRUE, TRUE)
        hits == WithAttr(r0.m, o.at, found)
        To(q) == o.dst \o From(q, IF slash THEN Len(src) + 1 ELSE BaseOf(src).at)
        dirs == DirsIn(r0.m, hits)
        r1 == FoldLeft(LAMBDA r, d : MakeTree(r, To(d)), r0, SortBy(SetToSeq0(dirs), LAMBDA a, b : Cmp(a, b) < 0))
        One(r, q) == Transfer([r EXCEPT !.m = MakeDirs(@, Parent(To(q))).m], q, [o EXCEPT !.dst = To(q), !.multi = FALSE])
        r2 == FoldLeft(One, r1, Sorted(r0.m, FilesIn(r0.m, hits)))
        r3 == RdSeq([m |-> r2.m, ch |-> "a", st |-> r2.st], Deepest(r0.m, dirs), FALSE)
    IN IF found = {} THEN [r0 EXCEPT !.m = Diag(@), !.st = -1]
       ELSE IF o.mv THEN [r2 EXCEPT !.m = r3.m, !.st = r3.st] ELSE r2
CopyOrMove(m, ws, mv) ==
    LET sil == LET k == {i \in 1..Len(ws) : Lower(ws[i]) \in {"/y", "/-y"}}
               IN k # {} /\ Lower(ws[CHOOSE i \in k : \A j \in k : j <= i]) = "/y"
        names == NoAttr(NamesOf(ws, {"/y", "/-y", "/r", "+"}))
        at == Attrs(ws)
        n == Len(names)
        rec == HasW(ws, "/r")
        plus == HasW(ws, "+")
        dst == Abs(m, names[n])
        srcs == [k \in 1..(n - 1) |-> Abs(m, names[k])]
        hits == [k \in 1..(n - 1) |-> NamedW(m, names[k], FALSE, FALSE)]
        list == Flat([k \in 1..(n - 1) |-> Sorted(m, WithAttr(m, at, FilesIn(m, hits[k])))])
        folder == IsDir(m, dst) \/ Last1(names[n]) = "/"
        many == Len(list) > 1
        o == [mv |-> mv, cat |-> plus \/ (many /\ ~rec /\ ~folder /\ ~mv), multi |-> folder \/ many, dst |-> dst, at |-> at]
        r0 == [m |-> m, st |-> 0, sil |-> sil, second |-> FALSE]
        r == FoldLeft(LAMBDA x, s : Transfer(x, s, o), r0, list)
        rt == FoldLeft(LAMBDA x, k : TransferTree(x, srcs[k], names[k], o), r0, Ix(n - 1))
        within == \E k \in 1..(n - 1) :
                      \/ StartsWith(dst \o "/", BaseOf(srcs[k]).dir \o "/" \o BaseOf(srcs[k]).last \o "/")
                      \/ \E q \in NamedW(m, names[k], TRUE, TRUE) : StartsWith(q, dst \o "/")
    IN IF plus /\ mv THEN Fail(m, 4)
       ELSE IF n < 2 THEN Fail(m, 8)
       ELSE IF rec /\ plus THEN Fail(m, 9)
       ELSE IF rec THEN IF within \/ EmptyDir(at) THEN Unspecified(m) ELSE Ret(rt.m, rt.st)
       ELSE IF \E k \in 1..(n - 1) : hits[k] = {} /\ ~DotsMatch(m, srcs[k]) THEN Fail(m, 42)
       ELSE IF o.cat /\ \E k \in 1..(n - 1) : Cardinality(FilesIn(m, hits[k])) > 1 THEN Unspecified(m)
       ELSE Ret(r.m, r.st)
C_copy(m, t) == CopyOrMove(m, Words(m, t, 5), FALSE)
C_move(m, t) == CopyOrMove(m, Words(m, t, 5), TRUE)
=============================================================================
