-------------------------------- MODULE Lex ---------------------------------
(***************************************************************************)
(* How a logical line is cut: command blocks, operators, redirections and  *)
(* parameters.  Transcribed from pBat_ParseBlock.c, pBat_Parse.c and       *)
(* pBat_Args.c.                                                            *)
(***************************************************************************)
EXTENDS Text

KwAt(s, i, w) == Lower(Sub(s, i, i + Len(w) - 1)) = w /\ EndsWord(Ch(s, i + Len(w)))
LookAhead(s, i) == KwAt(s, i, "if") \/ KwAt(s, i, "for")
BlockCmd(s, i) == LookAhead(s, i) \/ KwAt(s, i, "def")

(* End of a command: position of the terminator (or Len+1); 0 = malformed *)
RECURSIVE LineEnd(_, _, _), BlockEnd(_, _), LineEndLoop(_, _, _), BlockEndLoop(_, _)
LineEnd(s, i0, par) ==
    LET i == SkipLB(s, i0) IN
    IF Ch(s, i) = "(" THEN LET e == BlockEnd(s, i) IN IF e = 0 THEN 0 ELSE e + 1
    ELSE IF ~BlockCmd(s, i)
         THEN LET p == FindHybrid(s, i, {"\n"}, IF par THEN {")", "&", "|"} ELSE {"&", "|"})
              IN IF p = 0 THEN Len(s) + 1 ELSE p
    ELSE LineEndLoop(s, i, par)
LineEndLoop(s, i, par) ==
    LET p == FindHybrid(s, i, {"\n"}, IF par THEN {"(", ")", "&", "|"} ELSE {"(", "&", "|"}) IN
    IF p = 0 THEN Len(s) + 1
    ELSE IF Ch(s, p) = "("
         THEN LET e == BlockEnd(s, p) IN
              IF e = 0 THEN 0 ELSE IF e + 1 > Len(s) THEN e + 1 ELSE LineEndLoop(s, e + 1, par)
    ELSE p
(* i is on "(": position of the matching ")" *)
BlockEnd(s, i) == IF Ch(s, i) # "(" THEN 0 ELSE BlockEndLoop(s, i + 1)
BlockEndLoop(s, i) ==
    LET p == LineEnd(s, i, TRUE) IN
    IF p = 0 \/ p > Len(s) THEN 0
    ELSE IF Ch(s, p) = ")" THEN p
    ELSE BlockEndLoop(s, p + 1)

(* A line read from a script is complete when its blocks are closed *)
RECURSIVE Complete(_, _)
Complete(s, i) ==   \* "ok", "open", "almost"
    LET j == IF Ch(s, i) \in {"|", "&"} THEN i + 1 ELSE i
        p == LineEnd(s, j, FALSE)
    IN IF p = 0 THEN "open"
       ELSE IF p > Len(s) THEN "almost"
       ELSE IF Ch(s, p) = "\n" THEN "ok"
       ELSE Complete(s, p)

RECURSIVE NextBlock(_, _)
NextBlock(s, i0) ==   \* first block opening in command position, 0 if none
    LET i == SkipAB(s, i0)
        p == IF BlockCmd(s, i) \/ Ch(s, i) = "(" THEN FindHybrid(s, i, {"\n"}, {"(", "&", "|"})
             ELSE FindHybrid(s, i, {"\n"}, {"&", "|"})
    IN IF p = 0 THEN 0
       ELSE IF Ch(s, p) = "(" THEN p
       ELSE IF Ch(s, p) = "\n" THEN NextBlock(s, p + 1)
       ELSE NextBlock(s, IF Ch(s, p) = Ch(s, p + 1) THEN p + 2 ELSE p + 1)
AfterBlock(s, i) == LET p == FindOut(s, i, {"(", ")"}) IN IF p # 0 /\ Ch(s, p) = "(" THEN p ELSE 0

(* ---- operators: sequence of [op, txt]; op in "", "&", "&&", "||", "|" ---- *)
RECURSIVE OpsFrom(_, _, _, _, _, _)
OpsFrom(s, beg, i, blk, op, acc) ==
    LET p == FindOut(s, i, {"|", "&"}) IN
    IF p = 0 THEN Append(acc, [op |-> op, txt |-> From(s, beg)])
    ELSE IF blk # 0 /\ p >= blk
         THEN LET e == BlockEnd(s, blk) IN
              IF e = 0 THEN <<>> ELSE OpsFrom(s, beg, e, AfterBlock(s, e + 1), op, acc)
    ELSE IF Ch(s, p) = "&" /\ p > 1 /\ Ch(s, p - 1) = ">"
         THEN OpsFrom(s, beg, p + 1, blk, op, acc)
    ELSE LET dbl == Ch(s, p + 1) = Ch(s, p)
             nop == IF dbl THEN Ch(s, p) \o Ch(s, p) ELSE Ch(s, p)
             nxt == IF dbl THEN p + 2 ELSE p + 1
         IN OpsFrom(s, nxt, nxt, blk, nop, Append(acc, [op |-> op, txt |-> Sub(s, beg, p - 1)]))
ParseOps(s) == OpsFrom(s, 1, 1, NextBlock(s, 1), "", <<>>)   \* <<>>: malformed

(* ---- parameters ---- *)
PDELIMS == {" ", ";", ",", "\t", "\"", "\n"}
RDELIMS == PDELIMS \cup {"&", "|", ">", "<", ")"}
(* bounds of the next parameter: [b, e], e = position after it, b = 0 if none *)
RECURSIVE ParamEnd(_, _, _)
ParamEnd(s, i, set) ==   \* position of the delimiter, or Len+1
    LET p == FindU(s, i, set) IN
    IF p = 0 THEN Len(s) + 1
    ELSE IF Ch(s, p) = "\""
         THEN LET q == FindU(s, p + 1, {"\""}) IN IF q = 0 THEN Len(s) + 1 ELSE ParamEnd(s, q + 1, set)
    ELSE p
ParamBounds(s, i, set) ==
    LET b == SkipB(s, i) IN
    IF b > Len(s) THEN [b |-> 0, e |-> 0] ELSE [b |-> b, e |-> ParamEnd(s, b, set)]
(* raw parameter, surrounding quotes removed, before expansion: [ok, t, e] *)
RECURSIVE RawParam(_, _, _)
RawParam(s, i, set) ==
    LET pb == ParamBounds(s, i, set) IN
    IF pb.b = 0 THEN [ok |-> FALSE, t |-> "", e |-> 0]
    ELSE LET w == Sub(s, pb.b, pb.e - 1)
             u == IF Ch(w, 1) # "\"" THEN w
                  ELSE LET r == From(w, 2) IN
                       IF r # "" /\ Last1(r) = "\"" THEN Upto(r, Len(r) - 1) ELSE r
         IN IF u = "^" THEN RawParam(s, pb.e, set) ELSE [ok |-> TRUE, t |-> u, e |-> pb.e]

(* ---- redirections of one command ----
   result: [ok, txt, in, out, err, oapp, eapp, dup]; targets are raw parameters *)
NoRedir == [ok |-> TRUE, txt |-> "", in |-> "", out |-> "", err |-> "", oapp |-> FALSE,
            eapp |-> FALSE, dup |-> ""]
BadRedir == [NoRedir EXCEPT !.ok = FALSE]
NoName == "/."           \* a target that is empty designates no file
Target(t) == IF t = "" THEN NoName ELSE t
RECURSIVE RedirFrom(_, _, _, _, _)
RedirFrom(s, beg, i, blk, acc) ==
    LET p == FindOut(s, i, {"1", "2", "<", ">"}) IN
    IF p = 0 THEN [acc EXCEPT !.txt = @ \o From(s, beg)]
    ELSE IF blk # 0 /\ p >= blk
         THEN LET e == BlockEnd(s, blk) IN
              IF e = 0 THEN BadRedir ELSE RedirFrom(s, beg, e, AfterBlock(s, e + 1), acc)
    ELSE
    LET c == Ch(s, p)
        pre == acc.txt \o Sub(s, beg, p - 1)
        Dup(kind) == IF acc.dup # "" THEN BadRedir
                     ELSE RedirFrom(s, p + 4, p + 4, blk, [acc EXCEPT !.txt = pre, !.dup = kind])
        Out(at, isErr) ==   \* at: position after the (first) ">"
            LET app == Ch(s, at) = ">"
                st == IF app THEN at + 1 ELSE at
                r == RawParam(s, st, RDELIMS)
            IN IF (isErr /\ acc.err # "") \/ (~isErr /\ acc.out # "") \/ ~r.ok THEN BadRedir
               ELSE RedirFrom(s, r.e, r.e, blk,
                    IF isErr THEN [acc EXCEPT !.txt = pre, !.err = Target(r.t), !.eapp = app]
                             ELSE [acc EXCEPT !.txt = pre, !.out = Target(r.t), !.oapp = app])
    IN IF c = "2" /\ HasAt(s, p + 1, ">&1") THEN Dup("2>1")
       ELSE IF c \in {"1", "2"} /\ HasAt(s, p + 1, ">&2") THEN Dup("1>2")
       ELSE IF c \in {"1", "2"} /\ Ch(s, p + 1) # ">"
            THEN RedirFrom(s, p + 1, p + 1, blk, [acc EXCEPT !.txt = pre \o c])
       ELSE IF c = "1" THEN Out(p + 2, FALSE)
       ELSE IF c = "2" THEN Out(p + 2, TRUE)
       ELSE IF c = ">" THEN Out(p + 1, FALSE)
       ELSE LET r == RawParam(s, p + 1, RDELIMS) IN
            IF acc.in # "" \/ ~r.ok THEN BadRedir
            ELSE RedirFrom(s, r.e, r.e, blk, [acc EXCEPT !.txt = pre, !.in = Target(r.t)])
ParseRedir(s) == RedirFrom(s, 1, 1, NextBlock(s, 1), NoRedir)

(* A parsed line: sequence of elements; <<>> if it is malformed *)
ParseLine(s) ==
    LET ops == ParseOps(s)
        els == [k \in 1..Len(ops) |-> LET r == ParseRedir(ops[k].txt)
                                      IN [op |-> ops[k].op, txt |-> r.txt, r |-> [r EXCEPT !.txt = ""]]]
    IN IF \E k \in 1..Len(els) : ~els[k].r.ok THEN <<>> ELSE els

(* ---- the lines of a block ---- *)
RECURSIVE BlockLineEnd(_, _)
BlockLineEnd(s, i) ==
    LET p == LineEnd(s, SkipB(s, i), FALSE)
        q == IF Ch(s, p) \in {"&", "|"} THEN p + 1 ELSE p
        r == IF Ch(s, q) \in {"&", "|"} THEN q + 1 ELSE q
    IN IF p = 0 \/ r > Len(s) THEN Len(s) + 1
       ELSE IF Ch(s, r) \in {"\n", ")"} THEN r ELSE BlockLineEnd(s, r)
RECURSIVE BlockLines(_, _)
BlockLines(s, i) ==
    IF i > Len(s) THEN <<>>
    ELSE LET e == BlockLineEnd(s, i)
             l == Sub(s, i, e - 1)
             rest == BlockLines(s, e + 1)
         IN IF SkipAB(l, 1) > Len(l) THEN rest ELSE <<l>> \o rest

(* The lookahead helpers of IF and FOR: text after the condition.  Result:
   [b, e, nxt]: the block (or command) text is Sub(s, b, e-1), nxt follows it *)
TakeBlock(s, i) ==
    IF Ch(s, i) = "("
    THEN LET e == BlockEnd(s, i) IN
         IF e = 0 THEN [b |-> i + 1, e |-> Len(s) + 1, nxt |-> Len(s) + 1]
         ELSE [b |-> i + 1, e |-> e, nxt |-> e + 1]
    ELSE LET p == LineEnd(s, i, FALSE)
             e == IF p = 0 THEN Len(s) + 1 ELSE p
         IN [b |-> i, e |-> e, nxt |-> e]
=============================================================================
