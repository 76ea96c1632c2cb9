------------------------------- MODULE StorageMC -------------------------------
(***************************************************************************)
(* An array as its storage: a buffer, the place of the first element and a *)
(* stride per axis.  A writer stores the entries of an n x d array one by  *)
(* one through a view; whatever the layout, the entry read at (i, j) is    *)
(* the entry written there, nothing outside the view is touched, and a     *)
(* compact copy holds the entries in row order.  What depends on the       *)
(* layout is the order of the buffer: Flat (reading it from its start, as  *)
(* ravel('K') does) is the row order only for row-ordered layouts.         *)
(* Every layout is written out; the code is given its data in all of them. *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC, IOUtils, CSV, Json

\* shapes <<n, d>> of interest
Shapes == LET s == JsonDeserialize(IOEnv.SHAPES) IN {s[i] : i \in 1..Len(s)}
CONSTANTS Slice, Slices   \* of the layouts, for each shape

Abs(a) == IF a < 0 THEN -a ELSE a
\* order: which axis is the outer one; gap: between neighbours of the inner
\* axis; pad: left over after each line; lead: before the first element
Params == [order : {"row", "col"}, up0 : {1, -1}, up1 : {1, -1}, gap : {1, 2}, pad : {0, 1, 3}, lead : {0, 2}]
ParamSeq == LET RECURSIVE L(_) L(S) == IF S = {} THEN <<>> ELSE LET x == CHOOSE x \in S : TRUE IN <<x>> \o L(S \ {x})
            IN L(Params)
Layout(sh, q) ==
    LET n == sh[1] d == sh[2]
        inner == IF q.order = "row" THEN d ELSE n
        outer == IF q.order = "row" THEN n ELSE d
        line  == inner * q.gap + q.pad
        a0 == IF q.order = "row" THEN line ELSE q.gap
        a1 == IF q.order = "row" THEN q.gap ELSE line
    IN [n |-> n, d |-> d, s0 |-> q.up0 * a0, s1 |-> q.up1 * a1,
        off |-> q.lead + (IF q.up0 < 0 THEN (n - 1) * a0 ELSE 0) + (IF q.up1 < 0 THEN (d - 1) * a1 ELSE 0),
        len |-> q.lead + outer * line + 1]

VARIABLES lay, buf, at
vars == <<lay, buf, at>>
Place(l, i, j) == l.off + i * l.s0 + j * l.s1
Value(l, i, j) == 1 + i * l.d + j          \* the entries of the logical array
Filler == 0

Init == /\ \E sh \in Shapes, p \in {i \in 1..Len(ParamSeq) : i % Slices = Slice} :
              /\ lay = Layout(sh, ParamSeq[p])
              /\ CSVWrite("%1$s", <<ToJson(Layout(sh, ParamSeq[p]))>>, IOEnv.OUT)
        /\ buf = [x \in 0..(lay.len - 1) |-> Filler]
        /\ at = 0
\* entries are written in row order (two at a time where that shortens runs)
Write == /\ at < lay.n * lay.d
         /\ buf' = [buf EXCEPT ![Place(lay, at \div lay.d, at % lay.d)] = Value(lay, at \div lay.d, at % lay.d)]
         /\ at' = at + 1 /\ UNCHANGED lay
Next == Write

Cells == {<<i, j>> : i \in 0..(lay.n - 1), j \in 0..(lay.d - 1)}
Inside == \A c \in Cells : Place(lay, c[1], c[2]) \in 0..(lay.len - 1)
\* no two entries share a place
Apart == at = 0 => Cardinality({Place(lay, c[1], c[2]) : c \in Cells}) = lay.n * lay.d
Written(c) == c[1] * lay.d + c[2] < at
ReadsBack == \A c \in Cells : buf[Place(lay, c[1], c[2])] = IF Written(c) THEN Value(lay, c[1], c[2]) ELSE Filler
Untouched == \A x \in 0..(lay.len - 1) : (\A c \in Cells : Place(lay, c[1], c[2]) # x) => buf[x] = Filler
Compact == [x \in 0..(lay.n * lay.d - 1) |-> buf[Place(lay, x \div lay.d, x % lay.d)]]
CompactInOrder == at = lay.n * lay.d => \A x \in DOMAIN Compact : Compact[x] = x + 1
\* reading the buffer from its start
Flat == SelectSeq([x \in 1..lay.len |-> buf[x - 1]], LAMBDA v : v # Filler)
RowOrdered == (lay.d = 1 \/ lay.s1 > 0) /\ (lay.n = 1 \/ lay.s0 > (lay.d - 1) * Abs(lay.s1))
FlatOrder == at = lay.n * lay.d => ((\A x \in 1..Len(Flat) : Flat[x] = x) <=> RowOrdered)
==============================================================================
