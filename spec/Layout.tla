------------------------------- MODULE Layout -------------------------------
(* Layouts of matrices and index sets as enumerations.  Everything is a walk: *)
(* VecSeq, VechSeq ... list the positions in storage order, and the maps the   *)
(* library offers are judged against these lists.  Indices are 0-based, as in  *)
(* the library.                                                                *)
EXTENDS Naturals, Integers, Sequences, FiniteSets

(* row-major list of the cells of an r x c grid *)
CellsC(r, c) == [k \in 1..(r*c) |-> <<(k-1) \div c, (k-1) % c>>]
(* column-major *)
CellsF(r, c) == [k \in 1..(r*c) |-> <<(k-1) % r, (k-1) \div r>>]
Lower(x, k) == x[2] <= x[1] + k     \* on or below the k-th diagonal
Upper(x, k) == x[2] >= x[1] + k
TriSeq(r, c, k, order, T(_,_)) == SelectSeq(IF order = "F" THEN CellsF(r, c) ELSE CellsC(r, c), LAMBDA x : T(x, k))
VechSeq(n) == TriSeq(n, n, 0, "F", Lower)
VeclSeq(n) == TriSeq(n, n, -1, "F", Lower)
Zip(a, b) == [k \in 1..Len(a) |-> <<a[k], b[k]>>]
PosOf(s, x) == (CHOOSE k \in 1..Len(s) : s[k] = x) - 1
Tri(k) == (k * (k + 1)) \div 2

RECURSIVE Mixed(_, _)
(* all multi-indices of a shape, last index fastest *)
Mixed(shape, d) == IF d = 0 THEN << <<>> >>
  ELSE LET pre == Mixed(shape, d - 1) IN
       [k \in 1..(Len(pre) * shape[d]) |-> Append(pre[((k-1) \div shape[d]) + 1], (k-1) % shape[d])]
LexSeq(shape) == Mixed(shape, Len(shape))
Rev(s) == [k \in 1..Len(s) |-> s[Len(s) + 1 - k]]
(* first index fastest *)
ColexSeq(shape) == LET s == Mixed(Rev(shape), Len(shape)) IN [k \in 1..Len(s) |-> Rev(s[k])]
Asc(x) == \A k \in 1..(Len(x)-1) : x[k] <= x[k+1]
Desc(x) == \A k \in 1..(Len(x)-1) : x[k] >= x[k+1]
SAsc(x) == \A k \in 1..(Len(x)-1) : x[k] < x[k+1]
SDesc(x) == \A k \in 1..(Len(x)-1) : x[k] > x[k+1]
RECURSIVE Insert(_, _)
Insert(x, s) == IF s = <<>> \/ x <= s[1] THEN <<x>> \o s ELSE <<s[1]>> \o Insert(x, Tail(s))
RECURSIVE SortSeqN(_)
SortSeqN(s) == IF s = <<>> THEN <<>> ELSE Insert(s[1], SortSeqN(Tail(s)))
Cnt(s, v) == Cardinality({k \in 1..Len(s) : s[k] = v})
Range(s) == {s[k] : k \in 1..Len(s)}
RECURSIVE Fact(_)
Fact(n) == IF n <= 1 THEN 1 ELSE n * Fact(n - 1)
RECURSIVE MultiNom(_, _)
MultiNom(s, vals) == IF vals = {} THEN Fact(Len(s)) ELSE LET v == CHOOSE v \in vals : TRUE IN MultiNom(s, vals \ {v}) \div Fact(Cnt(s, v))
LexLt(a, b) == \E k \in 1..Len(a) : a[k] < b[k] /\ \A j \in 1..(k-1) : a[j] = b[j]
=============================================================================
