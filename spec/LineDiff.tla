------------------------------- MODULE LineDiff -------------------------------
(* Edit scripts between two sequences of lines.  A hunk is
     [at, minus, plus]:  at is the number of its first line, in the second text
   if it adds lines and in the first one otherwise; the lines between hunks are
   unchanged.

   The script is executed as a state machine: a step keeps one line, or applies
   the next hunk.  A correct script ends with both texts consumed.             *)
EXTENDS Integers, Sequences, SequencesExt, TLC

Min2(x, y) == IF x < y THEN x ELSE y
Max_(x, y) == IF x > y THEN x ELSE y

(* the edit distance: insertions, deletions and replacements of single lines *)
Upto(n) == [k \in 1..n |-> k]
NextRow(x, b, old, i) ==   \* old: distances to the prefixes of b
  FoldLeft(LAMBDA row, j: Append(row, Min2(Min2(row[j], old[j + 1]) + 1, old[j] + (IF x = b[j] THEN 0 ELSE 1))),
           <<i>>, Upto(Len(b)))
Rows(a, b, row0) == FoldLeft(LAMBDA row, i: NextRow(a[i], b, row, i), row0, Upto(Len(a)))
Distance(a, b) == Rows(a, b, [j \in 1..(Len(b) + 1) |-> j - 1])[Len(b) + 1]

VARIABLES a, b, hunks, i, j, cost      \* i, j: lines consumed
vars == <<a, b, hunks, i, j, cost>>

Here(h) == h.at - 1 = (IF h.plus = <<>> THEN i ELSE j)
Keep ==
  /\ i < Len(a) /\ j < Len(b) /\ a[i + 1] = b[j + 1]
  /\ hunks # <<>> => ~Here(Head(hunks))
  /\ i' = i + 1 /\ j' = j + 1
  /\ UNCHANGED <<a, b, hunks, cost>>
Segment(s, from, seg) == from + Len(seg) <= Len(s) /\ SubSeq(s, from + 1, from + Len(seg)) = seg
Apply ==
  /\ hunks # <<>>
  /\ LET h == Head(hunks) IN
     /\ Here(h)
     /\ h.minus # <<>> \/ h.plus # <<>>
     /\ Segment(a, i, h.minus) /\ Segment(b, j, h.plus)
     /\ i' = i + Len(h.minus) /\ j' = j + Len(h.plus)
     /\ cost' = cost + Max_(Len(h.minus), Len(h.plus))
  /\ hunks' = Tail(hunks)
  /\ UNCHANGED <<a, b>>
Next == Keep \/ Apply
Done == hunks = <<>> /\ i = Len(a) /\ j = Len(b)
Correct == Done /\ cost = Distance(a, b)

-----------------------------------------------------------------------------
(* The algorithm: the matrix of distances and operations, and its backtracking. *)
Op(M, x, y, k, l) ==   \* M: rows so far; the cell (k, l)
  LET c == IF x[k] = y[l] THEN 0 ELSE 1
      up == M[k][l + 1][1] + 1
      left == M[k + 1][l][1] + 1
      diag == M[k][l][1] + c
  IN  IF up < left THEN (IF up < diag THEN <<up, "del">> ELSE <<diag, IF c = 0 THEN "keep" ELSE "rep">>)
      ELSE IF left < diag THEN <<left, "ins">> ELSE <<diag, IF c = 0 THEN "keep" ELSE "rep">>
RECURSIVE Fill(_, _, _, _, _)
Fill(M, x, y, k, l) ==
  IF k > Len(x) THEN M
  ELSE IF l > Len(y) THEN Fill(IF k < Len(x) THEN Append(M, <<<<k + 1, "del">>>>) ELSE M, x, y, k + 1, 1)
  ELSE Fill([M EXCEPT ![k + 1] = Append(@, Op(M, x, y, k, l))], x, y, k, l + 1)
Matrix(x, y) ==
  LET r0 == [l \in 1..(Len(y) + 1) |-> <<l - 1, "ins">>]
  IN  Fill(IF x = <<>> THEN <<r0>> ELSE <<r0, <<<<1, "del">>>>>>, x, y, 1, 1)

(* hunks are built from the end; a line joins the last hunk if it is its neighbour *)
Hunk(op, at, m, p) == [op |-> op, at |-> at, minus |-> m, plus |-> p]
Joins(hs, op, k, l) ==
  /\ hs # <<>> /\ Head(hs).op = op
  /\ op \in {"ins", "rep"} => Head(hs).at = l + 1
  /\ op = "del" => Head(hs).at = k + 1
RECURSIVE Back(_, _, _, _, _, _)
Back(M, x, y, k, l, hs) ==
  IF k = 0 /\ l = 0 THEN hs
  ELSE LET op == M[k + 1][l + 1][2] IN
       IF op = "keep" THEN Back(M, x, y, k - 1, l - 1, hs)
       ELSE LET m == IF op = "ins" THEN <<>> ELSE <<x[k]>>
                p == IF op = "del" THEN <<>> ELSE <<y[l]>>
                h == Hunk(op, IF op = "del" THEN k ELSE l, m, p)
                hs2 == IF Joins(hs, op, k, l)
                       THEN <<[h EXCEPT !.minus = @ \o Head(hs).minus, !.plus = @ \o Head(hs).plus]>> \o Tail(hs)
                       ELSE <<h>> \o hs
            IN  Back(M, x, y, IF op = "ins" THEN k ELSE k - 1, IF op = "del" THEN l ELSE l - 1, hs2)
Algorithm(x, y) == Back(Matrix(x, y), x, y, Len(x), Len(y), <<>>)
=============================================================================
