--------------------------------- MODULE Wire ---------------------------------
(* Messages as bytes: which byte sequences are a message, and what it contains.
   A client sends the bytes b and nothing more.

   Frame(b) is [k |-> "bad"] or [k |-> "msg", doc, seqs, more, odd]:
     doc   the bytes of the command         seqs  <<name, documents>> of each document sequence
     more  no reply is expected             odd   reserved flags are set          *)
EXTENDS Integers, Sequences

Bad == [k |-> "bad"]
(* 32 bits, little endian, signed *)
I32(b, i) == b[i] + 256 * b[i + 1] + 65536 * b[i + 2] + 16777216 * (IF b[i + 3] >= 128 THEN b[i + 3] - 256 ELSE b[i + 3])
MaxLength == 48000000

RECURSIVE AfterZero(_, _, _)
AfterZero(b, i, end) == IF i > end THEN 0 ELSE IF b[i] = 0 THEN i + 1 ELSE AfterZero(b, i + 1, end)

-----------------------------------------------------------------------------
(* A document at i, in front of end: the position after it; 0: that is none.
   Only its frame (WalkD: everything, in at most lim levels).                 *)
DocEnd(b, i, end) ==
  IF i + 4 > end THEN 0
  ELSE LET n == I32(b, i) IN
       IF n < 5 \/ n > end - i + 1 THEN 0 ELSE IF b[i + n - 1] # 0 THEN 0 ELSE i + n

RECURSIVE WalkD(_, _, _, _), WalkE(_, _, _, _)
Str(b, i, end) ==
  IF i + 4 > end THEN 0
  ELSE LET n == I32(b, i) IN
       IF n < 1 \/ n > end - i - 3 THEN 0 ELSE IF b[i + 3 + n] # 0 THEN 0 ELSE i + 4 + n
Skip(i, n, end) == IF i + n - 1 > end THEN 0 ELSE i + n
WalkV(b, t, i, end, lim) ==
  CASE t \in {1, 9, 17, 18} -> Skip(i, 8, end)
    [] t = 16 -> Skip(i, 4, end)
    [] t \in {10, 6, 255, 127} -> i
    [] t = 8 -> IF i <= end /\ b[i] \in {0, 1} THEN i + 1 ELSE 0
    [] t = 7 -> Skip(i, 12, end)
    [] t = 19 -> Skip(i, 16, end)
    [] t \in {2, 13, 14} -> Str(b, i, end)
    [] t \in {3, 4} -> WalkD(b, i, end, lim - 1)
    [] t = 5 -> IF i + 4 > end THEN 0
                ELSE LET n == I32(b, i) IN IF n < 0 \/ n > end - i - 4 THEN 0 ELSE i + 5 + n
    [] t = 11 -> LET j == AfterZero(b, i, end) IN IF j = 0 THEN 0 ELSE AfterZero(b, j, end)
    [] t = 12 -> LET j == Str(b, i, end) IN IF j = 0 THEN 0 ELSE Skip(j, 12, end)
    [] t = 15 -> IF i + 4 > end THEN 0
                 ELSE LET j == Str(b, i + 4, end) IN IF j = 0 THEN 0 ELSE WalkD(b, j, end, lim - 1)
    [] OTHER -> 0
(* the elements from i on, the last byte of the document is at end *)
WalkE(b, i, end, lim) ==
  IF i >= end THEN (IF i = end THEN end + 1 ELSE 0)
  ELSE LET j == AfterZero(b, i + 1, end - 1)
           m == IF j = 0 THEN 0 ELSE WalkV(b, b[i], j, end - 1, lim)
       IN  IF m = 0 THEN 0 ELSE WalkE(b, m, end, lim)
WalkD(b, i, end, lim) ==
  IF lim = 0 THEN 0
  ELSE LET n == DocEnd(b, i, end) IN IF n = 0 THEN 0 ELSE WalkE(b, i + 4, n - 1, lim)

Sound(d) == WalkD(d, 1, Len(d), 200) # 0      \* everything else must be refused
Modest(d) == WalkD(d, 1, Len(d), 100) # 0     \* not nested deeper than anybody may rely on

-----------------------------------------------------------------------------
RECURSIVE DocsIn(_, _, _, _), Sections(_, _, _, _)
DocsIn(b, i, end, ds) ==
  IF i = end + 1 THEN <<ds>>
  ELSE LET n == DocEnd(b, i, end) IN IF n = 0 THEN <<>> ELSE DocsIn(b, n, end, Append(ds, SubSeq(b, i, n - 1)))

(* exactly one document of the command, any number of document sequences *)
Sections(b, i, end, m) ==
  IF i = end + 1 THEN (IF m.doc = <<>> THEN Bad ELSE m)
  ELSE IF b[i] = 0
  THEN LET n == DocEnd(b, i + 1, end) IN
       IF n = 0 \/ m.doc # <<>> THEN Bad ELSE Sections(b, n, end, [m EXCEPT !.doc = SubSeq(b, i + 1, n - 1)])
  ELSE IF b[i] # 1 \/ i + 4 > end THEN Bad
  ELSE LET size == I32(b, i + 1) IN
       IF size < 4 \/ size > end - i THEN Bad
       ELSE LET last == i + size
                d == AfterZero(b, i + 5, last)
                ds == IF d = 0 THEN <<>> ELSE DocsIn(b, d, last, <<>>)
            IN  IF ds = <<>> THEN Bad
                ELSE Sections(b, last + 1, end, [m EXCEPT !.seqs = Append(@, <<SubSeq(b, i + 5, d - 1), ds[1]>>)])

OpMsg(b, i, n) ==
  IF i + 3 > n THEN Bad
  ELSE LET crc == b[i] % 2 = 1
           To(end, odd) ==
             IF end < i + 4 THEN Bad
             ELSE Sections(b, i + 4, end, [k |-> "msg", doc |-> <<>>, seqs |-> <<>>, more |-> (b[i] \div 2) % 2 = 1,
                                            odd |-> odd \/ b[i] >= 4 \/ b[i + 1] # 0])
           m == To(IF crc THEN n - 4 ELSE n, FALSE)
       IN  \* a checksum is announced, and nobody looks at it: it may as well be missing
           IF crc /\ m = Bad THEN To(n, TRUE) ELSE m

OpCompressed(b, n) ==
  IF n < 25 THEN Bad
  ELSE IF I32(b, 17) # 2013 \/ b[25] # 0 \/ I32(b, 21) # n - 25 THEN Bad
  ELSE OpMsg(b, 26, n)

OpQuery(b, n) ==   \* the first messages of drivers
  IF n < 20 THEN Bad
  ELSE LET i == AfterZero(b, 21, n) IN
       IF i = 0 \/ i + 7 > n THEN Bad
       ELSE IF I32(b, i) # 0 \/ I32(b, i + 4) # -1 THEN Bad
       ELSE LET d == DocEnd(b, i + 8, n) IN
            IF d = 0 THEN Bad
            ELSE [k |-> "msg", doc |-> SubSeq(b, i + 8, d - 1), seqs |-> <<>>, more |-> FALSE, odd |-> d # n + 1]

Frame(b) ==
  IF Len(b) < 16 THEN Bad
  ELSE LET n == I32(b, 1)  op == I32(b, 13) IN
       IF n < 16 \/ n > MaxLength \/ n > Len(b) THEN Bad
       ELSE IF op = 2013 THEN OpMsg(b, 17, n)
       ELSE IF op = 2012 THEN OpCompressed(b, n)
       ELSE IF op = 2004 THEN OpQuery(b, n)
       ELSE Bad

-----------------------------------------------------------------------------
(* What is to happen with the bytes b, which came of those of the message b0:
     good     the command of b0 is carried out         more   but not answered
     bad      nothing, and the client is told so, or the connection is closed
     either   one of the two, either-more likewise     unsure another command *)
DocsOf(m) == <<m.doc>> \o (IF m.seqs = <<>> THEN <<>> ELSE m.seqs[1][2])
Judge(b, b0) ==
  LET m == Frame(b)  o == Frame(b0) IN
  IF m.k = "bad" THEN "bad"
  ELSE LET ds == DocsOf(m) IN
       IF \E i \in 1..Len(ds) : ~Sound(ds[i]) THEN "bad"
       ELSE IF m.doc # o.doc \/ m.seqs # o.seqs THEN "unsure"
       ELSE IF \E i \in 1..Len(ds) : ~Modest(ds[i]) THEN "either"
       ELSE IF m.odd THEN (IF m.more THEN "either-more" ELSE "either")
       ELSE IF m.more THEN "more" ELSE "good"
=============================================================================
