----------------------------- MODULE MCLineDiff -----------------------------
(* Every pair of texts of up to MaxLen lines over Alphabet: the script which the
   algorithm computes runs to its end, and is minimal.                        *)
EXTENDS LineDiff
CONSTANTS MaxLen, Alphabet
Texts == UNION {[1..n -> Alphabet] : n \in 1..MaxLen}
Init == /\ a \in Texts /\ b \in Texts
        /\ hunks = Algorithm(a, b)
        /\ i = 0 /\ j = 0 /\ cost = 0
Spec == Init /\ [][Next]_vars
NeverStuck == ~ENABLED Next => Correct
Deterministic == ~(ENABLED Keep /\ ENABLED Apply)
=============================================================================
