-------------------------------- MODULE Regex --------------------------------
(* A small regular expression language, a subset of the one the database
   accepts: literal bytes, ".", "*" after a single character, "^", "$", and the
   options.  Patterns with "(", "[" or a leading "*" count as malformed.     *)
EXTENDS Bson

RegexOptions == {105, 109, 115, 117, 85, 120}   \* i m s u U x
Has(o, c) == \E i \in 1..Len(o) : o[i] = c
RegexValid(re) ==
  LET p == re[2][1]  o == re[2][2] IN
  /\ ~\E i \in 1..Len(p) : p[i] \in {40, 91}
  /\ ~(Len(p) > 0 /\ p[1] = 42)
  /\ \A i \in 1..Len(o) : o[i] \in RegexOptions

Lower(c) == IF c >= 65 /\ c <= 90 THEN c + 32 ELSE c
ChEq(p, c, o) ==
  IF p = 46 THEN c # 10 \/ Has(o, 115)
  ELSE IF Has(o, 105) THEN Lower(p) = Lower(c) ELSE p = c

RECURSIVE MatchAt(_, _, _, _, _)
MatchAt(p, pi, t, ti, o) ==   \* the pattern from pi on matches a prefix of the text from ti on
  IF pi > Len(p) THEN TRUE
  ELSE IF Has(o, 120) /\ p[pi] = 32 THEN MatchAt(p, pi + 1, t, ti, o)
  ELSE IF p[pi] = 94 THEN (ti = 1 \/ (Has(o, 109) /\ t[ti - 1] = 10)) /\ MatchAt(p, pi + 1, t, ti, o)
  ELSE IF p[pi] = 36 THEN (ti = Len(t) + 1 \/ (Has(o, 109) /\ t[ti] = 10)) /\ MatchAt(p, pi + 1, t, ti, o)
  ELSE IF pi < Len(p) /\ p[pi + 1] = 42
       THEN \/ MatchAt(p, pi + 2, t, ti, o)
            \/ ti <= Len(t) /\ ChEq(p[pi], t[ti], o) /\ MatchAt(p, pi, t, ti + 1, o)
  ELSE ti <= Len(t) /\ ChEq(p[pi], t[ti], o) /\ MatchAt(p, pi + 1, t, ti + 1, o)

RegexText(re, t) == \E ti \in 1..Len(t) + 1 : MatchAt(re[2][1], 1, t, ti, re[2][2])

(* A value matches if it is a string that does, or an array with such a string. *)
RegexMatch(re, v) ==
  IF v[1] \in {"s", "sym"} THEN RegexText(re, v[2])
  ELSE IF Arr(v) THEN \E i \in 1..Len(v[2]) : v[2][i][1] \in {"s", "sym"} /\ RegexText(re, v[2][i][2])
  ELSE FALSE
=============================================================================
