------------------------------ MODULE Measuring ------------------------------
(* What it means to measure user input.  An input is a tree:                  *)
(*   [k |-> "num", v]        a number                                         *)
(*   [k |-> "unit", u]       text or an object that states a unit             *)
(*   [k |-> "none"]          anything that is neither number, unit nor        *)
(*                           collection                                       *)
(*   [k |-> "thing", vs, u]  an object that measures itself                   *)
(*   [k |-> "seq", s]        a collection                                     *)
(* Unit texts are given with their meaning: u is the class of equal units,     *)
(* "1" for a dimensionless number, "?" for an unknown name.                    *)
EXTENDS Integers, Sequences, TLC, Json, SequencesExt
One == "1"
Num(v) == [k |-> "num", v |-> v]
U(u) == [k |-> "unit", u |-> u]
Seq_(s) == [k |-> "seq", s |-> s]
RECURSIVE Bare(_)
Bare(t) == IF t.k = "seq" /\ Len(t.s) = 1 THEN Bare(t.s[1]) ELSE t

(* A reading is [w, ps]: w is "yes", "no" or "open"; ps are <<value, unit>>.   *)
No == [w |-> "no", ps |-> <<>>]
Some(p) == [w |-> "yes", ps |-> p]
Worst(a, b) == IF "no" \in {a, b} THEN "no" ELSE IF "open" \in {a, b} THEN "open" ELSE "yes"
With(vs, u) == [j \in 1..Len(vs) |-> <<vs[j], u>>]
AllNums(s) == \A j \in 1..Len(s) : s[j].k = "num"
Nums(s) == [j \in 1..Len(s) |-> s[j].v]
(* the numbers of a collection given one unit as a whole *)
RECURSIVE Flat(_)
Flat(t) == CASE t.k = "num" -> <<t.v>>
             [] t.k = "seq" -> FoldLeft(LAMBDA acc, x : acc \o Flat(x), <<>>, t.s)
             [] OTHER -> <<>>
RECURSIVE OnlyNums(_)
OnlyNums(t) == CASE t.k = "num" -> TRUE
                 [] t.k = "seq" -> Len(t.s) > 0 /\ \A j \in 1..Len(t.s) : OnlyNums(t.s[j])
                 [] OTHER -> FALSE

RECURSIVE Read(_)
Read(t0) == LET t == Bare(t0) IN
  CASE t.k = "num" -> Some(<<<<t.v, One>>>>)
    [] t.k = "unit" -> No
    [] t.k = "none" -> No
    [] t.k = "thing" -> Some(With(t.vs, t.u))
    [] t.k = "seq" /\ t.s = <<>> -> No
    [] OTHER ->
       LET n == Len(t.s)
           units == {j \in 1..n : t.s[j].k = "unit"}
           last == t.s[n]
           before == SubSeq(t.s, 1, n - 1)
       IN IF units = {} THEN
            FoldLeft(LAMBDA acc, x : LET r == Read(x) IN [w |-> Worst(acc.w, r.w), ps |-> acc.ps \o r.ps],
                     [w |-> "yes", ps |-> <<>>], t.s)
          ELSE IF units # {n} \/ last.u = "?" THEN No
          ELSE IF AllNums(before) THEN Some(With(Nums(before), last.u))
          ELSE IF Len(before) = 1 /\ before[1].k = "seq" /\ before[1].s # <<>> /\ AllNums(before[1].s)
               THEN Some(With(Nums(before[1].s), last.u))
          (* only numbers, nested more deeply: either refused or read in full *)
          ELSE IF OnlyNums(Seq_(before)) THEN [w |-> "open", ps |-> With(Flat(Seq_(before)), last.u)]
          ELSE No

(* Measuring demands one common unit.  The unit of several given pairs.        *)
Measured(t) == LET r == Read(t) IN
  IF r.w = "no" THEN [w |-> "no", vs |-> <<>>, u |-> One]
  ELSE IF \E j \in 1..Len(r.ps) : r.ps[j][2] # r.ps[1][2] THEN [w |-> "no", vs |-> <<>>, u |-> One]
  ELSE [w |-> r.w, vs |-> [j \in 1..Len(r.ps) |-> r.ps[j][1]], u |-> r.ps[1][2]]
=============================================================================
