----------------------------- MODULE CoordTable -----------------------------
(* Every point with a radius in Radii and directions built from Triples.     *)
EXTENDS Coordinates
CONSTANT Size
AllTriples == <<<<3, 4, 5>>, <<5, 12, 13>>, <<8, 15, 17>>, <<7, 24, 25>>, <<20, 21, 29>>, <<9, 40, 41>>, <<12, 35, 37>>, <<11, 60, 61>>>>
Triples == {AllTriples[i] : i \in 1..Size}
Radii == {RZero} \cup {Rat(i, j) : i \in {1, 3, 7}, j \in {1, 2}}
Signs == {-1, 1}
Circle ==
  {<<RInt(i), RZero>> : i \in Signs} \cup {<<RZero, RInt(i)>> : i \in Signs}
  \cup UNION {{<<Rat(i * t[1], t[3]), Rat(j * t[2], t[3])>>, <<Rat(i * t[2], t[3]), Rat(j * t[1], t[3])>>}
              : i \in Signs, j \in Signs, t \in Triples}
VARIABLE p
Init == \E r \in Radii, t \in {a \in Circle : IsPolar(a)}, f \in Circle : p = <<r, t, f>>
Next == FALSE /\ UNCHANGED p
Inv == Laws(p) /\ Scaling(p, RInt(10)) /\ PrintT("@@" \o ToJson(Answer(p)))
=============================================================================
