----------------------------- MODULE ConfigModel -----------------------------
(* Two configuration files being written line by line from a menu of lines,    *)
(* with what reading each gives and how they compare.                          *)
EXTENDS ConfigText
CONSTANT MaxLines
Marks == {"#"}
Menu == << <<"a", "=", "1">>, <<" ", "a", " ", "=", " ", "2", " ">>,
           <<"b", "=", "1", "#", "a", "=", "3">>, <<"#", "b", "=", "2">>,
           <<" ", "#", "a">>, <<>>, <<"b", "=">>, <<"c", "=", "1", "=", "2">> >>
Said == [j \in 1..Len(Menu) |-> Says(Menu[j], Marks)]
VARIABLES left, right, L, R        \* lines written (menu numbers) and meanings
vars == <<left, right, L, R>>
Start == [st |-> "ok", map |-> Nothing]
Init == left = <<>> /\ right = <<>> /\ L = Start /\ R = Start
Next ==
  \/ /\ Len(left) < MaxLines
     /\ \E j \in 1..Len(Menu) : left' = Append(left, j) /\ L' = Step(L, Said[j])
     /\ UNCHANGED <<right, R>>
  \/ /\ Len(right) < MaxLines
     /\ \E j \in 1..Len(Menu) : right' = Append(right, j) /\ R' = Step(R, Said[j])
     /\ UNCHANGED <<left, L>>
Whole(seq) == Read([k \in 1..Len(seq) |-> Menu[seq[k]]], Marks)
Inv ==
  /\ L = Whole(left) /\ R = Whole(right)       \* reading line by line or at once
  /\ FileLaws(L.map, R.map)
  /\ PrintT("@@" \o ToJson([left |-> left, right |-> right, L |-> Pairs(L.map), R |-> Pairs(R.map)]
                           @@ ShowCompare(L.map, R.map)))
ASSUME PrintT("@@" \o ToJson([menu |-> [j \in 1..Len(Menu) |-> Text(Menu[j])]]))
=============================================================================
