------------------------------ MODULE Spelling ------------------------------
(* Names are sequences of characters (small integers).  A vocabulary V grows; *)
(* checking a name answers with its suggestions and changes nothing.           *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json
Chars(w) == {w[i] : i \in 1..Len(w)}
Take(w, n) == SubSeq(w, 1, n)
Drop(w, n) == SubSeq(w, n + 1, Len(w))
Deletes(w)  == {Take(w, i - 1) \o Drop(w, i) : i \in 1..Len(w)}
Swaps(w)    == {[w EXCEPT ![i] = w[i + 1], ![i + 1] = w[i]] : i \in 1..(Len(w) - 1)}
Replaces(w, A) == {[w EXCEPT ![i] = a] : i \in 1..Len(w), a \in A}
Inserts(w, A)  == {Take(w, i) \o <<a>> \o Drop(w, i) : i \in 0..Len(w), a \in A}
Edits(w, A) == Deletes(w) \cup Swaps(w) \cup Replaces(w, A) \cup Inserts(w, A)
(* edits are symmetric, so two edits apart means: a common neighbour *)
Near(w, v) == v \in Edits(w, Chars(v))
Close(w, v) == LET A == Chars(w) \cup Chars(v)
               IN IF Len(w) - Len(v) \in -2..2 THEN Edits(w, A) \cap Edits(v, A) # {} ELSE FALSE
Suggest(V, w) ==
  IF w \in V THEN {}
  ELSE LET one == {v \in V : Near(w, v)}
       IN IF one # {} THEN one ELSE {v \in V : Close(w, v)}
=============================================================================
