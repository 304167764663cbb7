----------------------------- MODULE SpellModel -----------------------------
(* Histories over every word of at most N letters out of A.                    *)
EXTENDS Spelling
CONSTANTS N, A, Size
VARIABLES V, act
vars == <<V, act>>
Words == UNION {[1..n -> 1..A] : n \in 0..N}
Init == V = {} /\ act = [o |-> "start"]
Add(w) == w \notin V /\ w # <<>> /\ Cardinality(V) < Size /\ V' = V \cup {w} /\ act' = [o |-> "add", w |-> w]
Look(w) == V # {} /\ V' = V /\ act' = [o |-> "check", w |-> w, res |-> Suggest(V, w)]
Next == \E w \in Words : Add(w) \/ Look(w)
View == V
(* no suggestion for a known name; suggestions are known; one edit wins *)
Sound == \A w \in Words : LET s == Suggest(V, w) IN
  /\ s \subseteq V
  /\ w \in V => s = {}
  /\ (\E v \in s : Near(w, v)) => \A v \in s : Near(w, v)
  /\ \A v \in V : Near(w, v) <=> Near(v, w)
Emit == PrintT("@@" \o ToJson([s |-> V, a |-> act', t |-> V']))
=============================================================================
