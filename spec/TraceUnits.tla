----------------------------- MODULE TraceUnits -----------------------------
(* A recorded history of unit creations.  Each event has the expression e, its *)
(* words (the spelled factors) and the identity of the object returned.  One   *)
(* spelling set denotes one object for ever, whatever the order, grouping and  *)
(* notation; a single unit is one object under all of its names; and one       *)
(* object never stands for two units of different size or dimension.           *)
EXTENDS Units, IOUtils
Trace == ndJsonDeserialize(IOEnv.CASES)
Single(e) == Len(e) = 1 /\ e[1][3] = 1 /\ e[1][4] = 1
Key(ev) == IF Single(ev.e) THEN MGen(ev.e[1][1] \o "|" \o ev.e[1][2])
           ELSE FoldSeq(LAMBDA w, acc : MMul(acc, MPow(MGen(w[1]), Rat(w[2], w[3]))), MOne, ev.words)
Same(a, b) == LET v == Verdict(a, b, TRUE) IN v # "no" /\ (v = "yes" => Factor(a, b, TRUE) = MOne)
VARIABLES i, obj, den, ok
Init == i = 1 /\ obj = [k \in {} |-> 0] /\ den = [k \in {} |-> <<>>] /\ ok = TRUE
Good(ev) == LET k == Key(ev) IN
  /\ k \in DOMAIN obj => obj[k] = ev.id
  /\ ev.id \in DOMAIN den => Same(den[ev.id], ev.e)
Next == /\ ok /\ i <= Len(Trace)
        /\ LET ev == Trace[i] IN
           /\ ok' = Good(ev)
           /\ obj' = IF Key(ev) \in DOMAIN obj THEN obj ELSE (Key(ev) :> ev.id) @@ obj
           /\ den' = IF ev.id \in DOMAIN den THEN den ELSE (ev.id :> ev.e) @@ den
           /\ i' = i + 1
Emit == IF i > Len(Trace) \/ ~ok
        THEN PrintT("@@" \o ToJson([done |-> IF ok THEN i - 1 ELSE i - 2, len |-> Len(Trace)])) ELSE TRUE
=============================================================================
