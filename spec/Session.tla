------------------------------ MODULE Session ------------------------------
(* Two observers in one process.  An observation is determined by the data,    *)
(* configuration and metric system of its observer and by its own request; it  *)
(* changes nothing.  `last` remembers the previous action only so that every    *)
(* pair of consecutive actions is a separate transition.                        *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json
CONSTANT K
Obs == 1..2
Data == {"A", "B"}
Confs == {"a", "b"}
Systems == {"mks", "cgs"}
VARIABLES obs, last, act
vars == <<obs, last, act>>
Nothing == [o |-> [op |-> "none"], res |-> [k |-> 0]]
Init == /\ obs = [i \in Obs |-> [data |-> "A", conf |-> "a", sys |-> IF i = 1 THEN "mks" ELSE "cgs"]]
        /\ last = 0 /\ act = Nothing
Expect(i, k) == obs[i] @@ [k |-> k]
Observe(i, k) == /\ UNCHANGED obs /\ last' = k
                 /\ act' = [o |-> [op |-> "observe", i |-> i, k |-> k], res |-> Expect(i, k)]
Replace(i, n, op) == /\ obs' = [obs EXCEPT ![i] = n]
                     /\ last' = 0
                     /\ act' = [o |-> [op |-> op, i |-> i, data |-> n.data, conf |-> n.conf, sys |-> n.sys], res |-> [k |-> 0]]
Look(i) == /\ UNCHANGED obs /\ last' = K + 1 /\ act' = [o |-> [op |-> "look", i |-> i], res |-> [k |-> 0]]
Next ==
  \E i \in Obs :
    \/ \E k \in 1..K : Observe(i, k)
    \/ Look(i)
    \/ \E d \in Data \ {obs[i].data} : Replace(i, [obs[i] EXCEPT !.data = d], "source")
    \/ \E c \in Confs \ {obs[i].conf} : Replace(i, [obs[i] EXCEPT !.conf = c], "config")
    \/ \E d \in Data \ {obs[i].data}, c \in Confs \ {obs[i].conf} : Replace(i, [obs[i] EXCEPT !.data = d, !.conf = c], "both")
    \/ \E s \in Systems \ {obs[i].sys} : Replace(i, [obs[i] EXCEPT !.sys = s], "new")
Spec == Init /\ [][Next]_vars
View == <<obs, last>>
TypeOK == obs \in [Obs -> [data : Data, conf : Confs, sys : Systems]]
(* observing and looking change nothing; only the named observer changes *)
Frame == [][/\ act'.o.op \in {"observe", "look"} => obs' = obs
            /\ \A j \in Obs : act'.o.op # "none" /\ act'.o.i # j => obs'[j] = obs[j]
            /\ act'.o.op = "observe" => act'.res = obs[act'.o.i] @@ [k |-> act'.o.k]]_vars
Emit == PrintT("@@" \o ToJson([s |-> [obs |-> obs, last |-> last], a |-> act', t |-> [obs |-> obs', last |-> last']]))
=============================================================================
