---------------------------- MODULE TraceAliases ----------------------------
(* Is a recorded history of a real aliased mapping a behaviour of Aliases?    *)
EXTENDS Aliases, IOUtils

Trace == ndJsonDeserialize(IOEnv.CASES)
Obs(e) == [r \in Regs |-> {Entry(ToSet(x.names), x.val) : x \in ToSet(e.obs[r])}]

VARIABLE l
tvars == <<reg, act, l>>

Legal(e) == e.o.op # "merge" \/ Mergeable(reg[e.o.r], reg[e.o.s])
Clause(e) ==
  LET q == Apply(reg, e.o) IN
  IF q.res # e.res THEN "result of the operation"
  ELSE IF q.st # Obs(e) THEN "entries after the operation"
  ELSE "ok"

TraceInit == Init /\ l = 1
TraceNext == /\ l <= Len(Trace)
             /\ LET e == Trace[l] IN
                  IF Clause(e) = "ok"
                  THEN /\ reg' = Apply(reg, e.o).st
                       /\ act' = [o |-> e.o, res |-> e.res]
                       /\ l' = l + 1
                  ELSE /\ PrintT("@@" \o ToJson([at |-> l, clause |-> Clause(e),
                                  expected |-> Apply(reg, e.o), before |-> reg]))
                       /\ FALSE
TraceSpec == TraceInit /\ [][TraceNext]_tvars
Done == PrintT("@@" \o ToJson([done |-> TLCGet("stats").diameter - 1, len |-> Len(Trace)]))
=============================================================================
