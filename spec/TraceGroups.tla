---------------------------- MODULE TraceGroups ----------------------------
(* Is a recorded history of real alias groups a behaviour of Groups?          *)
EXTENDS Groups, IOUtils
Trace == ndJsonDeserialize(IOEnv.CASES)
Obs(e) == [r \in Regs |-> {ToSet(x) : x \in ToSet(e.obs[r])}]
ResOf(e) == [tag |-> e.res.tag, val |-> ToSet(e.res.val)]
VARIABLE l
tvars == <<reg, act, l>>
Clause(e) ==
  LET q == Apply(reg, e.o) IN
  IF q.res # ResOf(e) THEN "result of the operation"
  ELSE IF q.st # Obs(e) THEN "groups after the operation"
  ELSE IF e.total # [r \in Regs |-> Cardinality(q.st[r])] THEN "number of groups"
  ELSE "ok"
TraceInit == Init /\ l = 1
TraceNext == /\ l <= Len(Trace)
             /\ LET e == Trace[l] IN
                  IF Clause(e) = "ok"
                  THEN reg' = Apply(reg, e.o).st /\ act' = [o |-> e.o, res |-> e.res] /\ l' = l + 1
                  ELSE /\ PrintT("@@" \o ToJson([at |-> l, clause |-> Clause(e),
                                  expected |-> Apply(reg, e.o), before |-> reg]))
                       /\ FALSE
TraceSpec == TraceInit /\ [][TraceNext]_tvars
Done == PrintT("@@" \o ToJson([done |-> TLCGet("stats").diameter - 1, len |-> Len(Trace)]))
=============================================================================
