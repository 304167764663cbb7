---------------------------- MODULE TraceAlgebra ----------------------------
(* Is a recorded program over real expressions a behaviour of Algebra?        *)
EXTENDS Algebra, SequencesExt, IOUtils
Trace == ndJsonDeserialize(IOEnv.CASES)
MOf(s) == MClean([g \in {s[i][1] : i \in DOMAIN s} |->
             LET i == CHOOSE i \in DOMAIN s : s[i][1] = g IN <<s[i][2], s[i][3]>>])
Obs(e) == [r \in Regs |-> MOf(e.obs[r])]
VARIABLE l
tvars == <<reg, act, l>>
Clause(e) ==
  LET q == Apply(reg, e.o) IN
  IF q.res # e.res THEN "result of the operation"
  ELSE IF q.st # Obs(e) THEN "expressions after the operation"
  ELSE "ok"
TraceInit == Init /\ l = 1
TraceNext == /\ l <= Len(Trace)
             /\ LET e == Trace[l] IN
                  IF Clause(e) = "ok"
                  THEN reg' = Apply(reg, e.o).st /\ act' = [o |-> e.o, res |-> e.res] /\ l' = l + 1
                  ELSE /\ PrintT("@@" \o ToJson([at |-> l, clause |-> Clause(e),
                                  expected |-> Apply(reg, e.o), before |-> reg]))
                       /\ FALSE
TraceSpec == TraceInit /\ [][TraceNext]_tvars
Done == PrintT("@@" \o ToJson([done |-> TLCGet("stats").diameter - 1, len |-> Len(Trace)]))
=============================================================================
