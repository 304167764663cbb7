------------------------------ MODULE UnitCases ------------------------------
(* Judge recorded cases: {"a": expression, "b": expression} -> convertibility, *)
(* factor, dimensions and systems; {"q": [[name, n, d]...]} -> dimensions and  *)
(* factor of a composed quantity.                                              *)
EXTENDS Units, IOUtils
Cases == ndJsonDeserialize(IOEnv.CASES)
QFold(q, f(_)) == FoldSeq(LAMBDA t, acc : MMul(acc, MPow(f(t[1]), Rat(t[2], t[3]))), MOne, q)
Judge(c) ==
  IF "q" \in DOMAIN c
  THEN [mks |-> QFold(c.q, LAMBDA q : QDims(q, "mks", FALSE)),
        mksp |-> QFold(c.q, LAMBDA q : QDims(q, "mks", TRUE)),
        cgs |-> QFold(c.q, LAMBDA q : QDims(q, "cgs", FALSE)),
        factor |-> QFold(c.q, LAMBDA q : Quant[q].factor),
        known |-> \A i \in 1..Len(c.q) : Quant[c.q[i][1]].known]
  ELSE IF "b" \in DOMAIN c
  THEN [mixed |-> Allowed(c.a) = {},
        v |-> Verdict(c.a, c.b, FALSE), vp |-> Verdict(c.a, c.b, TRUE),
        f |-> Factor(c.a, c.b, FALSE), fp |-> Factor(c.a, c.b, TRUE)]
  ELSE [mks |-> Dims(c.a, "mks", FALSE), mksp |-> Dims(c.a, "mks", TRUE),
        cgs |-> Dims(c.a, "cgs", FALSE), sys |-> Allowed(c.a),
        smks |-> Size(c.a, "mks"), scgs |-> Size(c.a, "cgs")]
VARIABLE i
Init == i = 1
Next == i <= Len(Cases) /\ i' = i + 1
Emit == PrintT("@@" \o ToJson([i |-> i] @@ Judge(Cases[i])))
=============================================================================
