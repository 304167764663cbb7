------------------------------ MODULE Algebra ------------------------------
(* Programs of products, quotients and powers over registers that hold        *)
(* symbolic expressions.  An expression is the monomial it denotes; nothing   *)
(* else about it matters, and no operation changes its operands.              *)
EXTENDS Monomials, Sequences, Json

CONSTANTS Regs, Consts, Pows, MaxExp, MaxDen, Target

P(p, n, d) == p :> Rat(n, d)
K == [k \in {"a", "b", "2a", "1/3b^2", "6", "a/b", "1", "5/14", "a^-1/2 b"} |->
  CASE k = "a" -> MGen("a") [] k = "b" -> MGen("b")
    [] k = "2a" -> MMul(MGen("2"), MGen("a"))
    [] k = "1/3b^2" -> MMul(P("3", -1, 1), P("b", 2, 1))
    [] k = "6" -> MMul(MGen("2"), MGen("3"))
    [] k = "a/b" -> MDiv(MGen("a"), MGen("b"))
    [] k = "1" -> MOne
    [] k = "5/14" -> MDiv(MGen("5"), MMul(MGen("2"), MGen("7")))
    [] k = "a^-1/2 b" -> MMul(P("a", -1, 2), MGen("b"))]
PV == [p \in {"2", "3", "-1", "-2", "1/2", "-1/2", "1/3", "1", "3/2", "3/16", "-5/64", "1/12", "7"} |->
  CASE p = "2" -> RInt(2) [] p = "3" -> RInt(3) [] p = "-1" -> RInt(-1) [] p = "-2" -> RInt(-2)
    [] p = "1/2" -> Rat(1, 2) [] p = "-1/2" -> Rat(-1, 2) [] p = "1/3" -> Rat(1, 3)
    [] p = "1" -> ROne [] p = "3/2" -> Rat(3, 2)
    [] p = "3/16" -> Rat(3, 16) [] p = "-5/64" -> Rat(-5, 64) [] p = "1/12" -> Rat(1, 12) [] p = "7" -> RInt(7)]

Value(reg, o) ==
  CASE o.op = "load" -> K[o.k]
    [] o.op = "mul"  -> MMul(reg[o.r], reg[o.s])
    [] o.op = "div"  -> MDiv(reg[o.r], reg[o.s])
    [] o.op = "pow"  -> MPow(reg[o.r], PV[o.p])
    [] o.op = "mulk" -> MMul(reg[o.r], K[o.k])
    [] o.op = "kmul" -> MMul(K[o.k], reg[o.r])
    [] o.op = "divk" -> MDiv(reg[o.r], K[o.k])
    [] o.op = "kdiv" -> MDiv(K[o.k], reg[o.r])
Apply(reg, o) ==
  IF o.op = "eq" THEN [st |-> reg, res |-> [tag |-> "ok", val |-> reg[o.r] = reg[o.s]]]
  ELSE [st |-> [reg EXCEPT ![o.t] = Value(reg, o)], res |-> [tag |-> "ok", val |-> FALSE]]

Small(m) == \A g \in DOMAIN m : Abs(m[g][1]) <= MaxExp * m[g][2] /\ m[g][2] <= MaxDen

Ops(reg) ==
  UNION {
    {[op |-> "load", k |-> k, t |-> t] : k \in Consts}
    \cup {[op |-> o, r |-> r, s |-> s, t |-> t] : o \in {"mul", "div"}, r, s \in Regs}
    \cup {[op |-> "pow", r |-> r, p |-> p, t |-> t] : r \in Regs, p \in Pows}
    \cup {[op |-> o, r |-> r, k |-> k, t |-> t] : o \in {"mulk", "kmul", "divk", "kdiv"}, r \in Regs, k \in Consts}
    : t \in Target}
  \cup {[op |-> "eq", r |-> r, s |-> s] : r, s \in Regs}

VARIABLES reg, act
vars == <<reg, act>>
Init == reg = [r \in Regs |-> MOne] /\ act = [op |-> "init"]
Next == \E o \in Ops(reg) : LET q == Apply(reg, o) IN
          /\ \A r \in Regs : Small(q.st[r])
          /\ reg' = q.st /\ act' = [o |-> o, res |-> q.res]
Spec == Init /\ [][Next]_vars

(* the laws the registers must obey *)
Laws == \A r, s \in Regs :
  /\ MMul(reg[r], reg[s]) = MMul(reg[s], reg[r])
  /\ MDiv(MMul(reg[r], reg[s]), reg[s]) = reg[r]
  /\ MInv(MInv(reg[r])) = reg[r]
  /\ MPow(MMul(reg[r], reg[s]), RInt(2)) = MMul(MPow(reg[r], RInt(2)), MPow(reg[s], RInt(2)))
  /\ MPow(MPow(reg[r], Rat(1, 2)), RInt(2)) = reg[r]
View == reg
Emit == PrintT("@@" \o ToJson([s |-> reg, a |-> act', t |-> reg']))
=============================================================================
