---------------------------- MODULE ObserveModel ----------------------------
(* Every combination of constraints on a small dataset, for the quantities of  *)
(* one group; the laws of observing are checked on each.                       *)
EXTENDS Observe
CONSTANTS Group, Rich
MD == [N |-> [time |-> 3, shell |-> 3, species |-> 2, energy |-> 4, mu |-> 3],
       time |-> <<10, 25, 60>>, mu |-> <<-800, 100, 950>>,
       energy |-> <<<<30, 100, 400, 900>>, <<50, 220, 430, 1200>>>>,
       radius |-> <<<<100, 300, 700>>, <<120, 310, 650>>, <<90, 280, 800>>>>]
All == [k |-> "all"]
AtP(s) == [k |-> "at", at |-> s]
ValT(s) == [k |-> "val", ts |-> s]
Options(a) ==
  CASE a = "time" -> {All, AtP(<<2, 0>>), ValT(<<25>>), ValT(<<40, 15>>)} \cup (IF Rich THEN {AtP(<<-1>>), AtP(<<1, 1, 0>>), ValT(<<60>>), ValT(<<10>>)} ELSE {})
    [] a = "shell" -> {All, AtP(<<2, 0>>)} \cup (IF Rich THEN {AtP(<<1>>), AtP(<<-1>>)} ELSE {})
    [] a = "radius" -> {All, ValT(<<200>>)} \cup (IF Rich THEN {ValT(<<300>>), ValT(<<640>>)} ELSE {})
    [] a = "species" -> {All, AtP(<<1>>), AtP(<<1, 0>>)} \cup (IF Rich THEN {AtP(<<0>>)} ELSE {})
    [] a = "energy" -> {All, AtP(<<1>>), ValT(<<100>>), ValT(<<350, 110>>)} \cup (IF Rich THEN {AtP(<<-1, 0>>), ValT(<<430>>), ValT(<<860, 60, 61>>)} ELSE {})
    [] a = "mu" -> {All, AtP(<<2>>), ValT(<<100>>), ValT(<<-300, 500>>)} \cup (IF Rich THEN {AtP(<<-1, 0>>), ValT(<<950>>)} ELSE {})
W1(q) == <<[q |-> q, e |-> ROne]>>
W2(q, e, s, f) == <<[q |-> q, e |-> e], [q |-> s, e |-> f]>>
Asked ==
  CASE Group = "stored" -> {W1(q) : q \in Stored}
    [] Group = "derived" -> {W1(q) : q \in DOMAIN Derived}
    [] Group = "composed" ->
         {<<[q |-> q, e |-> e]>> : q \in (IF Rich THEN {"Vr", "mfp", "egrid"} ELSE {"Vr", "egrid"}), e \in {RInt(2), RInt(-1), Rat(1, 2), Rat(-3, 2)}}
         \cup {W2(q, e, s, f) : q \in {"Vr", "egrid", "flux", "time"}, s \in (IF Rich THEN {"Rho", "mfp", "mu", "vgrid"} ELSE {"Rho", "mu"}), e \in (IF Rich THEN {ROne, RInt(2)} ELSE {ROne}), f \in {ROne, RInt(-1)}}
         \cup {<<[q |-> "Dist", e |-> ROne], [q |-> "Vr", e |-> RInt(-2)], [q |-> "egrid", e |-> Rat(1, 2)]>>,
               <<[q |-> "fluence", e |-> ROne], [q |-> "Vt", e |-> ROne]>>,
               <<[q |-> "intflux", e |-> RInt(2)], [q |-> "R", e |-> ROne]>>,
               <<[q |-> "Vr", e |-> ROne], [q |-> "Vt", e |-> ROne], [q |-> "Vp", e |-> RInt(-2)]>>}
Minimum(w) == IF \E i \in DOMAIN w : w[i].q = "intflux" THEN {0, 40, 230, 500} ELSE {0}
(* axes that a quantity does not have are constrained too: without effect *)
Choice(w, a) == IF a \in UNION {AxisSet(w[i].q) : i \in DOMAIN w} THEN Options(a)
                ELSE IF a = "mu" THEN {AtP(<<0>>)} ELSE IF a = "time" THEN {AtP(<<1>>)} ELSE {All}
VARIABLES w, r
None == [k |-> "none"]
Init == w \in Asked /\ r = None
Next ==
  /\ r = None
  /\ w' = w
  /\ \E t \in Choice(w, "time"), s \in Choice(w, "shell"), p \in Choice(w, "species"), e \in Choice(w, "energy"),
        m \in Choice(w, "mu"), x \in Options("radius"), k \in Minimum(w) :
       /\ s.k = "all" \/ x.k = "all"
       /\ r' = [what |-> w, time |-> t, shell |-> s, species |-> p, energy |-> e, mu |-> m, radius |-> x, m |-> k]
Corner(n) == [a \in {"time", "shell", "species", "energy", "mu", "minimum energy"} |-> n]
Emit == PrintT("@@" \o ToJson([r |-> r'] @@ Observation(MD, r', <<Corner(0), Corner(1), Corner(2), [Corner(1) EXCEPT !.time = 0, !.energy = 2], [Corner(0) EXCEPT !.shell = 2, !.species = 1, !.mu = 1]>>)))

(* ---- laws ---- *)
Total(s) == LET f[i \in 0..Len(s)] == IF i = 0 THEN RZero ELSE RAdd(f[i - 1], s[i][1]) IN f[Len(s)]
Mean(s, g) == LET f[i \in 0..Len(s)] == IF i = 0 THEN RZero ELSE RAdd(f[i - 1], RMul(s[i][1], RInt(g[s[i][2]]))) IN f[Len(s)]
ObserveLaws == r # None /\ Judged(MD, r) =>
  \A a \in RAxes(r) \ {"minimum energy"}, p \in 1..MD.N.species, t \in 1..MD.N.time :
    /\ Extent(MD, r, a) >= 1
    /\ \A k \in 1..Extent(MD, r, a) : LET s == Spread(MD, r, a, k, p, t) IN
         /\ Total(s) = ROne                                        \* weights add up to one
         /\ \A i \in DOMAIN s : s[i][2] \in 1..MD.N[a] /\ RLeq(RZero, s[i][1])
         (* interpolating a coordinate gives the target *)
         /\ Con5(r, a).k = "val" /\ ~IsCoordinate(r) => Mean(s, Grid(MD, a, p)) = RInt(Con5(r, a).ts[k])
         /\ a = "shell" /\ Radial(r) => Mean(s, MD.radius[t]) = RInt(r.radius.ts[1])
         (* an unconstrained axis is observed in full and in order *)
         /\ Con5(r, a).k = "all" /\ ~(a = "shell" /\ Radial(r)) => s = Whole(k) /\ Extent(MD, r, a) = MD.N[a]
Statics ==
  /\ \A q \in DOMAIN Derived : /\ Derived[q].inputs \subseteq Names
                               /\ Derived[q].removed \cap AxisSet(q) = {} /\ Derived[q].added \subseteq AxisSet(q)
  /\ AxisSet("intflux") = {"time", "shell", "species", "minimum energy"}
  /\ AxisSet("rate") = AxisSet("mfp")
  /\ Params("rate") = Params("mfp") \cup {"kper_kpar"}
=============================================================================
