------------------------------ MODULE Formulas ------------------------------
(* The quantities that a simulation stores, the quantities derived from them,  *)
(* their axes, parameters and dimensions, and the defining formula of each     *)
(* derived quantity as a term over stored values, parameters and constants at  *)
(* a grid position.  Positions p and sizes N are records over the five axes;   *)
(* positions count from 1.  Everything is in SI units.                         *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json
AllAxes == <<"time", "shell", "species", "energy", "mu", "minimum energy">>
TS   == <<"time", "shell">>
SE   == <<"species", "energy">>
StoredAxes ==
  [time |-> <<"time">>, shell |-> <<"shell">>, mu |-> <<"mu">>, mass |-> <<"species">>, charge |-> <<"species">>,
   egrid |-> SE, vgrid |-> SE, R |-> TS, T |-> TS, P |-> TS, Br |-> TS, Bt |-> TS, Bp |-> TS,
   Vr |-> TS, Vt |-> TS, Vp |-> TS, Rho |-> TS, Dist |-> <<"time", "shell", "species", "energy", "mu">>]
Stored  == DOMAIN StoredAxes
(* coordinates are observed at the nearest grid point, not interpolated *)
Coordinates == {"time", "shell", "mu", "egrid", "R", "T", "P"}

Range(s) == {s[i] : i \in DOMAIN s}
Bs == <<"Br", "Bt", "Bp">>
Vs == <<"Vr", "Vt", "Vp">>
Plain(in) == [inputs |-> in, params |-> {}, removed |-> {}, added |-> {}]
Derived ==
  [x |-> Plain({"R", "T", "P"}), y |-> Plain({"R", "T", "P"}), z |-> Plain({"R", "T"}),
   bmag |-> Plain(Range(Bs)), vmag |-> Plain(Range(Vs)), bv |-> Plain(Range(Bs) \cup Range(Vs)),
   angle |-> Plain(Range(Bs) \cup Range(Vs)), vpara |-> Plain(Range(Bs) \cup Range(Vs)), vperp |-> Plain(Range(Bs) \cup Range(Vs)),
   divv |-> Plain({"Rho", "time"}), ratio |-> Plain({"Rho"}),
   rigidity |-> Plain({"egrid", "mass", "charge"}),
   mfp |-> [inputs |-> {"R", "egrid", "mass", "charge"}, params |-> {"mfp_radial_power", "rigidity_power", "lambda0"}, removed |-> {}, added |-> {}],
   rate |-> [inputs |-> Range(Vs) \cup {"vgrid", "angle", "mfp"}, params |-> {"kper_kpar"}, removed |-> {}, added |-> {}],
   edensity |-> [inputs |-> {"vgrid", "isodist"}, params |-> {}, removed |-> {"energy"}, added |-> {}],
   eaverage |-> [inputs |-> {"vgrid", "isodist"}, params |-> {}, removed |-> {"energy"}, added |-> {}],
   isodist |-> [inputs |-> {"Dist"}, params |-> {}, removed |-> {"mu"}, added |-> {}],
   flux |-> Plain({"egrid", "isodist"}),
   fluence |-> [inputs |-> {"flux", "time"}, params |-> {}, removed |-> {"time"}, added |-> {}],
   intflux |-> [inputs |-> {"egrid", "flux"}, params |-> {"minimum_energy"}, removed |-> {"energy"}, added |-> {"minimum energy"}]]
Names == Stored \cup DOMAIN Derived

(* the axes of a quantity: those of its inputs, less those it integrates over, *)
(* plus those it adds, in the dataset's order                                  *)
RECURSIVE AxisSet(_)
AxisSet(q) == IF q \in Stored THEN Range(StoredAxes[q])
              ELSE ((UNION {AxisSet(i) : i \in Derived[q].inputs}) \ Derived[q].removed) \cup Derived[q].added
Ordered(S) == SelectSeq(AllAxes, LAMBDA a : a \in S)
RECURSIVE Params(_)
Params(q) == IF q \in Stored THEN {} ELSE Derived[q].params \cup UNION {Params(i) : i \in Derived[q].inputs}

(* dimensions: exponents of length, mass, time, charge, angle, solid angle *)
D(l, m, t, q, r, s) == [l |-> l, m |-> m, t |-> t, q |-> q, r |-> r, s |-> s]
Dims(n) ==
  CASE n \in {"shell", "mu", "ratio"} -> D(0, 0, 0, 0, 0, 0)
    [] n = "time" -> D(0, 0, 1, 0, 0, 0)
    [] n = "mass" -> D(0, 1, 0, 0, 0, 0)
    [] n = "charge" -> D(0, 0, 0, 1, 0, 0)
    [] n \in {"egrid", "eaverage"} -> D(2, 1, -2, 0, 0, 0)
    [] n \in {"vgrid", "Vr", "Vt", "Vp", "vmag", "vpara", "vperp"} -> D(1, 0, -1, 0, 0, 0)
    [] n \in {"R", "x", "y", "z", "mfp"} -> D(1, 0, 0, 0, 0, 0)
    [] n \in {"T", "P", "angle"} -> D(0, 0, 0, 0, 1, 0)
    [] n \in {"Br", "Bt", "Bp", "bmag"} -> D(0, 1, -1, -1, 0, 0)
    [] n = "bv" -> D(1, 1, -2, -1, 0, 0)
    [] n = "Rho" -> D(-3, 0, 0, 0, 0, 0)
    [] n \in {"Dist", "isodist"} -> D(-6, 0, 3, 0, 0, 0)
    [] n \in {"divv", "rate"} -> D(0, 0, -1, 0, 0, 0)
    [] n = "rigidity" -> D(1, 1, -1, -1, 0, 0)
    [] n = "edensity" -> D(-1, 1, -2, 0, 0, 0)
    [] n = "flux" -> D(-4, -1, 1, 0, 0, -1)
    [] n = "fluence" -> D(-4, -1, 2, 0, 0, -1)
    [] n = "intflux" -> D(-2, 0, -1, 0, 0, -1)

(* ---- terms ---- *)
Num(n, d) == <<"n", n, d>>
Par(n)    == <<"p", n>>
Con(n)    == <<"k", n>>
Sum(s)    == <<"+", s>>
Prod(s)   == <<"*", s>>
Quo(a, b) == <<"/", a, b>>
Pow(a, b) == <<"^", a, b>>
Fn(f, a)  == <<"f", f, a>>
One       == Num(1, 1)
Two       == Num(2, 1)
Neg(a)    == Prod(<<Num(-1, 1), a>>)
Sub(a, b) == Sum(<<a, Neg(b)>>)
Sq(a)     == Pow(a, Two)
Atom(q, p) == <<"a", q, [k \in 1..Len(StoredAxes[q]) |-> p[StoredAxes[q][k]]]>>
Move(p, axis, i) == [p EXCEPT ![axis] = i]
(* sums over an axis *)
Over(n, F(_)) == Sum([i \in 1..n |-> F(i)])
Dot(a, b, p, q) == Sum([k \in 1..3 |-> Prod(<<Atom(a[k], p), Atom(b[k], q)>>)])
Mag(a, p) == Fn("sqrt", Dot(a, a, p, p))

(* three-point derivative of F with respect to X at i of 1..n *)
Slope(F(_), X(_), i, n) ==
  IF i = 1 THEN Quo(Sub(F(2), F(1)), Sub(X(2), X(1)))
  ELSE IF i = n THEN Quo(Sub(F(n), F(n - 1)), Sub(X(n), X(n - 1)))
  ELSE LET h == Sub(X(i), X(i - 1)) k == Sub(X(i + 1), X(i))
       IN Quo(Sum(<<Prod(<<Sq(h), F(i + 1)>>), Prod(<<Sub(Sq(k), Sq(h)), F(i)>>), Neg(Prod(<<Sq(k), F(i - 1)>>))>>),
              Prod(<<h, k, Sum(<<h, k>>)>>))
Width(F(_), i, n) ==
  IF i = 1 THEN Sub(F(2), F(1)) ELSE IF i = n THEN Sub(F(n), F(n - 1)) ELSE Quo(Sub(F(i + 1), F(i - 1)), Two)

(* Simpson's rule on an arbitrary grid of positions lo..hi; with an odd number *)
(* of intervals, the average over leaving the first and the last interval to   *)
(* the trapezoid rule                                                          *)
Parabola(F(_), X(_), i) ==
  LET h == Sub(X(i + 1), X(i)) k == Sub(X(i + 2), X(i + 1)) w == Sum(<<h, k>>)
  IN Prod(<<Quo(w, Num(6, 1)),
            Sum(<<Prod(<<F(i), Sub(Two, Quo(k, h))>>), Prod(<<F(i + 1), Quo(Sq(w), Prod(<<h, k>>))>>), Prod(<<F(i + 2), Sub(Two, Quo(h, k))>>)>>)>>)
Trapezoid(F(_), X(_), i) == Prod(<<Num(1, 2), Sub(X(i + 1), X(i)), Sum(<<F(i), F(i + 1)>>)>>)
Parabolas(F(_), X(_), lo, hi) == Sum([j \in 1..((hi - lo) \div 2) |-> Parabola(F, X, lo + 2 * (j - 1))])
Simpson(F(_), X(_), lo, hi) ==
  IF (hi - lo) % 2 = 0 THEN Parabolas(F, X, lo, hi)
  ELSE Prod(<<Num(1, 2), Sum(<<Parabolas(F, X, lo, hi - 1), Trapezoid(F, X, hi - 1), Trapezoid(F, X, lo), Parabolas(F, X, lo + 1, hi)>>)>>)

(* the formula of quantity q at position p; N: sizes; low: for each species,    *)
(* the number of grid energies not above the minimum energy                    *)
RECURSIVE Term(_, _, _, _)
Term(q, p, N, low) ==
  IF q \in Stored THEN Atom(q, p)
  ELSE LET T(n) == Term(n, p, N, low)
           TA(n, axis, i) == Term(n, Move(p, axis, i), N, low)
           ahead == Move(p, "shell", IF p.shell = N.shell THEN N.shell ELSE p.shell + 1)
           behind == Move(p, "shell", IF p.shell = 1 THEN 1 ELSE p.shell - 1)
  IN CASE q = "x" -> Prod(<<T("R"), Fn("sin", T("T")), Fn("cos", T("P"))>>)
       [] q = "y" -> Prod(<<T("R"), Fn("sin", T("T")), Fn("sin", T("P"))>>)
       [] q = "z" -> Prod(<<T("R"), Fn("cos", T("T"))>>)
       [] q = "bmag" -> Mag(Bs, p)
       [] q = "vmag" -> Mag(Vs, p)
       [] q = "bv" -> Prod(<<Mag(Bs, p), Mag(Vs, p)>>)
       [] q = "angle" -> Fn("arccos", Quo(Dot(Bs, Vs, p, p), Prod(<<Mag(Bs, p), Mag(Vs, p)>>)))
       [] q = "vpara" -> Quo(Dot(Bs, Vs, p, p), Mag(Bs, p))
       [] q = "vperp" -> Fn("sqrt", Sub(Dot(Vs, Vs, p, p), Sq(T("vpara"))))
       [] q = "divv" -> LET F(i) == Fn("log", TA("Rho", "time", i)) X(i) == TA("time", "time", i) IN Neg(Slope(F, X, p.time, N.time))
       [] q = "ratio" -> Quo(T("Rho"), TA("Rho", "time", 1))
       [] q = "rigidity" -> LET rest == Prod(<<T("mass"), Sq(Con("c"))>>)
                            IN Quo(Fn("sqrt", Sub(Sq(Sum(<<T("egrid"), rest>>)), Sq(rest))), Prod(<<Con("c"), T("charge")>>))
       [] q = "mfp" -> LET rest == Prod(<<T("mass"), Sq(Con("c"))>>)
                           R(e) == Fn("sqrt", Sub(Sq(Sum(<<e, rest>>)), Sq(rest)))
                       IN Prod(<<Par("lambda0"), Pow(Quo(T("R"), Con("au")), Par("mfp_radial_power")),
                                 Pow(Quo(R(T("egrid")), R(Con("MeV"))), Par("rigidity_power"))>>)
       [] q = "rate" -> LET v == Mag(Vs, ahead)
                            dv == Prod(<<v, Fn("abs", Sub(One, Quo(Dot(Vs, Vs, ahead, behind), Sq(v))))>>)
                            K(s) == LET a == Term("angle", s, N, low)
                                    IN Quo(Prod(<<Term("mfp", s, N, low), Term("vgrid", s, N, low),
                                                  Sum(<<Sq(Fn("cos", a)), Prod(<<Par("kper_kpar"), Sq(Fn("sin", a))>>)>>)>>),
                                           Prod(<<Num(3, 1), Mag(Vs, s)>>))
                        IN Quo(dv, Prod(<<Num(3, 1), Sum(<<K(ahead), K(behind)>>)>>))
       [] q = "isodist" -> LET F(m) == TA("Dist", "mu", m) IN Quo(Over(N.mu, F), Num(N.mu, 1))
       [] q = "edensity" -> LET V(e) == TA("vgrid", "energy", e)
                                F(e) == Prod(<<Pow(V(e), Num(4, 1)), TA("isodist", "energy", e), Width(V, e, N.energy)>>)
                            IN Prod(<<Con("mp"), Over(N.energy, F)>>)
       [] q = "eaverage" -> LET V(e) == TA("vgrid", "energy", e)
                                F(e) == Prod(<<Sq(V(e)), TA("isodist", "energy", e), Width(V, e, N.energy)>>)
                            IN Quo(T("edensity"), Prod(<<Two, Over(N.energy, F)>>))
       [] q = "flux" -> Prod(<<Two, T("egrid"), T("isodist"), Pow(Con("mp"), Num(-2, 1))>>)
       [] q = "fluence" -> LET F(i) == TA("flux", "time", i) X(i) == TA("time", "time", i) IN Simpson(F, X, 1, N.time)
       [] q = "intflux" ->
            LET E(i) == TA("egrid", "energy", i)
                J(i) == TA("flux", "energy", i)
                k == low[p.species]
                m == Par("minimum_energy")
                (* flux at the minimum energy: a power law between its neighbours *)
                b == Quo(Fn("log", Quo(J(k + 1), J(k))), Fn("log", Quo(E(k + 1), E(k))))
                JM(i) == IF i = k THEN Prod(<<J(k), Pow(Quo(m, E(k)), b)>>) ELSE J(i)
                EM(i) == IF i = k THEN m ELSE E(i)
            IN IF k = 0 THEN Simpson(J, E, 1, N.energy) ELSE Simpson(JM, EM, k, N.energy)
=============================================================================
