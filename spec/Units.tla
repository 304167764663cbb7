------------------------------- MODULE Units -------------------------------
(* Units of measure as products of powers of named units.  A unit expression  *)
(* is a sequence of terms <<prefix, base, n, d>> standing for                 *)
(* (prefix base)^(n/d); the bases "2", "3", "5" are plain numbers.            *)
EXTENDS UnitTables, SequencesExt, Json
Systems == {"mks", "cgs"}
Numbers == {"2", "3", "5"}
ByKey(list, key(_)) == [k \in {key(list[i]) : i \in 1..Len(list)} |->
                          LET i == CHOOSE i \in 1..Len(list) : key(list[i]) = k IN list[i]]
Sym(r) == r.symbol
Nam(r) == r.name
Prefix == ByKey(PrefixList, Sym)
Base   == ByKey(UnitList, Sym)
Quant  == ByKey(QuantityList, Nam)
Ten(n) == IF n = 0 THEN MOne ELSE ("2" :> RInt(n)) @@ ("5" :> RInt(n))
(* the existing tests fix the mks dimension of resistance at M L^2 T^-3 I^-1;  *)
(* `pinned` selects that variant (see known_findings.json)                     *)
Resistive == {"impedance", "resistance", "resistivity"}
QDims(q, sys, pinned) ==
  LET m == IF sys = "mks" THEN Quant[q].mks ELSE Quant[q].cgs
  IN IF pinned /\ sys = "mks" /\ q \in Resistive THEN MMul(m, MGen("I")) ELSE m
TermSize(t, sys) ==
  IF t[2] \in Numbers THEN MGen(t[2])
  ELSE LET u == Base[t[2]]
           s == MMul(Ten(Prefix[t[1]].ten), u.size)
       IN IF sys = "mks" THEN s ELSE MMul(s, Quant[u.quantity].factor)
TermDims(t, sys, pinned) == IF t[2] \in Numbers THEN MOne ELSE QDims(Base[t[2]].quantity, sys, pinned)
TermAllowed(t) == IF t[2] \in Numbers THEN Systems ELSE Base[t[2]].systems
Exp(t) == Rat(t[3], t[4])
Fold(e, f(_)) == FoldSeq(LAMBDA t, acc : MMul(acc, MPow(f(t), Exp(t))), MOne, e)
Size(e, sys) == Fold(e, LAMBDA t : TermSize(t, sys))
Dims(e, sys, pinned) == Fold(e, LAMBDA t : TermDims(t, sys, pinned))
Allowed(e) == {s \in Systems : \A i \in 1..Len(e) : s \in TermAllowed(e[i])}
(* the quantity of an expression, as a product of powers of quantity names *)
QExpr(e) == Fold(SelectSeq(e, LAMBDA t : t[2] \notin Numbers),
                 LAMBDA t : LET q == Base[t[2]].quantity
                            IN IF q = "identity" THEN MOne ELSE MGen(q))
Nuclear(e) == \E i \in 1..Len(e) : e[i][2] \in {"nuc", "amu"}
NDims(e, sys, pinned) ==
  Fold(e, LAMBDA t : IF t[2] \in {"nuc", "amu"} THEN MGen("M") ELSE TermDims(t, sys, pinned))

(* May a number in unit a be converted to unit b?                              *)
(* "yes": same dimensions in a metric system that admits both, or the same     *)
(* quantity, or the same dimensions in both systems; "no": different           *)
(* dimensions however read; "open" otherwise (one of the defined bridges       *)
(* between systems, as between capacitance and length).                        *)
Verdict(a, b, pinned) ==
  LET common == Allowed(a) \cap Allowed(b)
      agree == {s \in Systems : Dims(a, s, pinned) = Dims(b, s, pinned)}
      nagree == {s \in Systems : NDims(a, s, pinned) = NDims(b, s, pinned)}
  IN IF common \cap agree # {} THEN "yes"
     ELSE IF common = {} /\ (QExpr(a) = QExpr(b) \/ agree = Systems) THEN "yes"
     ELSE IF agree = {} /\ nagree = {} THEN "no" ELSE "open"
(* how many b are in one a (valid when the verdict is "yes") *)
Factor(a, b, pinned) ==
  LET common == Allowed(a) \cap Allowed(b)
      agree == {s \in Systems : Dims(a, s, pinned) = Dims(b, s, pinned)}
      sys == IF "mks" \in common \cap agree THEN "mks"
             ELSE IF "cgs" \in common \cap agree THEN "cgs" ELSE "mks"
  IN MDiv(Size(a, sys), Size(b, sys))
=============================================================================
