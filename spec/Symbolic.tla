------------------------------ MODULE Symbolic ------------------------------
(* The language of symbolic expressions as a pushdown machine that reads one  *)
(* token per step and maintains the monomial read so far.  Every state is a   *)
(* prefix of a text together with what ordinary algebra says about it: a      *)
(* complete expression with its meaning, an incomplete one, or a malformed    *)
(* one that no continuation can repair.                                       *)
EXTENDS Monomials, Sequences, SequencesExt, Json

CONSTANTS Operands,  \* names of operand tokens in use
          Powers,    \* names of power tokens in use
          Bad,       \* characters outside the language
          Depth,     \* maximum number of tokens
          Nest,      \* maximum nesting of parentheses
          Climb      \* whether texts go up to that nesting once, and then down

P(p, n, d) == p :> Rat(n, d)
Meaning ==
  [t \in {"a","b","c3","x_y","2a","1/2b","-2a","4","12","3/14","0.25","-3","1","6a","1.5b","1e-7","35000a","-1/4096"} |->
    CASE t = "a" -> MGen("a") [] t = "b" -> MGen("b")
      [] t = "c3" -> MGen("c3") [] t = "x_y" -> MGen("x_y")
      [] t = "2a" -> MMul(MGen("2"), MGen("a"))
      [] t = "6a" -> MMul(MMul(MGen("2"), MGen("3")), MGen("a"))
      [] t = "1/2b" -> MMul(P("2", -1, 1), MGen("b"))
      [] t = "1.5b" -> MMul(MMul(P("2", -1, 1), MGen("3")), MGen("b"))
      [] t = "-2a" -> MMul(MMul(MGen("-"), MGen("2")), MGen("a"))
      [] t = "4" -> P("2", 2, 1) [] t = "1" -> MOne
      [] t = "12" -> MMul(P("2", 2, 1), MGen("3"))
      [] t = "3/14" -> MMul(MGen("3"), MMul(P("2", -1, 1), P("7", -1, 1)))
      [] t = "0.25" -> P("2", -2, 1)
      [] t = "-3" -> MMul(MGen("-"), MGen("3"))
      [] t = "1e-7" -> MMul(P("2", -7, 1), P("5", -7, 1))
      [] t = "-1/4096" -> MMul(MGen("-"), P("2", -12, 1))
      [] t = "35000a" -> MMul(MMul(P("2", 3, 1), P("5", 4, 1)), MMul(MGen("7"), MGen("a")))]
Numeric  == {"4", "12", "3/14", "0.25", "-3", "1", "1e-7", "-1/4096"}
Signed   == {"-2a", "-3", "-1/4096"}
Prefixed == {"2a", "1/2b", "-2a", "6a", "1.5b", "35000a"}  \* the power applies to the symbol only
Symbol(t) == CASE t \in {"2a", "6a", "-2a", "35000a"} -> MGen("a") [] OTHER -> MGen("b")
PowerOf ==
  [t \in {"^2","^3","^-1","^3/2","^-1/2","^0.5","^+3","^0","^10","^1/12","^-2","^1","^-7/48","^0.078125","^5/64"} |->
    CASE t = "^2" -> RInt(2) [] t = "^3" -> RInt(3) [] t = "^-1" -> RInt(-1) [] t = "^3/2" -> Rat(3, 2)
      [] t = "^-1/2" -> Rat(-1, 2) [] t = "^0.5" -> Rat(1, 2) [] t = "^+3" -> RInt(3)
      [] t = "^0" -> RZero [] t = "^10" -> RInt(10) [] t = "^1/12" -> Rat(1, 12)
      [] t = "^-2" -> RInt(-2) [] t = "^1" -> ROne
      [] t = "^-7/48" -> Rat(-7, 48) [] t = "^0.078125" -> Rat(5, 64) [] t = "^5/64" -> Rat(5, 64)]

VARIABLES toks, stack, last, mode, slack
vars == <<toks, stack, last, mode, slack>>

(* one frame per open parenthesis (and one for the whole text) *)
Frame == [acc |-> MOne, div |-> FALSE, op |-> "none"]
Top == stack[Len(stack)]
SetTop(f) == [stack EXCEPT ![Len(stack)] = f]
(* fold the pending operand into the accumulator of its level *)
Fold(f, m) == IF f.div THEN MDiv(f.acc, m) ELSE MMul(f.acc, m)

Init == /\ toks = <<>> /\ stack = <<Frame>> /\ last = MOne
        /\ mode = "start" /\ slack = {}

Add(t) == toks' = Append(toks, t)
Needs  == mode \in {"start", "op", "juxt"}   \* an operand must come next
Ready  == mode \in {"have", "powered"}       \* an operand has just ended

ReadOperand == \E t \in Operands :
  /\ Needs
  /\ ~(mode = "juxt" /\ t \in Signed)       \* `a -3' is not in the language
  /\ Add(t) /\ last' = Meaning[t]
  /\ mode' = "have"
  /\ UNCHANGED <<stack, slack>>
ReadPower == \E t \in Powers :
  /\ mode = "have"
  /\ LET prev == toks[Len(toks)] r == PowerOf[t] IN
       /\ ~(prev \in Signed /\ prev \in Numeric)  \* sign and power of a number: unspecified
       /\ MPowDefined(IF prev \in Prefixed THEN MOne ELSE last, r)
       /\ last' = IF prev \in Prefixed
                  THEN MMul(MDiv(Meaning[prev], Symbol(prev)), MPow(Symbol(prev), r))
                  ELSE MPow(last, r)
  /\ Add(t) /\ mode' = "powered" /\ UNCHANGED <<stack, slack>>
ReadOperator == \E t \in {"*", "/"} :
  /\ Ready /\ Add(t)
  /\ stack' = SetTop([acc |-> Fold(Top, last), div |-> t = "/", op |-> t])
  /\ slack' = slack \cup (IF Top.op = "/" THEN {IF t = "/" THEN "ratio" ELSE "product"}
                          ELSE IF Top.op = "juxt" THEN {"unspecified"} ELSE {})
  /\ last' = MOne /\ mode' = "op"
ReadSpace ==                                    \* juxtaposition multiplies
  /\ Ready /\ Add("~")
  /\ stack' = SetTop([acc |-> Fold(Top, last), div |-> FALSE, op |-> "juxt"])
  /\ slack' = slack \cup (IF Top.op = "/" THEN {"unspecified"} ELSE {})
  /\ last' = MOne /\ mode' = "juxt"
ReadOpen ==
  /\ Len(stack) <= Nest
  /\ \/ Needs /\ stack' = Append(stack, Frame) /\ slack' = slack
     \/ /\ Ready                                \* a(b) is juxtaposition too
        /\ stack' = Append(SetTop([acc |-> Fold(Top, last), div |-> FALSE, op |-> "juxt"]), Frame)
        /\ slack' = slack \cup (IF Top.op = "/" THEN {"unspecified"} ELSE {})
  /\ Add("(") /\ last' = MOne /\ mode' = "start"
ReadClose ==
  /\ Ready /\ Len(stack) > 1
  /\ Add(")") /\ last' = Fold(Top, last) /\ mode' = "have"
  /\ stack' = SubSeq(stack, 1, Len(stack) - 1) /\ slack' = slack
(* steps out of the language *)
Break(t) == Add(t) /\ mode' = "bad" /\ UNCHANGED <<stack, last, slack>>
ReadWrong ==
  \/ \E t \in Bad : mode # "bad" /\ Break(t)
  \/ mode = "op" /\ \E t \in {"*", "/", ")"} : Break(t)
  \/ Needs /\ mode # "juxt" /\ \E t \in Powers : Break(t)
  \/ mode = "powered" /\ \E t \in Powers : Break(t)
  \/ Ready /\ Len(stack) = 1 /\ Break(")")

Next == /\ Len(toks) < Depth
        /\ \/ ReadOperand \/ ReadPower \/ ReadOperator \/ ReadSpace
           \/ ReadOpen \/ ReadClose \/ ReadWrong
(* texts that reach a deep nesting and close it again *)
Rising == Len(toks) * 2 < Depth /\ Len(stack) <= Nest /\ \A i \in DOMAIN toks : toks[i] # ")"
New == toks'[Len(toks')]
Climbing == Climb =>
  /\ mode' # "bad"
  /\ Rising => New # ")"
  /\ Rising /\ Needs /\ Len(toks) % 4 < 3 => New = "("
  /\ ~Rising => New # "("
  /\ ~Rising /\ New \in {"*", "/", "~"} => Len(toks) % 4 = 0
Spec == Init /\ [][Next /\ Climbing]_vars

Complete == Ready /\ Len(stack) = 1
Status == IF mode = "bad" THEN "bad" ELSE IF Complete THEN "ok" ELSE "incomplete"
Value  == IF Complete THEN Fold(Top, last) ELSE MOne

(* sanity of the machine itself *)
Balanced == Len(stack) >= 1 /\ (mode # "bad" =>
  Len(stack) - 1 = Len(SelectSeq(toks, LAMBDA t : t = "(")) - Len(SelectSeq(toks, LAMBDA t : t = ")")))
Clean == \A g \in DOMAIN Value : Value[g] # RZero
Emit == PrintT("@@" \o ToJson([t |-> toks, s |-> Status, m |-> Value, k |-> slack]))
Inv == Balanced /\ Clean /\ (toks = <<>> \/ mode = "juxt" \/ Emit)
=============================================================================
