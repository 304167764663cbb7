------------------------------- MODULE Params -------------------------------
(* Resolution of run parameters.                                               *)
(*                                                                             *)
(* A world has sources (parameters with types and default definitions, and     *)
(* constants), configuration files (definitions given by the user) and the     *)
(* currently selected source and configuration.  A definition is a tree; to    *)
(* resolve it is to replace every reference by the resolved definition in      *)
(* force, giving a closed tree over literals.  Circular and unknown references *)
(* are errors.                                                                 *)
EXTENDS Naturals, Sequences, FiniteSets, TLC, Json

Has(rows, n) == \E k \in 1..Len(rows) : rows[k].name = n
Row(rows, n) ==                     \* the last row counts
  rows[CHOOSE k \in 1..Len(rows) : rows[k].name = n /\ \A j \in (k + 1)..Len(rows) : rows[j].name # n]

Bad == [op |-> "error"]
(* src: [params, consts], user: rows of [name, def] *)
Given(user, row) == Has(user, row.name) \/ Has(user, row.key)
UserRow(user, row) == IF Has(user, row.key) THEN Row(user, row.key) ELSE Row(user, row.name)
InForce(src, user, n) ==
  LET row == Row(src.params, n)
  IN IF Given(user, row) THEN UserRow(user, row).def ELSE row.default

RECURSIVE Close(_, _, _, _)
Close(src, user, t, seen) ==
  LET two(o) == LET a == Close(src, user, t.x, seen)
                    b == Close(src, user, t.y, seen)
                IN IF Bad \in {a, b} THEN Bad ELSE [op |-> o, x |-> a, y |-> b] IN
  CASE t.op \in {"num", "text", "list", "third", "nprocs"} -> t
    [] t.op = "par" -> IF t.name \in seen \/ ~Has(src.params, t.name) THEN Bad
                       ELSE Close(src, user, InForce(src, user, t.name), seen \cup {t.name})
    [] t.op = "const" -> IF t.name \in seen \/ ~Has(src.consts, t.name) THEN Bad
                         ELSE Close(src, user, Row(src.consts, t.name).def, seen \cup {t.name})
    [] t.op = "group" -> Close(src, user, t.x, seen)
    [] t.op = "neg" -> LET a == Close(src, user, t.x, seen)
                       IN IF a = Bad THEN Bad ELSE [op |-> "neg", x |-> a]
    [] t.op \in {"add", "sub", "mul", "div"} -> two(t.op)

Resolve(src, user, n) ==
  IF ~Has(src.params, n) THEN Bad ELSE Close(src, user, [op |-> "par", name |-> n], {})

(* What a name depends on, through the definitions in force.                   *)
RECURSIVE Mentions(_)
Mentions(t) ==
  CASE t.op \in {"par", "const"} -> {t.name}
    [] t.op \in {"group", "neg"} -> Mentions(t.x)
    [] t.op \in {"add", "sub", "mul", "div"} -> Mentions(t.x) \cup Mentions(t.y)
    [] OTHER -> {}
RECURSIVE Reach(_, _, _)
Reach(src, user, S) ==
  LET more == UNION {IF Has(src.params, n) THEN Mentions(InForce(src, user, n)) ELSE {} : n \in S}
  IN IF more \subseteq S THEN S ELSE Reach(src, user, S \cup more)

(* One step of a history over a world.  st: [src, cfg] (cfg 0: none).          *)
User(w, st) == IF st.cfg = 0 THEN <<>> ELSE w.configs[st.cfg]
Source(w, st) == w.sources[st.src]
Do(w, st, o) ==
  CASE o.do = "config" -> [st |-> [st EXCEPT !.cfg = o.to], res |-> [is |-> "ok"]]
    [] o.do = "source" -> [st |-> [st EXCEPT !.src = o.to], res |-> [is |-> "ok"]]
    [] o.do = "both" -> [st |-> [src |-> o.src, cfg |-> o.cfg], res |-> [is |-> "ok"]]
    [] o.do = "look" ->
         [st |-> st,
          res |-> IF ~Has(Source(w, st).params, o.name) THEN [is |-> "unknown"]
                  ELSE LET v == Resolve(Source(w, st), User(w, st), o.name)
                       IN IF v = Bad THEN [is |-> "error"]
                          ELSE [is |-> "value", v |-> v, type |-> Row(Source(w, st).params, o.name).type]]
    [] o.do = "names" ->
         [st |-> st, res |-> [is |-> "names",
            names |-> {Source(w, st).params[k].name : k \in 1..Len(Source(w, st).params)}]]
=============================================================================
