------------------------------- MODULE Lookup -------------------------------
(* Tables, registries, connection graphs and sequence helpers.                *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, Rationals, SequencesExt
SetOf(s) == {s[k] : k \in 1..Len(s)}

(* ---- Tables: rows are sequences of <<key, value>>; keys may be missing ---- *)
Keys(r) == {r[k][1] : k \in 1..Len(r)}
Val(r, key) == r[CHOOSE k \in 1..Len(r) : r[k][1] = key][2]
Common(rows) == {key \in UNION {Keys(rows[i]) : i \in 1..Len(rows)} : \A i \in 1..Len(rows) : key \in Keys(rows[i])}
Matches(rows, S, p) == {i \in S : Val(rows[i], p[1]) = p[2]}
(* The answer to a request: a row number, 0 (refused), -1 (no such column). *)
RECURSIVE Iterative(_, _, _, _)
Iterative(rows, S, ps, k) ==
  IF k > Len(ps) THEN 0
  ELSE IF ps[k][1] \notin Common(rows) THEN -1
  ELSE LET T == Matches(rows, S, ps[k])
       IN IF Cardinality(T) = 1 THEN CHOOSE i \in T : TRUE ELSE Iterative(rows, T, ps, k + 1)
StrictAnswer(rows, ps) ==
  IF \E k \in 1..Len(ps) : ps[k][1] \notin Common(rows) THEN -1
  ELSE LET T == {i \in 1..Len(rows) : \A k \in 1..Len(ps) : Val(rows[i], ps[k][1]) = ps[k][2]}
       IN IF Cardinality(T) = 1 THEN CHOOSE i \in T : TRUE ELSE 0
Request(rows, ps, strict) ==
  IF strict THEN StrictAnswer(rows, ps) ELSE Iterative(rows, 1..Len(rows), ps, 1)
Find(rows, v) == {i \in 1..Len(rows) : \E k \in 1..Len(rows[i]) : rows[i][k][2] = v}

(* ---- Registry: items is a sequence of [key, obj, meta] in order of entry -- *)
KeysOf(items) == {items[i].key : i \in 1..Len(items)}
(* keys under which e may be entered: e.name = "" means none given *)
Entered(items, e) == IF e.key \in KeysOf(items)
  THEN [i \in 1..Len(items) |-> IF items[i].key = e.key THEN [key |-> e.key, obj |-> e.obj, meta |-> e.meta] ELSE items[i]]
  ELSE Append(items, [key |-> e.key, obj |-> e.obj, meta |-> e.meta])
KeyAllowed(items, e) ==
  IF e.name # "" /\ (e.name \notin KeysOf(items) \/ e.overwrite) THEN e.key = e.name
  ELSE IF e.own \notin KeysOf(items) THEN e.key = e.own
  ELSE e.key \notin KeysOf(items)
RegStep(st, e) ==
  CASE e.o = "register" -> IF KeyAllowed(st.items, e) THEN [st EXCEPT !.items = Entered(@, e)] ELSE [st EXCEPT !.bad = TRUE]
    [] e.o = "reset" -> [st EXCEPT !.items = st.init]
    [] e.o = "copy" -> [st EXCEPT !.init = st.items]      \* go on with a copy, which resets to here
RECURSIVE RegRun(_, _, _)
(* number of events accepted: each records the items seen after it *)
RegRun(st, es, k) ==
  IF k > Len(es) THEN Len(es)
  ELSE LET n == RegStep(st, es[k])
       IN IF n.bad \/ n.items # es[k].after THEN k - 1 ELSE RegRun(n, es, k + 1)

(* ---- Connections: a set of [p |-> <<start, end>>, w |-> weight] ------------ *)
(* weight <<0, 1>> stands for none *)
Reverse1(w) == IF w = RZero THEN RZero ELSE RInv(w)
Edges(c) == {x.p : x \in c}
Put(c, p, w) == IF p \in Edges(c) THEN c ELSE c \cup {[p |-> p, w |-> w]}
Connect(c, a, b, w) == Put(Put(c, <<a, b>>, w), <<b, a>>, Reverse1(w))
Mutual(c) == \A x \in c : \E y \in c : y.p = <<x.p[2], x.p[1]>> /\ (x.p[1] # x.p[2] => y.w = Reverse1(x.w))

(* ---- Sequence helpers ------------------------------------------------------ *)
Unique(s) == FoldLeft(LAMBDA acc, x : IF x \in SetOf(acc) THEN acc ELSE Append(acc, x), <<>>, s)
(* nested lists: [leaf |-> n] or [kids |-> sequence] *)
RECURSIVE Unwrap(_)
Unwrap(t) == IF "kids" \in DOMAIN t /\ Len(t.kids) = 1 THEN Unwrap(t.kids[1]) ELSE t
Transpose(m) == [j \in 1..Len(m[1]) |-> [i \in 1..Len(m) |-> m[i][j]]]
(* what s[start:stop:step] selects from 0..n-1; <<>> stands for an omitted bound *)
Clamp(x, lo, hi) == IF x < lo THEN lo ELSE IF x > hi THEN hi ELSE x
Bound(b, n, lo, hi, dflt) == IF b = <<>> THEN dflt ELSE Clamp(IF b[1] < 0 THEN b[1] + n ELSE b[1], lo, hi)
RECURSIVE Walk(_, _, _)
Walk(i, stop, step) == IF (step > 0 /\ i >= stop) \/ (step < 0 /\ i <= stop) THEN <<>>
                       ELSE <<i>> \o Walk(i + step, stop, step)
Slice(n, start, stop, step0) ==
  LET step == IF step0 = <<>> THEN 1 ELSE step0[1] IN
  IF step > 0 THEN Walk(Bound(start, n, 0, n, 0), Bound(stop, n, 0, n, n), step)
  ELSE Walk(Bound(start, n, -1, n - 1, n - 1), Bound(stop, n, -1, n - 1, -1), step)
Product(a, b) == [k \in 1..(Len(a) * Len(b)) |-> <<a[((k - 1) \div Len(b)) + 1], b[((k - 1) % Len(b)) + 1]>>]
(* values with a type; "bool" is a kind of "int". A value is [ty, members].  *)
IsType(ty, types) == ty \in types \/ (ty = "bool" /\ "int" \in types)
HasType(o, types, wraps, strict) ==
  \/ IsType(o.ty, types)
  \/ /\ o.ty \in wraps
     /\ IF strict THEN \A i \in DOMAIN o.mem : IsType(o.mem[i], types)
        ELSE \E i \in DOMAIN o.mem : IsType(o.mem[i], types)
(* a number is never missing, however small; anything else is if it is empty *)
Missing(o) == o.ty \notin {"int", "float", "bool"} /\ (o.ty = "none" \/ o.n = 0)
(* the independent members of a value: a scalar or a text is one member      *)
Members(o) == CASE o.ty = "none" -> <<>> [] o.ty \in {"list", "tuple", "array", "range"} -> o.mem [] OTHER -> <<o.one>>
SameMembers(a, b) == Len(a) = Len(b) /\ \A x \in SetOf(a) \cup SetOf(b) :
  Cardinality({i \in DOMAIN a : a[i] = x}) = Cardinality({i \in DOMAIN b : b[i] = x})
(* rows of named values, read as records with the given fields               *)
Uniform(row, fields) == [j \in 1..Len(fields) |->
  LET at == {i \in DOMAIN row : row[i][1] = fields[j]} IN IF at = {} THEN <<>> ELSE <<row[CHOOSE i \in at : TRUE][2]>>]
AtMost(n, s) == IF Len(s) <= n THEN s ELSE SubSeq(s, 1, n - 1) \o <<-1, s[Len(s)]>>
=============================================================================
