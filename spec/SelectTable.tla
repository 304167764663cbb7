---------------------------- MODULE SelectTable ----------------------------
(* Every subscript of at most D entries of a menu, on arrays of every shape   *)
(* with D axes of length at most 3.                                            *)
EXTENDS Arrays
CONSTANT D
Opt == {<<>>, <<-2>>, <<1>>, <<2>>}
Menu == {[k |-> "int", i |-> n] : n \in -3..2} \cup {[k |-> "dots"]}
  \cup {[k |-> "slice", a |-> a, b |-> b, s |-> s] : a \in {<<>>, <<-2>>, <<1>>}, b \in {<<>>, <<-1>>, <<2>>, <<0>>}, s \in {<<>>, <<-1>>, <<2>>}}
  \cup {[k |-> "seq", s |-> s] : s \in {<<>>, <<0>>, <<1, 0>>, <<0, 2>>, <<-1, -1, 0>>}}
VARIABLES shape, user
Init == /\ shape \in [1..D -> 1..3]
        /\ user \in UNION {[1..n -> Menu] : n \in 0..D}
Next == UNCHANGED <<shape, user>>
X == Array([k \in 1..D |-> <<"t", "r", "e">>[k]], shape, [p \in 1..Prod(shape) |-> <<p, 1>>], 0, <<>>)
Laws == Selectable(X, user) => LET y == Select(X, user) IN
  /\ Len(y.shape) = D /\ y.dims = X.dims /\ Len(y.data) = Prod(y.shape)
  /\ Select(y, <<[k |-> "dots"]>>) = y
  /\ Select(X, Expand(user, D)) = y
  /\ \A p \in 1..Len(y.data) : \E q \in 1..Len(X.data) : X.data[q] = y.data[p]
Emit == PrintT("@@" \o ToJson([shape |-> shape, user |-> user, ok |-> Selectable(X, user),
          y |-> IF Selectable(X, user) THEN Select(X, user) ELSE X]))
Inv == Laws /\ Emit
=============================================================================
