------------------------------- MODULE Groups -------------------------------
(* Collections of alias groups: each register holds a partition of the names  *)
(* it knows.  Combining joins whatever shares a name; exclusion removes whole *)
(* groups; nothing else changes.                                              *)
EXTENDS Naturals, Sequences, FiniteSets, TLC, Json, SequencesExt, FiniteSetsExt

CONSTANTS Names, Regs, Deep

Flat(G)      == UNION G
In(G, k)     == k \in Flat(G)
GroupOf(G, k) == IF In(G, k) THEN CHOOSE g \in G : k \in g ELSE {}
(* join one more group into a partition *)
Join(G, X)   == LET hit == {g \in G : g \cap X # {}} IN (G \ hit) \cup {X \cup UNION hit}
JoinAll(G, Xs) == FoldLeft(Join, G, Xs)
JoinSet(G, H)  == FoldSet(LAMBDA X, acc : Join(acc, X), G, H)
Without(G, ks, gs) == {g \in G : g \cap ks = {} /\ ~(g \in gs)}

Out(st, res) == [st |-> st, res |-> res]
Ok(x)        == [tag |-> "ok", val |-> x]
Err(e)       == [tag |-> e, val |-> {}]
Sets(ss)     == [i \in DOMAIN ss |-> ToSet(ss[i])]

Apply(reg, o) ==
  LET G == reg[o.r] IN
  CASE o.op = "add"     -> IF ToSet(o.ks) \cap Flat(G) # {} THEN Out(reg, Err("ValueError"))
                           ELSE Out([reg EXCEPT ![o.r] = G \cup {ToSet(o.ks)}], Ok({}))
    [] o.op = "update"  -> Out([reg EXCEPT ![o.r] = JoinAll(G, Sets(o.gs))], Ok({}))
    [] o.op = "updfrom" -> Out([reg EXCEPT ![o.r] = JoinSet(G, reg[o.s])], Ok({}))
    [] o.op = "merge"   -> Out([reg EXCEPT ![o.t] = JoinAll(G, Sets(o.gs))], Ok({}))
    [] o.op = "mergefrom" -> Out([reg EXCEPT ![o.t] = JoinSet(G, reg[o.s])], Ok({}))
    [] o.op = "discard" -> Out([reg EXCEPT ![o.r] = Without(G, {o.k}, {})], Ok({}))
    [] o.op = "without" -> Out([reg EXCEPT ![o.t] = Without(G, ToSet(o.ks), {ToSet(o.g)})], Ok({}))
    [] o.op = "find"    -> Out(reg, Ok(GroupOf(G, o.k)))
    (* several names at once stand for the group that consists of exactly them *)
    [] o.op = "findg"   -> Out(reg, Ok(IF ToSet(o.ks) \in G THEN ToSet(o.ks) ELSE {}))
    [] o.op = "discardg" -> Out([reg EXCEPT ![o.r] = G \ {ToSet(o.ks)}], Ok({}))

Subsets  == SUBSET Names \ {{}}
Seqs(n)  == {<<SetToSeq(X)>> : X \in Subsets} \cup
            (IF n > 1 THEN {<<SetToSeq(X), SetToSeq(Y)>> : X, Y \in Subsets} ELSE {})

Ops(reg) ==
  UNION {
    {[op |-> "add", r |-> r, ks |-> SetToSeq(K)] : K \in Subsets}
    \cup {[op |-> "update", r |-> r, gs |-> gs] : gs \in Seqs(Deep)}
    \cup {[op |-> "merge", r |-> r, t |-> t, gs |-> gs] : t \in Regs, gs \in Seqs(1)}
    \cup {[op |-> "updfrom", r |-> r, s |-> s] : s \in Regs}
    \cup {[op |-> "mergefrom", r |-> r, s |-> s, t |-> t] : s, t \in Regs}
    \cup {[op |-> "discard", r |-> r, k |-> k] : k \in Names}
    \cup {[op |-> "without", r |-> r, t |-> t, ks |-> SetToSeq(K), g |-> SetToSeq(g)] :
            t \in Regs, K \in {K \in SUBSET Names : Cardinality(K) < 3}, g \in {{}} \cup reg[r]}
    \cup {[op |-> "find", r |-> r, k |-> k] : k \in Names}
    \cup {[op |-> o, r |-> r, ks |-> SetToSeq(K)] : o \in {"findg", "discardg"},
            K \in {K \in Subsets : Cardinality(K) > 1}}
    \cup {[op |-> "without", r |-> r, t |-> r, ks |-> <<>>, g |-> SetToSeq(g)] :
            g \in {K \in Subsets : Cardinality(K) > 1}}
    : r \in Regs}

VARIABLES reg, act
vars == <<reg, act>>
Init == reg = [r \in Regs |-> {}] /\ act = [op |-> "init"]
Next == \E o \in Ops(reg) :
          LET q == Apply(reg, o) IN reg' = q.st /\ act' = [o |-> o, res |-> q.res]
Spec == Init /\ [][Next]_vars

Partition == \A r \in Regs : /\ ~({} \in reg[r])
                             /\ \A g, h \in reg[r] : g = h \/ g \cap h = {}
(* a name is lost only by discarding or excluding its own group *)
NoLoss == [][\A r \in Regs : \A k \in Flat(reg[r]) \ Flat(reg'[r]) :
               \/ act'.o.op = "discardg" /\ GroupOf(reg[r], k) = ToSet(act'.o.ks)
               \/ act'.o.op = "discard" /\ k \in GroupOf(reg[r], act'.o.k)
               \/ act'.o.op \in {"without", "merge", "mergefrom"} /\ act'.o.t = r]_vars
(* equivalent names stay equivalent through updates *)
NoSplit == [][\A r \in Regs : act'.o.op \in {"add", "update", "updfrom"} =>
               \A g \in reg[r] : \E h \in reg'[r] : g \subseteq h]_vars
(* the order of combination is immaterial *)
OrderFree == \A r, s \in Regs : /\ JoinSet(reg[r], reg[s]) = JoinSet(reg[s], reg[r])
                                /\ JoinSet(reg[r], reg[r]) = reg[r]
View == reg
Emit == PrintT("@@" \o ToJson([s |-> reg, a |-> act', t |-> reg']))
=============================================================================
