------------------------------ MODULE Aliases ------------------------------
(* An aliased mapping: a set of entries, each with one or more names and a   *)
(* value.  Several mappings live in registers so that copying and merging    *)
(* can be described, including the absence of any sharing between them.      *)
EXTENDS Naturals, Sequences, FiniteSets, TLC, Json, SequencesExt, FiniteSetsExt

CONSTANTS Names, Vals, Regs

Absent == "absent"

(* ---- one mapping ---- *)
Entry(N, v)      == [names |-> N, val |-> v]
AllNames(M)      == UNION {e.names : e \in M}
Has(M, k)        == k \in AllNames(M)
EntryOf(M, k)    == CHOOSE e \in M : k \in e.names
ValueOf(M, k)    == EntryOf(M, k).val
GroupOf(M, k)    == EntryOf(M, k).names
Replace(M, k, e) == (M \ {EntryOf(M, k)}) \cup {e}
Put(M, k, v)     == IF Has(M, k) THEN Replace(M, k, Entry(GroupOf(M, k), v))
                                 ELSE M \cup {Entry({k}, v)}
Drop(M, k)       == M \ {EntryOf(M, k)}
AddName(M, k, x) == Replace(M, k, Entry(GroupOf(M, k) \cup {x}, ValueOf(M, k)))
(* Merging joins entries that share a name; the right value wins.  It is left  *)
(* open which value wins when one left entry meets two right ones.            *)
Meets(e, f)      == e.names \cap f.names # {}
Mergeable(M, N)  == \A e \in M : \A f, g \in N : Meets(e, f) /\ Meets(e, g) => f = g
Merge(M, N)      == {e \in M : \A f \in N : ~Meets(e, f)} \cup
                    {Entry(f.names \cup UNION {e.names : e \in {e \in M : Meets(e, f)}}, f.val) : f \in N}

(* ---- operations on registers: [st |-> new registers, res |-> outcome] ---- *)
Out(st, res) == [st |-> st, res |-> res]
Ok(x)        == [tag |-> "ok", val |-> x]
Err          == [tag |-> "KeyError", val |-> 0]

Apply(reg, o) ==
  LET M == reg[o.r] IN
  CASE o.op = "put"     -> Out([reg EXCEPT ![o.r] = Put(M, o.k, o.v)], Ok(0))
    [] o.op = "putnew"  -> Out([reg EXCEPT ![o.r] = M \cup {Entry(ToSet(o.ks), o.v)}], Ok(0))
    [] o.op = "del"     -> IF Has(M, o.k) THEN Out([reg EXCEPT ![o.r] = Drop(M, o.k)], Ok(0))
                           ELSE Out(reg, Err)
    [] o.op = "pop"     -> IF Has(M, o.k) THEN Out([reg EXCEPT ![o.r] = Drop(M, o.k)], Ok(ValueOf(M, o.k)))
                           ELSE Out(reg, Err)
    [] o.op = "get"     -> IF Has(M, o.k) THEN Out(reg, Ok(ValueOf(M, o.k))) ELSE Out(reg, Err)
    [] o.op = "default" -> IF Has(M, o.k) THEN Out(reg, Ok(ValueOf(M, o.k)))
                           ELSE Out([reg EXCEPT ![o.r] = Put(M, o.k, o.v)], Ok(o.v))
    [] o.op = "alias"   -> IF Has(M, o.x) THEN Out(reg, Err)
                           ELSE Out([reg EXCEPT ![o.r] = AddName(M, o.k, o.x)], Ok(0))
    [] o.op = "clear"   -> Out([reg EXCEPT ![o.r] = {}], Ok(0))
    [] o.op = "copy"    -> Out([reg EXCEPT ![o.s] = M], Ok(0))
    [] o.op = "merge"   -> Out([reg EXCEPT ![o.t] = Merge(M, reg[o.s])], Ok(0))

(* The operations that mean something in a given state. *)
Ops(reg) ==
  UNION {
    {[op |-> "put", r |-> r, k |-> k, v |-> v] : k \in Names, v \in Vals}
    \cup {[op |-> "putnew", r |-> r, ks |-> SetToSeq(K), v |-> v] :
            K \in {K \in SUBSET (Names \ AllNames(reg[r])) : Cardinality(K) > 1}, v \in Vals}
    \cup {[op |-> o, r |-> r, k |-> k] : o \in {"del", "pop", "get"}, k \in Names}
    \cup {[op |-> "default", r |-> r, k |-> k, v |-> v] : k \in Names, v \in Vals}
    \cup {[op |-> "alias", r |-> r, k |-> p[1], x |-> p[2]] :
            p \in {p \in Names \X Names : /\ Has(reg[r], p[1])
                                          /\ ~(p[2] \in GroupOf(reg[r], p[1]))}}
    \cup {[op |-> "clear", r |-> r]}
    \cup {[op |-> "copy", r |-> r, s |-> s] : s \in Regs \ {r}}
    \cup {[op |-> "merge", r |-> r, s |-> p[1], t |-> p[2]] :
            p \in {p \in Regs \X Regs : Mergeable(reg[r], reg[p[1]])}}
    : r \in Regs}

(* ---- the specification ---- *)
VARIABLES reg, act
vars == <<reg, act>>

Init == reg = [r \in Regs |-> {}] /\ act = [op |-> "init"]
Next == \E o \in Ops(reg) :
          LET q == Apply(reg, o) IN reg' = q.st /\ act' = [o |-> o, res |-> q.res]
Spec == Init /\ [][Next]_vars

(* ---- what must hold ---- *)
Disjoint == \A r \in Regs : \A e, f \in reg[r] :
              /\ e.names # {}
              /\ e # f => e.names \cap f.names = {}
(* an operation changes only the register it names *)
Isolation == [][\A r \in Regs : reg'[r] # reg[r] =>
                  r \in {act'.o[f] : f \in (DOMAIN act'.o) \cap {"r", "s", "t"}}]_vars
(* every name of an entry that is not written keeps its value *)
AliasesAgree == \A r \in Regs : \A j, k \in AllNames(reg[r]) :
                  GroupOf(reg[r], j) = GroupOf(reg[r], k) =>
                    ValueOf(reg[r], j) = ValueOf(reg[r], k)

View == reg
Emit == PrintT("@@" \o ToJson([s |-> reg, a |-> act', t |-> reg']))
=============================================================================
