------------------------------- MODULE Views -------------------------------
(* Data files on disk, paths that lead to them, and views of them.            *)
(* A place is <<directory, name>>; a link leads to another place.             *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, AliasTable, SequencesExt
SeqSet(s) == {s[k] : k \in 1..Len(s)}

(* ---- paths: where a spelling leads from the working directory ------------- *)
Place(cwd, sp) == CASE sp.k = "absolute" -> <<sp.dir, sp.name>>
                    [] sp.k = "relative" -> <<cwd, sp.name>>
                    [] sp.k = "over"     -> <<sp.dir, sp.name>>   \* ../dir/name
                    [] sp.k = "dotted"   -> <<sp.dir, sp.name>>   \* /.../dir/./name
RECURSIVE Follow(_, _)
Follow(links, p) == IF p \in DOMAIN links THEN Follow(links, links[p]) ELSE p

(* ---- what a view of a file shows ------------------------------------------ *)
(* A file has vars: [name, unit, dims] and axes: [name, size].  A variable is  *)
(* shown under its own name and the documented aliases of that name.           *)
AliasesOf(n) == UNION {{n}, UNION {Known[g] : g \in {h \in 1..Len(Known) : n \in Known[h]}}}
ShownAs(items, n) == {k \in 1..Len(items) : n \in AliasesOf(items[k].name)}
(* Files in which no two names are aliases of one another.                     *)
Plain(items) == \A j, k \in 1..Len(items) : j # k => AliasesOf(items[j].name) \cap AliasesOf(items[k].name) = {}
Shown(items, n) == LET S == ShownAs(items, n) IN IF S = {} THEN 0 ELSE CHOOSE k \in S : TRUE
AllNames(items) == UNION {AliasesOf(items[k].name) : k \in 1..Len(items)}

(* ---- variables as quantities ---------------------------------------------- *)
(* The power of ten that takes values in a unit to the coherent unit of each    *)
(* metric system; a variable without a unit is dimensionless.  Texts that are   *)
(* not units give no quantity.                                                  *)
Tens == ("" :> [mks |-> 0, cgs |-> 0]) @@ ("1" :> [mks |-> 0, cgs |-> 0]) @@ ("m" :> [mks |-> 0, cgs |-> 2])
     @@ ("km/s" :> [mks |-> 3, cgs |-> 5]) @@ ("cm^-3" :> [mks |-> 6, cgs |-> 0])
     @@ ("s^3/km^6" :> [mks |-> -18, cgs |-> -30]) @@ ("g" :> [mks |-> -3, cgs |-> 0]) @@ ("MHz" :> [mks |-> 6, cgs |-> 6])
Measured(u) == u \in DOMAIN Tens

(* ---- searching directories ------------------------------------------------ *)
(* dirs: sequence of sets of names; the first that holds the name, or 0.       *)
FirstWith(dirs, n) == LET S == {k \in 1..Len(dirs) : n \in dirs[k]}
                      IN IF S = {} THEN 0 ELSE CHOOSE k \in S : \A j \in S : k <= j
(* the first template whose name exists                                        *)
FirstOf(names, have) == LET S == {k \in 1..Len(names) : names[k] \in have}
                        IN IF S = {} THEN 0 ELSE CHOOSE k \in S : \A j \in S : k <= j
=============================================================================
