----------------------------- MODULE ViewModel -----------------------------
(* Histories of opening, customising and trying to write to views of files.   *)
(* Every file has one view, found by every spelling of its path; a view        *)
(* changes only when it is itself customised; the disk never changes.          *)
EXTENDS Views
CONSTANTS Customs, AxisCustoms, Writes
Dirs == {"d1", "d2"}
Names == {"x.nc", "y.nc", "l.nc", "none.nc", "t.dat"}
Files == {<<"d1", "x.nc">>, <<"d2", "x.nc">>, <<"d1", "y.nc">>}
Other == {<<"d1", "t.dat">>}                  \* exists, but not a known format
Links == [p \in {<<"d2", "l.nc">>} |-> <<"d1", "x.nc">>]
Spell == {[k |-> "absolute", dir |-> d, name |-> n] : d \in Dirs, n \in Names}
    \cup {[k |-> "relative", dir |-> "", name |-> n] : n \in Names}
    \cup {[k |-> "over", dir |-> d, name |-> n] : d \in Dirs, n \in {"x.nc", "l.nc"}}
    \cup {[k |-> "dotted", dir |-> d, name |-> "x.nc"] : d \in Dirs}
Key(p) == p[1] \o "/" \o p[2]
VARIABLES cwd, view, disk, last
vars == <<cwd, view, disk, last>>
None == [v |-> "none", a |-> "none"]
Init == /\ cwd = "d1" /\ view = [f \in Files |-> None] /\ disk = [p \in Files \cup Other |-> "original"]
        /\ last = <<>>
State == [cwd |-> cwd, view |-> [f \in {Key(g) : g \in Files} |-> view[CHOOSE g \in Files : Key(g) = f]],
          disk |-> IF \A p \in DOMAIN disk : disk[p] = "original" THEN "original" ELSE "changed"]
Did(o, res) == last' = [o |-> o, res |-> res]
Chdir(d) == /\ cwd # d /\ cwd' = d /\ UNCHANGED <<view, disk>>
            /\ Did([o |-> "chdir", dir |-> d], [tag |-> "ok"])
Open(sp) == LET p == Follow(Links, Place(cwd, sp)) IN
   /\ UNCHANGED <<cwd, disk>>
   /\ IF p \in Files
      THEN /\ view' = [view EXCEPT ![p] = IF @ = None THEN [v |-> "plain", a |-> "plain"] ELSE @]
           /\ Did([o |-> "open", sp |-> sp], [tag |-> "ok", file |-> Key(p)])
      ELSE /\ UNCHANGED view
           /\ Did([o |-> "open", sp |-> sp], [tag |-> IF p \in Other THEN "type" ELSE "missing"])
Use(f, v) == /\ view[f] # None
             /\ view' = [view EXCEPT ![f].v = v] /\ UNCHANGED <<cwd, disk>>
             /\ Did([o |-> "use", file |-> Key(f), group |-> "variables", v |-> v], [tag |-> "ok"])
UseAxes(f, a) == /\ view[f] # None
                 /\ view' = [view EXCEPT ![f].a = a] /\ UNCHANGED <<cwd, disk>>
                 /\ Did([o |-> "use", file |-> Key(f), group |-> "axes", v |-> a], [tag |-> "ok"])
(* Whatever is written through a view or a read-only path is refused.          *)
Write(f, w) == /\ (w \in {"data", "attribute"} => view[f] \in {[v |-> "plain", a |-> a] : a \in AxisCustoms \cup {"plain"}})
               /\ UNCHANGED <<cwd, view, disk>>
               /\ Did([o |-> "write", file |-> Key(f), w |-> w], [tag |-> "refused"])
Next == \/ \E d \in Dirs : Chdir(d)
        \/ \E sp \in Spell : Open(sp)
        \/ \E f \in Files : \/ \E v \in Customs \cup {"plain"} : Use(f, v)
                            \/ \E a \in AxisCustoms \cup {"plain"} : UseAxes(f, a)
        \/ \E f \in Files : \E w \in Writes : Write(f, w)
(* the label is not part of the state *)
Sees == <<cwd, view, disk>>
(* ---- laws ---- *)
DiskKept == \A p \in DOMAIN disk : disk[p] = "original"
OneChanges == [][Cardinality({f \in Files : view'[f] # view[f]}) <= 1]_vars
NoForget == [][\A f \in Files : view[f] # None => view'[f] # None]_vars
OpenKeeps == [][last'.o.o \in {"open", "chdir", "write"} =>
                  \A f \in Files : view[f] # None => view'[f] = view[f]]_vars
SameFile == \A a, b \in Spell : \A c \in Dirs :
   (a.k # "relative" /\ b.k # "relative" /\ a.dir = b.dir /\ a.name = b.name) => Place(c, a) = Place(c, b)
Emit == PrintT("@@" \o ToJson([s |-> State, a |-> last', t |-> State']))
Spec == Init /\ [][Next]_vars
=============================================================================
