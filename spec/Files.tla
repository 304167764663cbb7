-------------------------------- MODULE Files --------------------------------
(* Which files an observer reads.  An observer of a kind and number looks in    *)
(* its source folder (the working folder if none is given) for the first of     *)
(* its file names that exists there.  A configuration given by a bare name is   *)
(* the file of that name in the folder of the data, else in the working folder; *)
(* given by a path it is that file.  An observer with both files observes; one  *)
(* that lacks either has nothing to observe until an update provides it.        *)
(* An update that fails leaves the observer describing what it described.       *)
(* Files may appear and disappear: each creation, and each update that names a   *)
(* source, looks at the folders as they are then, and what an observer describes *)
(* changes only by an update.                                                    *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json
(* the folders: data files and configuration files in them; W is the working folder *)
Folders == {"A", "B", "C", "W"}
DataIn == [A |-> {"obs0", "flux0", "flux1", "p0"}, B |-> {"flux0", "obs1", "p12"}, C |-> {"p0", "flux12"}, W |-> {"obs0", "obs12", "p12"}]
ConfIn == [A |-> {"c1"}, B |-> {"c1", "c2"}, C |-> {}, W |-> {"c2", "c3"}]
Kinds == {"Stream", "Point"}
Numbers == {0, 1, 12}
(* the data files that come and go, and whether they are there at first *)
Fickle == {<<"A", "obs0">>, <<"C", "obs12">>}
(* gone or come: the fickle files that are not as at first *)
VARIABLE moved
Has(folder, name) == (name \in DataIn[folder]) # (<<folder, name>> \in moved)
FileNames(kind, n) == IF kind = "Point" THEN <<"p" \o ToString(n)>> ELSE <<"obs" \o ToString(n), "flux" \o ToString(n)>>
None == "none"
Where(src) == IF src = None THEN "W" ELSE src
DataFile(kind, n, src) ==
  LET names == FileNames(kind, n)
      have == {k \in 1..Len(names) : Has(Where(src), names[k])}
  IN IF have = {} THEN <<>> ELSE <<Where(src), names[CHOOSE k \in have : \A j \in have : k <= j]>>
(* a configuration: none, <<bare name>>, or <<folder, name>> given in full *)
NoConf == <<>>
Bare == {<<"c1">>, <<"c2">>, <<"c3">>, <<"missing">>}
Full == {<<"A", "c1">>, <<"B", "c2">>, <<"C", "c1">>}
ConfFile(c, data) ==
  CASE c \in Full -> IF c[2] \in ConfIn[c[1]] THEN c ELSE <<"fails">>
    [] OTHER -> IF c[1] \in ConfIn[data[1]] THEN <<data[1], c[1]>> ELSE IF c[1] \in ConfIn["W"] THEN <<"W", c[1]>> ELSE <<"fails">>
Sources == {"A", "B", "C"}
Gone == "Gone"              \* a folder that does not exist
Configs == Bare \cup Full

(* obs: kind, n, src, conf as given; see: what it describes (data file and the  *)
(* configurations it may be using); found: the files found for a bare name; looked: *)
(* the data file there was when it last looked.                                 *)
VARIABLES obs, act
vars == <<obs, act, moved>>
Nothing == [data |-> <<>>, confs |-> {}]
(* the outcome of combining a source and a configuration; `keep` holds the       *)
(* configuration files already found for the same bare name                      *)
Outcome(kind, n, src, conf, keep) ==
  IF src = Gone THEN [fails |-> TRUE]
  ELSE LET d == DataFile(kind, n, src) IN
       IF d = <<>> \/ conf = NoConf THEN [fails |-> FALSE, see |-> Nothing]
       ELSE LET c == ConfFile(conf, d)
                all == keep \cup (IF c = <<"fails">> THEN {} ELSE {c})
            IN IF all = {} THEN [fails |-> TRUE] ELSE [fails |-> FALSE, see |-> [data |-> d, confs |-> all]]
Result(o) == IF o.fails THEN "fails" ELSE "ok"
New(kind, n, src, conf) == LET o == Outcome(kind, n, src, conf, {}) IN
  /\ obs' = IF o.fails THEN obs ELSE [kind |-> kind, n |-> n, src |-> src, conf |-> conf, see |-> o.see, found |-> o.see.confs, looked |-> DataFile(kind, n, src)]
  /\ UNCHANGED moved
  /\ act' = [o |-> [op |-> "new", kind |-> kind, n |-> n, src |-> src, conf |-> conf], res |-> Result(o), see |-> obs'.see]
Update(src, conf) ==
  LET s == IF src = None THEN obs.src ELSE src
      c == IF conf = NoConf THEN obs.conf ELSE conf
      (* whether a bare name is looked up again in a new folder is not specified *)
      keep == IF conf = NoConf /\ c \in Bare THEN obs.found ELSE {}
      o == Outcome(obs.kind, obs.n, s, c, keep)
  IN /\ src # None \/ conf # NoConf
     (* whether an update that names no source looks at the folder again is not specified *)
     /\ src = None => DataFile(obs.kind, obs.n, obs.src) = obs.looked
     /\ moved # {} => conf \in {NoConf, <<"c1">>}
     /\ UNCHANGED moved
     (* a bare name that may or may not be looked up again: only if both ways agree on failure *)
     /\ ~(src # None /\ conf = NoConf /\ c \in Bare /\ s # Gone /\ DataFile(obs.kind, obs.n, s) # <<>> /\ ConfFile(c, DataFile(obs.kind, obs.n, s)) = <<"fails">>)
     /\ obs' = IF o.fails THEN obs ELSE [obs EXCEPT !.src = s, !.conf = c, !.see = o.see, !.found = keep \cup o.see.confs, !.looked = DataFile(obs.kind, obs.n, s)]
     /\ act' = [o |-> [op |-> "update", src |-> src, conf |-> conf], res |-> Result(o), see |-> obs'.see]
Start == [kind |-> "Stream", n |-> 0, src |-> "A", conf |-> <<"c1">>, see |-> [data |-> <<"A", "obs0">>, confs |-> {<<"A", "c1">>}], found |-> {<<"A", "c1">>}, looked |-> <<"A", "obs0">>]
(* a file appears or disappears *)
Move(f) == /\ f \in Fickle
           /\ moved' = IF f \in moved THEN moved \ {f} ELSE moved \cup {f}
           /\ UNCHANGED obs
           /\ act' = [o |-> [op |-> "move", file |-> f], res |-> "ok", see |-> obs.see]
Init == moved = {} /\ obs = Start /\ act = [o |-> [op |-> "none"], res |-> "ok", see |-> Start.see]
Next == \/ obs = Start /\ \E kind \in Kinds, n \in Numbers, src \in Sources \cup {None, Gone}, conf \in Configs \cup {NoConf} : New(kind, n, src, conf)
        \/ \E src \in Sources \cup {None, Gone}, conf \in Configs \cup {NoConf} : Update(src, conf)
        \/ \E f \in Fickle : Move(f)
Spec == Init /\ [][Next]_vars
View == <<obs, moved>>
TypeOK == /\ obs.see.data = <<>> <=> obs.see.confs = {}
          /\ obs.see.data # <<>> => obs.see.data[2] \in DataIn[obs.see.data[1]] \/ obs.see.data \in Fickle
          /\ \A c \in obs.see.confs : c[2] \in ConfIn[c[1]]
Kept == [][act'.res = "fails" => obs' = obs]_vars
Steady == [][act'.o.op = "move" => obs' = obs]_vars
Emit == PrintT("@@" \o ToJson([s |-> [o |-> obs, m |-> moved], a |-> act', t |-> [o |-> obs', m |-> moved']]))
=============================================================================
