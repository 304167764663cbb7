----------------------------- MODULE ConfigText -----------------------------
(* The language of configuration files.  A line is a sequence of characters.  *)
(* A comment mark removes the rest of the line; a line with nothing left but  *)
(* space says nothing; any other line assigns the text after its first equals *)
(* sign to the text before it, both without surrounding space; a line that    *)
(* says something but assigns nothing is refused.                             *)
EXTENDS Naturals, Sequences, FiniteSets, TLC, Json

Space == {" ", "\t", "\r"}

First(s, C) ==                     \* position of the first character in C, or 0
  LET at == {k \in 1..Len(s) : s[k] \in C}
  IN IF at = {} THEN 0 ELSE CHOOSE k \in at : \A j \in at : k <= j

RECURSIVE LeftTrim(_)
LeftTrim(s) == IF s # <<>> /\ Head(s) \in Space THEN LeftTrim(Tail(s)) ELSE s
RECURSIVE RightTrim(_)
RightTrim(s) == IF s # <<>> /\ s[Len(s)] \in Space
                THEN RightTrim(SubSeq(s, 1, Len(s) - 1)) ELSE s
Trim(s) == LeftTrim(RightTrim(s))

Uncomment(s, C) == LET k == First(s, C) IN IF k = 0 THEN s ELSE SubSeq(s, 1, k - 1)

Says(line, C) ==
  LET t == Trim(Uncomment(line, C))
      e == First(t, {"="})
  IN IF t = <<>> THEN [is |-> "nothing"]
     ELSE IF e = 0 THEN [is |-> "error"]
     ELSE IF e = 1 THEN [is |-> "open"]
     ELSE [is |-> "assign", key |-> Trim(SubSeq(t, 1, e - 1)),
           value |-> Trim(SubSeq(t, e + 1, Len(t)))]

RECURSIVE Text(_)
Text(s) == IF s = <<>> THEN "" ELSE Head(s) \o Text(Tail(s))

(* The meaning of a file: a function from keys to values, or "error".          *)
Nothing == [k \in {} |-> ""]
Step(m, says) ==                  \* m: [st |-> "ok" / "error" / "open", map]
  IF m.st # "ok" \/ says.is = "nothing" THEN m
  ELSE IF says.is # "assign" THEN [st |-> says.is, map |-> Nothing]
  ELSE [st |-> "ok", map |-> [k \in {says.key} |-> says.value] @@ m.map]
RECURSIVE ReadFrom(_, _, _)
ReadFrom(m, lines, C) ==
  IF lines = <<>> THEN m
  ELSE ReadFrom(Step(m, Says(Head(lines), C)), Tail(lines), C)
Read(lines, C) == ReadFrom([st |-> "ok", map |-> Nothing], lines, C)

(* Comparison of two mappings.                                                 *)
OnlyIn(f, g) == DOMAIN f \ DOMAIN g
Differ(f, g) == {k \in DOMAIN f : k \notin DOMAIN g \/ f[k] # g[k]}
Compare(f, g) == Differ(f, g) \cup Differ(g, f)

Pairs(f) == {[k |-> Text(k), v |-> Text(f[k])] : k \in DOMAIN f}
Names(S) == {Text(k) : k \in S}
Show(m) == [st |-> m.st, map |-> Pairs(m.map)]
ShowCompare(f, g) ==
  [only |-> <<Names(OnlyIn(f, g)), Names(OnlyIn(g, f))>>,
   full |-> <<Pairs([k \in Differ(f, g) |-> f[k]]), Pairs([k \in Differ(g, f) |-> g[k]])>>,
   keys |-> Names(Compare(f, g))]

(* Laws of the language that TLC checks on every enumerated line and file.     *)
LineLaws(s, C) ==
  LET a == Says(s, C)
      b == Says(<<" ">> \o s \o <<"\t">>, C) IN
  /\ a = b                                         \* space around a line is nothing
  /\ Says(Trim(s), C) = a
  /\ \A c \in C : Says(s \o <<c>> \o s, C) = a       \* comments say nothing
  /\ a.is = "assign" =>
       /\ Trim(a.key) = a.key /\ Trim(a.value) = a.value
       /\ First(a.key, C \cup {"="}) = 0 /\ First(a.value, C) = 0
       /\ Says(a.key \o <<"=">> \o a.value, C) = a   \* writing it back
FileLaws(f, g) ==
  /\ Compare(f, g) = Compare(g, f)
  /\ (Compare(f, g) = {}) <=> (f = g)
  /\ OnlyIn(f, g) \subseteq Compare(f, g)
  /\ \A k \in DOMAIN f \cap DOMAIN g : k \notin Compare(f, g) => f[k] = g[k]
=============================================================================
