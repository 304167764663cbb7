------------------------------ MODULE LineTable ------------------------------
(* Every line of at most N characters and what it says.                        *)
EXTENDS ConfigText
CONSTANTS N, Alphabet, Marks
Chars == Alphabet \cup {"\t"}      \* the configuration cannot write a tab
VARIABLE line
Init == line = <<>>
Next == Len(line) < N /\ \E c \in Chars : line' = Append(line, c)
Out == LET s == Says(line, Marks) IN
  [line |-> Text(line), is |-> s.is,
   key |-> IF s.is = "assign" THEN Text(s.key) ELSE "",
   value |-> IF s.is = "assign" THEN Text(s.value) ELSE ""]
Inv == LineLaws(line, Marks) /\ PrintT("@@" \o ToJson(Out))
=============================================================================
