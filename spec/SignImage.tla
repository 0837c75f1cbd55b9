------------------------------ MODULE SignImage ------------------------------
(* Pictures of the texts variable signs show: which texts there is a picture of, and what is in it.  Texts grow piece by piece. *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json
CONSTANTS Pieces, Begins, Longest
VARIABLES text, out, act
vars == <<text, out, act>>
View == <<text>>
Chars(s) == [i \in 1..Len(s) |-> SubSeq(s, i, i)]
Capital == [c \in {"a", "b", "c", "d", "e", "f", "g", "h", "i", "k", "l", "n", "o", "p", "r", "s", "t", "u", "v"} |->
  CASE c = "a" -> "A" [] c = "b" -> "B" [] c = "c" -> "C" [] c = "d" -> "D" [] c = "e" -> "E" [] c = "f" -> "F" [] c = "g" -> "G" [] c = "h" -> "H" [] c = "i" -> "I" [] c = "k" -> "K"
    [] c = "l" -> "L" [] c = "n" -> "N" [] c = "o" -> "O" [] c = "p" -> "P" [] c = "r" -> "R" [] c = "s" -> "S" [] c = "t" -> "T" [] c = "u" -> "U" [] c = "v" -> "V"]
Up(c) == IF c \in DOMAIN Capital THEN Capital[c] ELSE c
RECURSIVE Join(_)
Join(cs) == IF cs = <<>> THEN "" ELSE Head(cs) \o Join(Tail(cs))
Count(cs, c) == Cardinality({i \in 1..Len(cs) : cs[i] = c})

\* ---- what there is a picture of
Digits == {"0", "1", "2", "3", "4", "5", "6", "7", "8", "9"}
Letters == {"A", "B", "C", "D", "E", "F"}
Known(c) == Up(c) \in Digits \cup Letters
Singles == ("LAIVA_VASEN" :> <<"HARBOUR", 48>>) @@ ("LAIVA_OIKEA" :> <<"HARBOUR", 48>>) @@ ("RAMPPI" :> <<"RAMP", 48>>)
   @@ ("LENTOKONE_VASEN" :> <<"AIRPORT", 48>>) @@ ("LENTOKONE_OIKEA" :> <<"AIRPORT", 48>>) @@ ("LENTOKONE_YLOS" :> <<"AIRPORT", 48>>) @@ ("LENTOKONE_ALAS" :> <<"AIRPORT", 48>>)
   @@ ("NUOLI_VASEN" :> <<"ARROW_LEFT", 32>>) @@ ("NUOLI_OIKEA" :> <<"ARROW_RIGHT", 32>>) @@ ("NUOLI_YLOS" :> <<"ARROW_UP", 32>>) @@ ("NUOLI_ALAS" :> <<"ARROW_DOWN", 32>>)
   @@ ("NUOLI_VASENYLOS" :> <<"ARROW_TOP_LEFT", 32>>) @@ ("NUOLI_OIKEAYLOS" :> <<"ARROW_TOP_RIGHT", 32>>) @@ ("NUOLI_VASENALAS" :> <<"ARROW_BOTTOM_LEFT", 32>>) @@ ("NUOLI_OIKEAALAS" :> <<"ARROW_BOTTOM_RIGHT", 32>>)
\* a word before the text tells how it is framed
Frames == ("TIE_" :> "road") @@ ("VARATIE_" :> "detour") @@ ("VARAREITTI_" :> "diversion") @@ ("RAMPPI_" :> "road")
Symbol(c, frame) == [name |-> IF Up(c) \in Digits THEN "n" \o c ELSE Up(c), width |-> IF Up(c) \in Digits THEN 16 ELSE 20, frame |-> frame]
Begin(word, frame) == IF word = "RAMPPI_" THEN [name |-> "RAMP", width |-> 30, frame |-> "end"] ELSE [name |-> "BEGIN", width |-> 5, frame |-> "end"]
End == [name |-> "END", width |-> 5, frame |-> "end"]
Refused == [ok |-> FALSE]

\* ---- brackets may enclose the text, and are nowhere else
Enclosed(cs) == Len(cs) > 0 /\ cs[1] = "[" /\ cs[Len(cs)] = "]" /\ Count(cs, "[") = 1 /\ Count(cs, "]") = 1
Bare(cs) == IF Enclosed(cs) THEN SubSeq(cs, 2, Len(cs) - 1) ELSE cs
Symbols(cs) ==
  LET word == Join([i \in 1..Len(cs) |-> Up(cs[i])]) marks == {i \in 1..Len(cs) : cs[i] = "_"} IN
  IF word \in DOMAIN Singles THEN [ok |-> TRUE, s |-> <<[name |-> Singles[word][1], width |-> Singles[word][2], frame |-> "none"]>>]
  ELSE IF marks = {} THEN IF \A i \in 1..Len(cs) : Known(cs[i]) THEN [ok |-> TRUE, s |-> [i \in 1..Len(cs) |-> Symbol(cs[i], "none")]] ELSE Refused
  ELSE LET m == CHOOSE i \in marks : TRUE
           w == Join([i \in 1..m |-> Up(cs[i])])
           rest == SubSeq(cs, m + 1, Len(cs)) IN
       IF w \in DOMAIN Frames /\ \A i \in 1..Len(rest) : Known(rest[i])
       THEN [ok |-> TRUE, s |-> <<Begin(w, Frames[w])>> \o [i \in 1..Len(rest) |-> Symbol(rest[i], Frames[w])] \o <<End>>]
       ELSE Refused
Of(cs) == IF Count(cs, "[") + Count(cs, "]") > 0 \/ Len(cs) < 1 \/ Len(cs) > 30 \/ Count(cs, "_") > 1 THEN Refused ELSE Symbols(cs)
Picture(all) == CHOOSE r \in {Of(cs) : cs \in {TLCEval(Bare(all))}} : TRUE
RECURSIVE Widths(_)
Widths(s) == IF s = <<>> THEN 0 ELSE Head(s).width + Widths(Tail(s))
\* one symbol after the other
Placed(s) == [i \in 1..Len(s) |-> [name |-> s[i].name, x |-> Widths(SubSeq(s, 1, i - 1)), width |-> s[i].width, frame |-> s[i].frame]]
Answer(all) == CHOOSE r \in {IF ~p.ok THEN [status |-> 400, width |-> 0, uses |-> <<>>] ELSE [status |-> 200, width |-> Widths(p.s), uses |-> Placed(p.s)] : p \in {TLCEval(Picture(TLCEval(all)))}} : TRUE

RECURSIVE Flat(_)
Flat(ps) == IF ps = <<>> THEN <<>> ELSE Chars(Head(ps)) \o Flat(Tail(ps))
Init == text \in Begins /\ out = Answer(Flat(text)) /\ act = [op |-> "init"]
Steps(t) == IF Begins = {<<>>} THEN Len(t) < Longest ELSE (\E b \in Begins : Len(t) >= Len(b) /\ Len(t) < Len(b) + Longest /\ SubSeq(t, 1, Len(b)) = b)
Next == Steps(text) /\ \E p \in Pieces : /\ text' = Append(text, p) /\ act' = [op |-> "add", piece |-> p]
                                        /\ out' = Answer(Flat(text) \o Chars(p))
Spec == Init /\ [][Next]_vars
Obs == out
Emit == PrintT("@@" \o ToJson([s |-> View, a |-> act', t |-> View', o |-> Obs', l |-> TLCGet("level")]))
\* nothing overlaps, nothing is left between, and nothing sticks out
Tiled == LET a == out IN a.status = 200 => /\ a.uses # <<>> /\ a.uses[1].x = 0
   /\ \A i \in 1..Len(a.uses) : a.uses[i].x + a.uses[i].width = IF i = Len(a.uses) THEN a.width ELSE a.uses[i + 1].x
\* brackets round the whole change nothing
Brackets == \A cs \in {TLCEval(Flat(text))} : Count(cs, "[") + Count(cs, "]") = 0 => Answer(<<"[">> \o cs \o <<"]">>) = out
\* neither does the case of the letters
Case == \A cs \in {TLCEval([i \in 1..Len(Flat(text)) |-> Up(Flat(text)[i])])} : Answer(cs) = out

\* ---- the pieces
AllPieces == {"1", "2", "0", "3", "4", "5", "6", "7", "8", "9", "A", "b", "C", "d", "e", "F", "G", "g", "_", "[", "]", " ", "-", "TIE_", "Tie_", "VARATIE_", "varareitti_", "RAMPPI", "RAMPPI_", "NUOLI_", "nuoli_", "LAIVA_", "LENTOKONE_", "ROAD_", "SINGLE_", "BEGIN", "END", "VASEN", "Oikea", "YLOS", "ALAS", "alas", "1234567890", "12345678901234567890"}
FewPieces == {"1", "4", "8", "A", "f", "_", "[", "]", "TIE_", "VARATIE_", "Varareitti_", "RAMPPI_", "NUOLI_", "VASEN", "OIKEA", "YLOS", "alas", "1234567890"}
EmptyText == {<<>>}
SomeTexts == {<<"TIE_", "1">>, <<"RAMPPI_", "1", "A", "1">>, <<"1", "2", "1">>, <<"[", "VARATIE_", "3">>, <<"VARAREITTI_", "E", "e">>, <<"NUOLI_", "VASEN">>, <<"[", "1234567890", "1234567890", "123456789">>, <<"TIE_", "1234567890", "1234567890", "123">>, <<"LENTOKONE_">>, <<"1234567890", "1234567890", "1234567890">>, <<"]">>, <<"12", "[">>}
=============================================================================
