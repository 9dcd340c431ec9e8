-------------------------------- MODULE MC_C21 -------------------------------
(* split_unix: every short text over separators, quotes, escapes and letters,  *)
(* with several choices of the special characters.                             *)
EXTENDS MCBase
Sets == << <<" \t", "'\"", "\\", <<" ", "'", "\"", "\\", "a", "n">> >>, <<",", "'", "^&", <<",", "'", "^", "&", "b", "n">> >>,
           <<"", "'", "\\", <<" ", "'", "\\", "x">> >>, <<" ", "", "", <<" ", "'", "\\", "y">> >>, <<" n", "'", "\\", <<" ", "n", "'", "\\", "z">> >> >>
Size(h) == IF Len(h) = 0 THEN Len(Sets) ELSE SizeHS(h, <<Len(Sets)>>, Len(Sets[h[1]][4]), 5 + Deep)
Build(h) == LET S == Sets[h[1]] IN Plain(<<SplitOp("unix", Join(Picked(h, 1, S[4]), ""), S[1], S[2], S[3])>>)
(* theorem: quoting arguments and splitting gives them back                     *)
QuoteUnix(a) == LET R[i \in 0..Len(a)] == IF i = 0 THEN "" ELSE R[i - 1] \o
                      (IF Ch(a, i) = "\n" THEN "\\n" ELSE IF Ch(a, i) \in {"\"", "'", "\\"} THEN "\\" \o Ch(a, i) ELSE Ch(a, i))
                IN "\"" \o R[Len(a)] \o "\""
Args == Range(Strs(<<"a", " ", "\"", "\\", "\n", "'">>, 2)) \ {""}
RECURSIVE SplitAll(_, _)
SplitAll(s, u) == IF u.pc = "done" THEN u ELSE SplitAll(s, UnixStep(s, " \t", "'\"", "\\", u))
ASSUME \A a, b \in Args : SplitAll(QuoteUnix(a) \o " " \o QuoteUnix(b), UnixInit).out = <<a, b>>
Next == MCNextOf(Size, Build)
=============================================================================
