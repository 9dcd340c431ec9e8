-------------------------------- MODULE MC_C22 -------------------------------
(* split_winmain: every short text over quotes, backslashes, blanks, letters.  *)
EXTENDS MCBase
Alpha == <<"\"", "\\", " ", "a", "\t">>
NA == 4 + (1 - Deep)
Size(h) == SizeHS(h, <<>>, NA, 6 + 3 * Deep)
Build(h) == Plain(<<SplitOp("win", Join(Picked(h, 0, SubSeq(Alpha, 1, NA)), ""), "", "", "")>>)
Args == Range(Strs(<<"a", " ", "\"", "\\">>, 3))
ASSUME \A a \in Args, b \in {"", "x", "\\", "\"", " "} : SplitWin(WinQuote(<<a, b>>)) = <<a, b>>
Next == MCNextOf(Size, Build)
=============================================================================
