------------------------------- MODULE PoSplit -----------------------------
(* Splitting a command line into tokens.                                     *)
EXTENDS PoStr

(* ---- Unix: one character per step ------------------------------------------ *)
UnixInit == [pc |-> "go", i |-> 1, cur |-> "", quoted |-> FALSE, out |-> <<>>, err |-> ""]
Flush(u) == [u EXCEPT !.out = IF u.cur = "" THEN @ ELSE Append(@, u.cur), !.cur = ""]
UnixStep(s, sep, quote, esc, u) ==
  LET c == Ch(s, u.i)
      n == IF u.i < Len(s) THEN Ch(s, u.i + 1) ELSE ""
      go == [u EXCEPT !.i = @ + 1]
  IN IF u.i > Len(s) THEN [Flush(u) EXCEPT !.pc = "done"]
     ELSE IF Has(esc, c) THEN
          IF n = "" THEN [u EXCEPT !.pc = "done", !.err = "cannot end with escape"]
          ELSE IF n = "n" THEN [u EXCEPT !.i = @ + 2, !.cur = @ \o "\n"]
          ELSE IF Has(quote, n) \/ Has(sep, n) \/ Has(esc, n)
               THEN [u EXCEPT !.i = @ + 2, !.cur = @ \o n]
          ELSE [u EXCEPT !.pc = "done", !.err = "unknown escape sequence"]
     ELSE IF Has(sep, c) THEN (IF u.quoted THEN [go EXCEPT !.cur = @ \o c] ELSE Flush(go))
     ELSE IF Has(quote, c) THEN [go EXCEPT !.quoted = ~@]
     ELSE [go EXCEPT !.cur = @ \o c]
RECURSIVE UnixRun(_, _, _, _, _)
UnixRun(s, sep, quote, esc, u) ==
  IF u.pc = "done" THEN u ELSE UnixRun(s, sep, quote, esc, UnixStep(s, sep, quote, esc, u))
SplitUnix(s, sep, quote, esc) ==
  LET u == UnixRun(s, sep, quote, esc, UnixInit)
  IN [err |-> u.err, out |-> IF u.err = "" THEN u.out ELSE <<>>]

(* ---- Windows: one run of backslashes, quote, blank or character per step ---- *)
Blank == {" ", "\t", "\n", "\r", "\f", Chr(11)}
RECURSIVE Repeat(_, _)
Repeat(c, n) == IF n <= 0 THEN "" ELSE c \o Repeat(c, n - 1)
RECURSIVE RunLen(_, _, _)
RunLen(s, i, c) == IF i <= Len(s) /\ Ch(s, i) = c THEN 1 + RunLen(s, i + 1, c) ELSE 0
RECURSIVE SkipBlank(_, _)
SkipBlank(s, i) == IF i <= Len(s) /\ Ch(s, i) \in Blank THEN SkipBlank(s, i + 1) ELSE i

(* any: the current argument exists even if empty (it contains a quote)         *)
WinInit(s) == [pc |-> "go", i |-> SkipBlank(s, 1), cur |-> "", quoted |-> FALSE,
               any |-> FALSE, out |-> <<>>]
WinStep(s, w) ==
  LET c == Ch(s, w.i)
      b == RunLen(s, w.i, "\\")
      q == w.i + b <= Len(s) /\ Ch(s, w.i + b) = "\""
  IN IF w.i > Len(s)
     THEN [w EXCEPT !.pc = "done", !.out = IF w.cur # "" \/ w.any THEN Append(@, w.cur) ELSE @]
     ELSE IF b > 0 /\ q THEN       \* backslashes before a quote
          LET t == w.cur \o Repeat("\\", b \div 2) IN
          IF b % 2 = 1 THEN [w EXCEPT !.i = @ + b + 1, !.cur = t \o "\""]
          ELSE [w EXCEPT !.i = @ + b, !.cur = t]
     ELSE IF b > 0 THEN [w EXCEPT !.i = @ + b, !.cur = @ \o Repeat("\\", b)]
     ELSE IF c = "\"" THEN [w EXCEPT !.i = @ + 1, !.quoted = ~@, !.any = TRUE]
     ELSE IF c \in Blank /\ ~w.quoted
     THEN [w EXCEPT !.i = SkipBlank(s, @), !.out = Append(@, w.cur), !.cur = "", !.any = FALSE]
     ELSE [w EXCEPT !.i = @ + 1, !.cur = @ \o c]
RECURSIVE WinRun(_, _)
WinRun(s, w) == IF w.pc = "done" THEN w ELSE WinRun(s, WinStep(s, w))
SplitWin(s) == WinRun(s, WinInit(s)).out
(* the number of backslashes that end at position i *)
RECURSIVE TrailRun(_, _)
TrailRun(s, i) == IF i >= 1 /\ Ch(s, i) = "\\" THEN 1 + TrailRun(s, i - 1) ELSE 0
(* pieces between blanks *)
RECURSIVE BlankPiecesRec(_, _, _)
BlankPiecesRec(s, i, cur) ==
  IF i > Len(s) THEN <<cur>>
  ELSE IF Ch(s, i) \in Blank THEN <<cur>> \o BlankPiecesRec(s, i + 1, "")
  ELSE BlankPiecesRec(s, i + 1, cur \o Ch(s, i))
WinBlankPieces(s) == BlankPiecesRec(s, 1, "")
=============================================================================
