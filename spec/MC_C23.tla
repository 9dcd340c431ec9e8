-------------------------------- MODULE MC_C23 -------------------------------
(* Groups: every short program that adds options and descriptions to each      *)
(* other; the result is compared with the flat description.                    *)
EXTENDS MCBase
Pool == << WithDef(Decl("a", "aa,a", "string"), <<"d">>), Required(Decl("b", "bb,b", "string")), Multi(Decl("c", "aab", "vstring")) >>
Steps == << <<1, 1>>, <<2, 2>>, <<3, 3>>, <<1, 2>>, <<2, 1>>, <<2, 3>>, <<3, 1>>, <<12, 0>>, <<13, 0>>, <<23, 0>>, <<1, 3>>, <<3, 2>>, <<34, 0>>, <<4, 3>>, <<24, 0>>, <<4, 2>> >>   \* <<desc, option>> or <<grp>>
StepOp(s) == CASE s[1] = 12 -> GrpOp(1, 2) [] s[1] = 13 -> GrpOp(1, 3) [] s[1] = 23 -> GrpOp(2, 3) [] s[1] = 34 -> GrpOp(3, 4) [] s[1] = 24 -> GrpOp(2, 4) [] OTHER -> AddOp(s[1], Pool[s[2]])
(* what the descriptions have to begin with *)
Starts == << << <<>>, <<>>, <<>>, <<>> >>, << <<>>, <<Pool[2]>>, <<Pool[3]>>, <<Pool[1]>> >> >>
RECURSIVE Flat(_, _, _, _)
Flat(start, d, steps, i) == IF i = 0 THEN start[d] ELSE
  LET s == steps[i] before == Flat(start, d, steps, i - 1) IN
  IF s[1] = d THEN Append(before, Pool[s[2]])
  ELSE IF s[1] > 9 /\ (s[1] \div 10) = d THEN before \o Flat(start, s[1] % 10, steps, i - 1) ELSE before
Lines == << <<"--aa=1", "-b", "2">>, <<"--aab", "x", "--bb=y">>, <<"-a1", "z">> >>
Size(h) == SizeHS(h, <<2>>, Len(Steps), 3 + Deep)
Build(h) ==
  LET steps == Picked(h, 1, Steps)
      Mine(os, x) == MapSeq(os, LAMBDA o : [o EXCEPT !.id = @ \o x])
      start == Starts[h[1]]
      flat == Mine(Flat(start, 1, steps, Len(steps)), "'")
      ln == Lines[1 + ((Len(steps) + Len(flat)) % 3)]
  IN Plain([i \in 1..4 |-> DescOp(start[i])] \o MapSeq(steps, StepOp) \o <<DescOp(flat), ListOp(1), ListOp(2), ListOp(3), ListOp(4),
        FindOp(1, "aa", TRUE, FALSE, FALSE, TRUE), FindOp(5, "aa", TRUE, FALSE, FALSE, TRUE), FindOp(2, "-b", FALSE, FALSE, FALSE, TRUE),
        Tolerant(CmdOp(1, <<>>, ln)), Tolerant(CmdOp(5, <<>>, ln)), CmdOp(1, <<>>, ln), CmdOp(5, <<>>, ln), VmOp(0), VmOp(0), StoreOp(1, 1), StoreOp(2, 2), NotifyOp(1), NotifyOp(2), HelpOp(1), HelpOp(2),
        \* a copy goes its own way
        DcopyOp(1), AddOp(6, Decl("own", "own", "int")), GrpOp(6, 2), ListOp(6), ListOp(1), FindOp(1, "own", FALSE, FALSE, FALSE, TRUE), FindOp(6, "own", FALSE, FALSE, FALSE, TRUE), HelpOp(1)>>)
Next == MCNextOf(Size, Build)
=============================================================================
