-------------------------------- MODULE MC_C24 -------------------------------
(* No history: questions in every order, with stores and notifications in      *)
(* between, then all of them once more.                                        *)
EXTENDS MCBase
Descs == << <<WithImp(Decl("f", "foo,f", "string"), <<"i">>), Notifies(Composing(Decl("l", "lst,l", "vstring"))), WithDef(Decl("n", "num", "int"), <<"1">>),
              Required(Decl("r", "req*", "string"))>>,
            <<Decl("x", "xx,x", "untyped0"), Throws(Decl("t", "foo,f", "string")), Decl("n2", "num", "int")>> >>
Qs == << CmdOp(1, <<>>, <<"--foo", "-la", "--req1=q">>), CmdOp(1, <<>>, <<"--fo=1", "--lst=2", "--num=bad">>), Tolerant(CmdOp(2, <<>>, <<"-xf", "v", "--un=1", "p">>)),
         CfgOp(1, "foo=1\n[req]\na=2", FALSE), CmdOp(2, <<>>, <<"--foo">>), EnvOp(2, <<"num=7", "foo=e">>, "id", ""), FindOp(1, "req", TRUE, FALSE, FALSE, TRUE),
         HelpOp(1), CfgOp(2, "num=zz\nnope=1\nlst=9", TRUE), CmdOp(1, <<"short", "slash", "snext", "sadj">>, <<"/l", "x", "/f">>) >>
NQ == Len(Qs)
IsParse(op) == op.op \in {"cmd", "cfg", "env"}
Late == WithDef(Decl("late", "a-rather-long-name,q", "string"), <<"d">>)
(* steps: a question; store the last parse into map 1 or 2; notify; show *)
Late2 == Decl("late2", "req1", "vstring")
NS == NQ + 10
RECURSIVE Steps2Ops(_, _, _)
Steps2Ops(steps, i, np) ==
  IF i > Len(steps) THEN <<>> ELSE
  LET s == steps[i]
      ops == IF s <= NQ THEN <<Qs[s]>>
             ELSE CASE s = NQ + 1 -> IF np = 0 THEN <<>> ELSE <<StoreOp(np, 1)>>
                    [] s = NQ + 2 -> IF np = 0 THEN <<>> ELSE <<StoreOp(np, 2)>>
                    [] s = NQ + 3 -> <<NotifyOp(1)>>
                    [] s = NQ + 4 -> IF np = 0 THEN <<>> ELSE <<StoreOp(1, 1), NotifyOp(2)>>
                    [] s = NQ + 5 -> <<DumpOp(2)>>
                    \* the description grows between two questions
                    [] s = NQ + 6 -> <<HelpOp(1), FindOp(1, "a-rather", TRUE, FALSE, FALSE, FALSE), AddOp(1, Late), HelpOp(1), ListOp(1),
                                       FindOp(1, "a-rather", TRUE, FALSE, FALSE, FALSE)>>
                    [] s = NQ + 7 -> <<HelpOp(1), GrpOp(1, 2), HelpOp(1), HelpOp(2), FindOp(1, "xx", FALSE, FALSE, FALSE, FALSE)>>
                    \* the same parse stored before and after; then looking for what is not there
                    [] s = NQ + 8 -> IF np = 0 THEN <<AddOp(1, Late2)>> ELSE <<StoreOp(np, 1), AddOp(1, Late2), StoreOp(np, 2), DumpOp(2)>>
                    [] s = NQ + 10 -> <<HelpOp(1), DcopyOp(1), VcopyOp(1), VassignOp(2, 1), HelpOp(1), DumpOp(2)>>
                    [] s = NQ + 9 -> <<GetOp(1, ""), GetOp(1, "none"), GetOp(2, "foo"), AsOp(2, "num", "int")>>
  IN ops \o Steps2Ops(steps, i + 1, IF s <= NQ /\ IsParse(Qs[s]) THEN np + 1 ELSE np)
Size(h) == SizeHS(h, <<>>, NS, 3 + Deep)
Build(h) ==
  LET steps == Picked(h, 0, TLCEval([i \in 1..NS |-> i]))
      ops == Steps2Ops(steps, 1, 0)
      again == SelectSeq(ops, LAMBDA o : o.op \in {"cmd", "cfg", "env", "find", "help"})
      np == Len(SelectSeq(ops, IsParse))
  IN Plain(<<DescRef(Descs, 1), DescRef(Descs, 2), VmOp(0), VmOp(0)>> \o ops \o again
           \o (IF np = 0 THEN <<>> ELSE <<ShowOp(1), ShowOp(np), StoreOp(np, 1)>>) \o <<GetOp(1, "none"), GetOp(2, "none"), DumpOp(2)>>)
Next == MCNextOf(Size, Build)
ASSUME PrintT("D " \o ToJson(Descs))
=============================================================================
