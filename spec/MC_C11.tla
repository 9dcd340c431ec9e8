-------------------------------- MODULE MC_C11 -------------------------------
(* Precedence: every history of a few stores from many sources.                *)
EXTENDS MCStore
Descs == <<
  <<Decl("aa1", "aa", "string"), Decl("bb1", "bb", "vstring"), Composing(Decl("cc1", "cc,c", "vstring")),
    WithDef(Decl("dd1", "dd", "string"), <<"d1">>), Required(Decl("num1", "num", "int")), Decl("ee1", "ee", "string")>>,
  <<WithDef(Decl("aa2", "aa", "string"), <<"def">>), Decl("bb2", "bb", "vstring"), Decl("cc2", "cc,c", "vstring"),
    WithDef(Decl("dd2", "dd", "string"), <<"d2">>), Required(Decl("ee2", "ee", "string")), WithDef(Decl("num2", "num", "int"), <<"0">>)>> >>
Sources == <<CmdOp(1, <<>>, <<"--aa=1", "--num=5">>), CmdOp(2, <<>>, <<"--aa=2", "--bb=x">>), CfgOp(1, "bb=y\naa=3", FALSE),
             CmdOp(1, <<>>, <<"-c1", "--dd=e", "-c2">>), CmdOp(2, <<>>, <<"--cc=2">>), EnvOp(1, <<"aa=4", "num=7">>, "id", ""),
             CmdOp(1, <<>>, <<"--aa=9", "--cc=8", "--num=zz">>), CmdOp(2, <<>>, <<>>),
             Tolerant(CmdOp(1, <<>>, <<"--zz=1", "--bb=w">>)),
             MakeOp(2, "", <<Made1("bb", <<"m">>), [Made1("aa", <<"m">>) EXCEPT !.un = TRUE], Made1("cc", <<"m">>)>>),
             MakeOp(1, "long", <<Made1("num", <<"3">>), Made1("-c", <<"m">>), Made1("nosuch", <<"m">>), Made1("aa", <<"n">>)>>)>>
More == <<ClearOp(1), NotifyOp(1)>>
NS == Len(Sources) + Len(More)
Size(h) == SizeHS(h, <<>>, NS, 3 + Deep)
(* at the end: a copy of the map goes its own way, and the map itself is cleared *)
Build(h) ==
  LET steps == Picked(h, 0, TLCEval([i \in 1..NS |-> i]))
      np == Cardinality(Used(steps, Len(Sources)))
  IN Plain(<<DescRef(Descs, 1), DescRef(Descs, 2), VmOp(0)>> \o HistoryOps(steps, Sources, More, 1)
           \o <<VcopyOp(1), DumpOp(1), NotifyOp(1), ClearOp(1)>>
           \o (IF np = 0 THEN <<>> ELSE <<StoreOp(1, 2), StoreOp(np, 1)>>) \o <<DumpOp(2), NotifyOp(2), VassignOp(2, 1), NotifyOp(2)>>)
Next == MCNextOf(Size, Build)
ASSUME PrintT("D " \o ToJson(Descs))
=============================================================================
