-------------------------------- MODULE MC_C15 -------------------------------
(* Notification: options with notifiers, targets, both, a throwing notifier.   *)
EXTENDS MCStore
Descs == <<
  <<Notifies(Decl("aa1", "aa", "string")), Notifies(StoresTo(WithDef(Decl("bb1", "bb,b", "string"), <<"d">>))), StoresTo(Decl("cc1", "cc", "int")),
    Notifies(Composing(Decl("vv1", "vv", "vstring"))), Decl("u", "uu", "untyped1"), Notifies(Decl("w", "w*", "string"))>>,
  <<Notifies(Decl("aa2", "aa", "string")), Decl("bb2", "bb,b", "string"), Throws(Decl("dd2", "dd", "string")),
    StoresTo(Notifies(Decl("cc2", "cc", "int"))), Notifies(Composing(Decl("vv2", "vv", "vstring")))>>,
  <<StoresTo(Notifies(Decl("t1", "sw", "switch"))), StoresTo(Decl("t2", "bo", "bool")), StoresTo(Composing(Notifies(Decl("t3", "vi", "vint")))),
    StoresTo(WithImp(Decl("t4", "op", "ostring"), <<"oi">>)), StoresTo(Decl("t5", "ch,c", "char")), StoresTo(Decl("t6", "ws", "wstring"))>> >>
Sources == <<CmdOp(1, <<>>, <<"--aa=1", "--vv=1">>), CmdOp(1, <<>>, <<"-b2", "--cc=3", "--uu=0">>), CmdOp(2, <<>>, <<"--aa=4", "--cc=5">>),
             CmdOp(2, <<>>, <<"--dd=6">>), CmdOp(1, <<>>, <<>>), CfgOp(2, "vv=2\nbb=q", FALSE), CfgOp(1, "w2=b\nw1=a\ncc=zz", FALSE),
             CmdOp(3, <<>>, <<"--sw", "--bo=yes", "--vi=4", "--op", "-cx", "--ws=w", "--vi=5">>)>>
More == <<NotifyOp(1), PutOp(1, "aa", "p", FALSE), PutOp(1, "own", "p", TRUE), ClearOp(1)>>
NS == Len(Sources) + Len(More)
Size(h) == SizeHS(h, <<>>, NS, 3 + Deep)
Build(h) == Plain(<<DescRef(Descs, 1), DescRef(Descs, 2), DescRef(Descs, 3), VmOp(0)>>
                  \o HistoryOps(Picked(h, 0, TLCEval([i \in 1..NS |-> i])), Sources, More, 1) \o <<NotifyOp(1), NotifyOp(1), DumpOp(1)>>)
Next == MCNextOf(Size, Build)
ASSUME PrintT("D " \o ToJson(Descs))
=============================================================================
