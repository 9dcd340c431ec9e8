-------------------------------- MODULE MC_C14 -------------------------------
(* Required options: declared in several descriptions, provided (or not) by    *)
(* several sources, spelled in several styles.                                 *)
EXTENDS MCStore
Descs == <<
  <<Required(Decl("aa1", "aa", "string")), Decl("bb1", "bb,b", "string"), Required(Decl("c1", ",c", "string"))>>,
  <<Required(Decl("bb2", "bb,b", "string")), Decl("aa2", "aa", "string"), Decl("c2", ",c", "string")>>,
  <<Required(WithDef(Decl("bb3", "bb,b", "string"), <<"d">>)), Required(Composing(Decl("zz3", "zz", "vstring"))), Decl("aa3", "aa", "string")>> >>
Sources == <<CmdOp(1, <<>>, <<>>), CmdOp(1, <<>>, <<"--aa=1", "-c", "2">>), CfgOp(2, "", FALSE), CfgOp(2, "aa=1\nbb=2", FALSE),
             CmdOp(2, <<"disg", "ladj", "lnext">>, <<"-bb", "3">>), CmdOp(2, <<"short", "slash", "snext">>, <<>>),
             CmdOp(3, <<>>, <<"--aa=7">>), CmdOp(3, <<>>, <<"--zz=1">>), Tolerant(CmdOp(1, <<>>, <<"-c1">>)), EnvOp(1, <<"aa=1">>, "id", "")>>
More == <<NotifyOp(1), ClearOp(1), PutOp(1, "bb", "p", FALSE)>>
NS == Len(Sources) + Len(More)
Size(h) == SizeHS(h, <<>>, NS, 3 + Deep)
Build(h) == Worded(<<DescRef(Descs, 1), DescRef(Descs, 2), DescRef(Descs, 3), VmOp(0)>>
                   \o HistoryOps(Picked(h, 0, TLCEval([i \in 1..NS |-> i])), Sources, More, 1) \o <<NotifyOp(1)>>)
Next == MCNextOf(Size, Build)
ASSUME PrintT("D " \o ToJson(Descs))
=============================================================================
