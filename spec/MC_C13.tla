-------------------------------- MODULE MC_C13 -------------------------------
(* Defaults and implicit values: every combination of attributes, histories of *)
(* sources that give the option, give it bare, or do not give it.              *)
EXTENDS MCStore
Types == << <<"string", "d", "i">>, <<"int", "1", "2">>, <<"bool", "0", "1">>, <<"vstring", "d", "i">>, <<"stdostring", "d", "i">>, <<"switch", "0", "0">> >>
Mk(id, t, def, imp, comp) ==
  LET o0 == Decl(id, "xx,x", Types[t][1])
      o1 == IF def = "" \/ Types[t][1] = "switch" THEN o0 ELSE WithDef(o0, <<def>>)
      o2 == IF imp = "" \/ Types[t][1] = "switch" THEN o1 ELSE WithImp(o1, <<imp>>)
  IN IF comp THEN Composing(o2) ELSE o2
Attr == << <<FALSE, FALSE>>, <<TRUE, FALSE>>, <<FALSE, TRUE>>, <<TRUE, TRUE>> >>     \* default, implicit
DescOf(t, a, comp, second) ==
  LET def == IF Attr[a][1] THEN Types[t][2] ELSE ""
      imp == IF Attr[a][2] THEN Types[t][3] ELSE ""
      otherDef == CASE Types[t][1] = "int" -> "5" [] Types[t][1] = "bool" -> "1" [] OTHER -> "e"
  IN <<IF second THEN Mk("x2", t, IF Attr[a][1] THEN "" ELSE otherDef, imp, comp) ELSE Mk("x1", t, def, imp, comp),
       Decl(IF second THEN "y2" ELSE "y1", "yy", "untyped0")>>
Sources(d) == << CmdOp(d, <<>>, <<>>), CmdOp(d, <<>>, <<"--xx">>), CmdOp(d, <<>>, <<"--xx=1">>), CmdOp(d, <<>>, <<"-x", "--yy">>),
                 CfgOp(d, "xx=1", FALSE), CmdOp(d, <<>>, <<"--xx", "1">>), CfgOp(d, "xx=", FALSE), EnvOp(d, <<"xx=1">>, "id", "") >>
AllSources == Sources(1) \o Sources(2)
More == <<NotifyOp(1), ClearOp(1)>>
NS == Len(AllSources) + (IF Deep = 1 THEN 2 ELSE 1)
Size(h) == SizeHS(h, <<Len(Types), 4, 2>>, NS, 2 + Deep)
Build(h) ==
  Plain(<<DescOp(DescOf(h[1], h[2], h[3] = 2, FALSE)), DescOp(DescOf(h[1], h[2], h[3] = 2, TRUE)), VmOp(0)>>
        \o HistoryOps(Picked(h, 3, TLCEval([i \in 1..NS |-> i])), AllSources, More, 1) \o <<DumpOp(1), GetOp(1, "xx")>>)
Next == MCNextOf(Size, Build)
=============================================================================
