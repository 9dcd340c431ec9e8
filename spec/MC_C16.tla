-------------------------------- MODULE MC_C16 -------------------------------
(* Chained maps: every content of two names in up to three maps, every way to  *)
(* chain them (and to chain them again).                                       *)
EXTENDS MCBase
Descs == << <<WithDef(Decl("x", "xx", "string"), <<"d">>), Decl("n", "nn", "int")>>, <<Decl("x2", "xx", "string"), WithDef(Decl("n2", "nn", "int"), <<"0">>)>> >>
(* what one map gets *)
Fill(c, mm) == CASE c = 1 -> <<>>
                 [] c = 2 -> <<StoreOp(1, mm)>>                        \* xx default
                 [] c = 3 -> <<StoreOp(2, mm)>>                        \* xx explicit, nn explicit
                 [] c = 4 -> <<PutOp(mm, "xx", "put", TRUE)>>
                 [] c = 5 -> <<PutOp(mm, "xx", "put", FALSE)>>
                 [] c = 6 -> <<StoreOp(3, mm)>>                        \* nn default
                 [] c = 7 -> <<StoreOp(4, mm)>>                        \* xx explicit, nn default
                 [] c = 8 -> <<StoreOp(1, mm), ClearOp(mm)>>
Chains == << <<>>, <<NextOp(1, 2)>>, <<NextOp(1, 2), NextOp(2, 3)>>, <<NextOp(1, 3)>>, <<NextOp(1, 2), NextOp(2, 3), NextOp(1, 3)>>,
             <<NextOp(1, 2), NextOp(1, 0)>>, <<NextOp(3, 2), NextOp(2, 1)>>, <<NextOp(2, 3), VassignOp(1, 2)>> >>
NF == 8
Size(h) == CASE Len(h) \in 0..2 -> NF [] Len(h) = 3 -> Len(Chains) [] Len(h) = 4 /\ Deep = 1 -> NF [] Len(h) = 5 -> 3 [] OTHER -> 0
Gets == <<GetOp(1, "xx"), GetOp(1, "nn"), GetOp(2, "xx"), GetOp(2, "nn"), GetOp(3, "xx"), GetOp(1, "other"), AsOp(1, "xx", "string"), AsOp(1, "nn", "int")>>
Build(h) ==
  Plain(<<DescRef(Descs, 1), DescRef(Descs, 2), CmdOp(1, <<>>, <<>>), CmdOp(1, <<>>, <<"--xx=1", "--nn=5">>), CmdOp(2, <<>>, <<>>),
          CmdOp(2, <<>>, <<"--xx=2">>), VmOp(0), VmOp(0), VmOp(0)>>
        \o Fill(h[1], 1) \o Fill(h[2], 2) \o Fill(h[3], 3) \o Chains[h[4]] \o Gets
        \o (IF Deep = 1 THEN Fill(h[5], h[6]) \o Gets ELSE <<>>)
        \o <<DumpOp(1), DumpOp(2), DumpOp(3), VcopyOp(1), NextOp(1, 0), GetOp(4, "xx"), GetOp(4, "nn"), GetOp(1, "nn")>>)
Next == MCNextOf(Size, Build)
ASSUME PrintT("D " \o ToJson(Descs))
=============================================================================
