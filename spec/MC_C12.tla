-------------------------------- MODULE MC_C12 -------------------------------
(* Repeated and composing options: every kind of option, every short list of   *)
(* occurrences in the first source, a second source, and the first once more.  *)
EXTENDS MCBase
Kinds == << Decl("x", "xx,x", "vstring"), Multi(Decl("x", "xx,x", "vstring")), Decl("x", "xx,x", "vint"), Multi(Decl("x", "xx,x", "vtag")),
            Decl("x", "xx,x", "vbool"), Decl("x", "xx,x", "string"), Decl("x", "xx,x", "int"), Decl("x", "xx,x", "upto3"),
            WithImp(Decl("x", "xx,x", "vstring"), <<"i1", "i2">>), Multi(Decl("x", "xx,x", "string")), Decl("x", "xx,x", "two"),
            WithDef(Decl("x", "xx,x", "vstring"), <<"d">>), Decl("x", "xx,x", "untyped1"), Decl("x", "xx,x", "untyped0"), Decl("x", "xx,x", "stdostring") >>
Descs == TLCEval([i \in 1..(2 * Len(Kinds)) |->
            <<IF i > Len(Kinds) /\ Kinds[i - Len(Kinds)].t \notin {"untyped0", "untyped1"} THEN Composing(Kinds[i - Len(Kinds)]) ELSE Kinds[1 + ((i - 1) % Len(Kinds))], Decl("y", "yy,y", "untyped0")>>])
Words == <<"--xx", "1", "--xx=2", "-x3", "@t", "--yy", "-y", "--xx=@u">>
NT == IF Deep = 1 THEN 8 ELSE 5
Seconds == << CfgOp(1, "xx=7\nxx=8", FALSE), CmdOp(1, <<>>, <<"--xx=@9">>), CmdOp(1, <<>>, <<>>), EnvOp(1, <<"xx=1">>, "id", ""), MakeOp(1, "long", <<Made1("xx", <<"1", "2">>)>>),
              MakeOp(1, "long", <<Made1("xx", <<>>), Made1("xx", <<"1">>)>>) >>
Size(h) == SizeHS(h, <<2 * Len(Kinds), Len(Seconds)>>, NT, 3)
Build(h) ==
  LET args == Picked(h, 2, SubSeq(Words, 1, NT)) IN
  Plain(<<DescRef(Descs, h[1]), CmdOp(1, <<>>, args), Seconds[h[2]], VmOp(0), StoreOp(1, 1), StoreOp(2, 1), StoreOp(1, 1),
          VmOp(0), StoreOp(2, 2), StoreOp(1, 2), DumpOp(1)>>)
Next == MCNextOf(Size, Build)
ASSUME PrintT("D " \o ToJson(Descs))
=============================================================================
