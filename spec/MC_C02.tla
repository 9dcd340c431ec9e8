-------------------------------- MODULE MC_C02 -------------------------------
(* Conservation of tokens: short command lines over tokens of every shape.     *)
EXTENDS MCBase
Descs == <<
  <<Decl("f", "foo,f", "untyped0"), Decl("b", "bar,b", "string"), Multi(Decl("l", "lst,l", "vstring"))>>,
  <<Decl("t", "two,t", "two"), Decl("u", "up,u", "upto3"), WithImp(Decl("b", "bar,b", "string"), <<"i">>)>>,
  <<Decl("f", "foo,f", "switch"), Decl("g", "foobar,g", "int"), Decl("w", "w*", "string")>> >>
Words == <<"--foo", "--bar", "--bar=v", "--lst", "-f", "-b", "-fb=x", "-bv", "--", "v", "-", "--two", "--up=a", "-u", "-w",
           "--foob=1", "-ffg2", "--w1=a=b", "", "-fbx">>
Quick == <<1, 2, 3, 4, 5, 6, 7, 9, 10, 12, 13, 17>>
Toks == IF Deep = 1 THEN Words ELSE TLCEval([i \in 1..Len(Quick) |-> Words[Quick[i]]])
Styles == << <<>>, Unix \o <<"disg", "slash">> >>
NT == Len(Toks)
Size(h) == SizeHS(h, <<3, 2>>, NT, 3)
Build(h) ==
  LET st == Styles[h[2]] args == Picked(h, 2, Toks) IN
  Plain(<<DescRef(Descs, h[1]), CmdOp(1, st, args), Tolerant(CmdOp(1, st, args)),
          WithPos(Tolerant(CmdOp(1, st, args)), <<<<"lst", 1>>, <<"pp", -1>>>>), CollectOp(2, FALSE), CollectOp(3, TRUE)>>)
Next == MCNextOf(Size, Build)
ASSUME PrintT("D " \o ToJson(Descs))
=============================================================================
