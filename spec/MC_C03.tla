-------------------------------- MODULE MC_C03 -------------------------------
(* Arity: every value kind, attached and separate values, following options.   *)
EXTENDS MCBase
Kinds == << Decl("x", "xx,x", "untyped0"), Decl("x", "xx,x", "untyped1"), Decl("x", "xx,x", "string"), Decl("x", "xx,x", "two"),
            Decl("x", "xx,x", "upto3"), Decl("x", "xx,x", "upto3z"), Multi(Decl("x", "xx,x", "vstring")), WithImp(Decl("x", "xx,x", "string"), <<"i">>),
            WithImp(Multi(Decl("x", "xx,x", "vint")), <<"4">>), Decl("x", "xx,x", "switch"),
            [Decl("x", "xx,x", "bool") EXCEPT !.zero = TRUE], [Multi(Decl("x", "xx,x", "vstring")) EXCEPT !.zero = TRUE],
            Decl("x", "xx,x", "vstring") >>
Descs == TLCEval([i \in 1..Len(Kinds) |-> <<Kinds[i], Decl("y", "yy,y", "untyped0"), Multi(Decl("z", "zz,z", "vstring"))>>])
Words == <<"--xx", "-x", "--xx=v", "-xv", "v", "7", "-y", "--zz", "--", "-yx", "--yy=1", "-q", "", "--zz=1", "-z2">>
NT == IF Deep = 1 THEN 15 ELSE 10
Toks == SubSeq(Words, 1, NT)
L == 3 + Deep
Size(h) == SizeHS(h, <<Len(Kinds)>>, NT, L)
Build(h) ==
  LET args == Picked(h, 1, Toks) IN
  Plain(<<DescRef(Descs, h[1]), CmdOp(1, <<>>, args), Tolerant(CmdOp(1, <<>>, args)),
          WithPos(CmdOp(1, Unix \o <<"slash">>, args), <<<<"zz", -1>>>>)>>)
Next == MCNextOf(Size, Build)
ASSUME PrintT("D " \o ToJson(Descs))
=============================================================================
