-------------------------------- MODULE MC_C04 -------------------------------
(* Positional tokens: every small positional description, tokens before and    *)
(* after the terminator.                                                       *)
EXTENDS MCBase
Descs == << <<Decl("x", "xx,x", "string"), Decl("f", "ff,f", "untyped0"), Decl("u", "up", "upto3"), Multi(Decl("p", "pp", "vstring")),
              Decl("q", "qq", "string")>> >>
Poss == << <<>>, <<<<"pp", 1>>>>, <<<<"pp", 2>>>>, <<<<"pp", -1>>>>, <<<<"qq", 1>>, <<"pp", 2>>>>, <<<<"qq", 1>>, <<"pp", -1>>>>,
           <<<<"pp", 2>>, <<"qq", 1>>, <<"nn", -1>>>>, <<<<"pp", 1>>, <<"qq", 1>>, <<"pp", 1>>>> >>
Words == <<"v", "w", "--", "--xx", "-f", "--up", "-", "--xx=1", "", "-q", "--up=2", "-fx">>
NT == IF Deep = 1 THEN 12 ELSE 7
Toks == SubSeq(Words, 1, NT)
(* positional descriptions by themselves *)
Entries == <<<<"aa", 1>>, <<"aa", 2>>, <<"bb", 1>>, <<"bb", 3>>, <<"cc", 0>>>>
Ask == <<0, 1, 2, 3, 4, 5, 6, 9, 100, 999999>>
Size(h) == IF Len(h) = 0 THEN 2 ELSE IF h[1] = 1 THEN SizeHS(h, <<2>>, NT, 4) ELSE SizeHS(h, <<2, 3>>, Len(Entries), 4)
Build(h) ==
  IF h[1] = 1 THEN
    LET args == Picked(h, 1, Toks) IN
    Plain(<<DescRef(Descs, 1)>> \o MapSeq(Poss, LAMBDA p : WithPos(CmdOp(1, <<>>, args), p))
          \o <<CmdOp(1, <<>>, args), WithPos(Tolerant(CmdOp(1, <<>>, args)), Poss[5])>>)
  ELSE
    LET es == Picked(h, 2, Entries) t == <<<<"zz", -1>>>>
        half == Len(es) \div 2
        pos == CASE h[2] = 1 -> es [] h[2] = 2 -> es \o t [] h[2] = 3 -> SubSeq(es, 1, half) \o t \o SubSeq(es, half + 1, Len(es))
    IN Plain(<<PosOp(pos, Ask)>>)
Next == MCNextOf(Size, Build)
ASSUME PrintT("D " \o ToJson(Descs))
=============================================================================
