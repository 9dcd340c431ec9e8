-------------------------------- MODULE MC_C07 -------------------------------
(* User parsers of tokens and of token sequences.                              *)
EXTENDS MCBase
Descs == << <<Decl("f", "foo,f", "untyped0"), Decl("b", "bar,b", "string"), Decl("file", "file", "string"), Decl("z", "zz,z", "bool")>>,
            <<WithImp(Decl("f", "foo,f", "int"), <<"5">>), Decl("b", "barn,b", "two"), Multi(Decl("file", "file", "vstring"))>> >>
Kinds == << <<"at", "">>, <<"no", "">>, <<"colon", "">>, <<"bad", "">>, <<"sh", "">>, <<"", "at2">>, <<"", "plus">>, <<"", "pair">>,
            <<"", "stop">>, <<"", "drop">>, <<"", "two">>, <<"at", "pair">>, <<"sh", "plus">>, <<"bare", "">>, <<"", "bare">>, <<"", "grow">>, <<"bare", "grow">> >>
Words == <<"@v", "--no-zz", "foo:1", "bar:", "!x", "+f", "+fb", "%%", "-drop", "^v", "--bar", "v", "--", "+b1", "--foo", "nn:1", "@", "--no-f", "foo", "bar", "%x", "%y", "%z">>
(* the tokens that matter to each kind *)
Own == << {1, 17, 11, 12, 13}, {2, 18, 11, 12, 13}, {3, 4, 16, 11, 12}, {5, 11, 12, 13}, {6, 7, 14, 11, 12, 13}, {1, 17, 11, 12, 13},
          {6, 7, 14, 11, 12, 13}, {3, 4, 16, 11, 12}, {8, 11, 12, 13}, {9, 11, 12, 13}, {10, 11, 12, 13}, {1, 3, 4, 11, 12}, {6, 7, 11, 12, 14}, {11, 12, 13, 19, 20}, {11, 12, 13, 15, 19, 20}, {11, 12, 13, 21, 22, 23}, {11, 12, 19, 21, 22, 23} >>
All == Strs(<<"">>, 0)
TokensOf(kind) == IF Deep = 1 THEN Words ELSE [i \in 1..Cardinality(Own[kind]) |->
     Words[CHOOSE x \in Own[kind] : Cardinality({y \in Own[kind] : y < x}) = i - 1]]
Size(h) == IF Len(h) = 0 THEN Len(Kinds) ELSE SizeHS(h, <<Len(Kinds), 2>>, Len(TokensOf(h[1])), 3)
Build(h) ==
  LET kd == Kinds[h[1]]
      args == Picked(h, 2, TokensOf(h[1]))
      U(c) == [c EXCEPT !.extra = kd[1], !.sx = kd[2]]
  IN Plain(<<DescRef(Descs, h[2]), U(CmdOp(1, <<>>, args)), U(Tolerant(CmdOp(1, <<>>, args))),
             U(WithPos(CmdOp(1, Unix \o <<"disg">>, args), <<<<"bar", 1>>>>))>>)
Next == MCNextOf(Size, Build)
ASSUME PrintT("D " \o ToJson(Descs))
=============================================================================
