-------------------------------- MODULE MC_C06 -------------------------------
(* Unknown options: rejected, or handed back; and what is handed back can be   *)
(* parsed again by somebody else.                                              *)
EXTENDS MCBase
Descs == << <<Decl("f", "foo,f", "untyped0"), Decl("b", "bar,b", "string")>>,
            <<Decl("u", "unk,u", "untyped0"), Decl("v", "val", "string"), Multi(Decl("p", "pp", "vstring"))>> >>
Words == <<"--foo", "--bar", "w", "--unk", "--val=1", "-u", "-fu", "--", "-bx", "-", "-uf", "--un", "/u", "", "--val">>
NT == IF Deep = 1 THEN 15 ELSE 12
Toks == SubSeq(Words, 1, NT)
Styles == << <<>>, Unix \o <<"disg", "slash">> >>
(* records of every standing, made by the program *)
Recs == Concat([u \in 1..2 |-> Concat([p \in 1..3 |-> [q \in 1..3 |->
           [k |-> "foo", pos |-> <<-1, 0, 1000000>>[p], v |-> <<"v">>, t |-> << <<>>, <<"a">>, <<"--b", "c">> >>[q], un |-> u = 1, ci |-> FALSE]]])])
Size(h) == IF Len(h) = 0 THEN 3 ELSE IF h[1] = 3 THEN SizeHS(h, <<3>>, Len(Recs), 2 + Deep) ELSE SizeHS(h, <<3>>, NT, 3 + Deep)
Build(h) ==
  IF h[1] = 3 THEN
     LET rs == Picked(h, 1, Recs) IN
     Plain(<<DescRef(Descs, 1), DescRef(Descs, 2), MakeOp(1, "long", rs \o <<Recs[1 + (Len(h) % Len(Recs))]>>), CollectOp(1, FALSE), CollectOp(1, TRUE),
             RestOf(Tolerant(CmdOp(2, <<>>, <<>>)), 1, TRUE)>>)
  ELSE
  LET st == Styles[h[1]] args == Picked(h, 1, Toks) IN
  Plain(<<DescRef(Descs, 1), DescRef(Descs, 2), CmdOp(1, st, args), Tolerant(CmdOp(1, st, args)), CollectOp(2, FALSE), CollectOp(2, TRUE),
          WithPos(Tolerant(CmdOp(1, st, args)), <<<<"foo", 1>>, <<"rest", -1>>>>), CollectOp(3, TRUE), CmdOp(2, st, args),
          RestOf(CmdOp(2, <<>>, <<>>), 2, FALSE), RestOf(Tolerant(CmdOp(2, st, <<>>)), 2, TRUE), CollectOp(6, TRUE)>>)
Next == MCNextOf(Size, Build)
ASSUME PrintT("D " \o ToJson(Descs))
=============================================================================
