-------------------------------- MODULE MC_C10 -------------------------------
(* The environment: every name and text of a few characters under every mapper *)
EXTENDS MCBase
Descs == << <<Decl("foo", "foo", "string"), Decl("bar", "bar", "string"), Decl("a", "a", "string")>> >>
Alpha == <<"P", "_", "=", "a", "X">>
Entries == <<"V_FOO=1", "V_BAR=a=b", "P_A=", "P_=z", "P_A.b==", "X=", "V_SAME=q", "=v", "P_a_B=7", "V_UNK=3">>
Maps == << <<"id", "">>, <<"table", "">>, <<"prefix", "P_">>, <<"prefix", "">>, <<"prefix", "P">>, <<"prefix", "P_a">>, <<"prefix", "p_">> >>
Size(h) == IF Len(h) = 0 THEN 2 ELSE IF h[1] = 1 THEN SizeHS(h, <<2>>, Len(Alpha), 4 + Deep) ELSE SizeHS(h, <<2>>, Len(Entries), 3)
Build(h) ==
  LET raw == Join(Picked(h, 1, Alpha), "")
      es == IF h[1] = 1 THEN <<IF Has(raw, "=") THEN raw ELSE raw \o "=v">> ELSE Picked(h, 1, Entries)
  IN Plain(<<DescRef(Descs, 1)>> \o MapSeq(Maps, LAMBDA mp : EnvOp(1, es, mp[1], mp[2])))
Next == MCNextOf(Size, Build)
ASSUME PrintT("D " \o ToJson(Descs))
=============================================================================
