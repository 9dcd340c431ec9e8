-------------------------------- MODULE MC_C18 -------------------------------
(* Messages: every kind of error, in every spelling of options, provoked by    *)
(* texts that contain the placeholders of the message templates.               *)
EXTENDS MCBase
Descs == << <<Decl("foo", "foo,f", "int"), Decl("foob", "foobar,F", "untyped0"), Decl("v", "%value%,v", "bool"), Required(Decl("p", "%prefix%x", "string")),
              Multi(Decl("m", "multi,m", "vint")), Decl("s", "single", "string"), Decl("q", ",q", "untyped1"), Decl("w", "w*", "char"),
              Decl("o", "%option%", "tag"), Decl("d1", "dup", "string"), Decl("d2", "dup", "string"), Decl("d3", "dupl", "string")>> >>
Words == <<"--foo", "--fo", "--foo=%value%", "--%value%=%canonical_option%", "--nope%option%", "-f", "-fv", "-q1", "--single=%", "%prefix%", "--w%x=%value%",
           "--multi=%%", "/f", "/nope", "-fo", "--foobar=1", "--dup=1", "-Q", "--%prefix%x=1", "--%option%=%option%", "--=", "--foo=", "-%x", "--", "-m1", "--du">>
Styles == << <<>>, Unix \o <<"disg">>, <<"short", "dash", "sadj", "snext">>, <<"short", "slash", "sadj", "snext">>, <<"disg", "ladj", "lnext", "guess">>,
             Unix \o <<"lci", "sci", "slash">> >>
NT == Len(Words)
CfgLines == <<"foo=%value%", "%canonical_option%=1", "[%value%", "%invalid_line%", "foo", "%value%=x", "dup=1", "%option%=%value%", "[%]\n%=1">>
(* repeated options, some of them without a token of their own *)
Descs2 == << <<Decl("f", "foo,f", "untyped0"), Decl("g", "glow,g", "untyped0"), Required(Decl("s", "%s,s", "string")), Decl("i", "num,n", "int"),
               Decl("t", "two", "two"), Decl("z", "zz,z", "upto3z")>> >>
Words2 == <<"-ff", "-fg", "-g", "-s%value%", "-gn7", "-nx", "v", "--two", "--glow", "--%s=b", "--num=%", "-z", "/f">>
(* errors made by the program *)
SynKinds == <<"long_not_allowed", "long_adjacent_not_allowed", "short_adjacent_not_allowed", "empty_adjacent_parameter", "missing_parameter", "extra_parameter",
              "unrecognized_line">>
ValKinds == <<"multiple_values_not_allowed", "at_least_one_value_required", "invalid_bool_value", "invalid_option_value", "invalid_option">>
Classes == MapSeq(SynKinds, LAMBDA x : <<"cmdsyntax", x>>) \o MapSeq(SynKinds, LAMBDA x : <<"syntax", x>>) \o MapSeq(ValKinds, LAMBDA x : <<"validation", x>>)
           \o <<<<"cfgsyntax", "unrecognized_line">>, <<"cfgsyntax", "missing_parameter">>>>
           \o MapSeq(<<"unknown", "ambiguous", "multivalues", "multioccur", "required", "boolvalue", "optvalue", "custom", "toomany", "readfile", "style", "error">>,
                     LAMBDA x : <<x, "">>)
Ctxs == <<<<"foo", "--fo", "long">>, <<"foo", "", "long">>, <<"foo", "-fx", "dash">>, <<"foo", "/f", "slash">>, <<"-f", "-f", "dash">>, <<"--foo", "-foo", "disguise">>,
          <<"", "%value%", "">>, <<"%canonical_option%", "--%prefix%", "long">>, <<"foo", "foo=1", "">>, <<"", "", "">>, <<"foo", "", "dash">>, <<"", "--foo", "long">>,
          <<"foo", "--", "dash">>>>
Texts == <<"v", "%", "", "%canonical_option%", "a'b", Chr(195) \o Chr(169), "%value%">>
Alts == << <<"a">>, <<"foo", "foobar">>, <<"dup", "dup">>, <<"%value%", "b", "c">>, <<"x", "x", "y">>, <<"c", "b", "a", "B">>, <<"--q", "%prefix%">> >>
Msgs == <<"", "%canonical_option%", "m", "custom '%canonical_option%' of %value% %prefix%|%option%|%original_token%", "option '%canonical_option%' %% argument ('%value%')",
          "50% of %value", "%prefix%%prefix%%value%">>
Subs == << <<>>, <<<<"value", "%prefix%">>>>, <<<<"value", "1">>, <<"value", "2">>>>, <<<<"prefix", "p">>, <<"canonical_option", "c">>, <<"invalid_line", "l">>>>,
           <<<<"value", "">>, <<"option", "o">>>>, <<<<"original_token", "-t">>>> >>
Dfls == << <<>>, <<<<"value", "%value%", "none">>>>, <<<<"x", "%value%", "%x%">>, <<"a", "option", "option option">>>>, <<<<"prefix", "%prefix%", "no%option%">>>>,
           <<<<"canonical_option", "%canonical_option%", "?">>, <<"invalid_line", "'", "''">>>>, <<<<"option", "option", "">>, <<"option", "e", "">>>>, <<<<"value", "argument", "%">>>> >>
ErrAt(c, ctx, j) ==
  LET e == ErrOp(c[1], c[2], ctx)
      i == Ctxs[1 + ((j * 5) % Len(Ctxs))]
      own == [e EXCEPT !.opt = i[1], !.tok = i[2], !.pre = i[3]]
  IN [own EXCEPT !.val = Texts[j], !.line = Texts[1 + ((j + 2) % 7)], !.alts = Alts[j], !.msg = Msgs[j], !.wide = (j % 2 = 0)]
Size(h) == IF Len(h) = 0 THEN 4 ELSE IF h[1] = 1 THEN SizeHS(h, <<4, Len(Styles)>>, NT, 2 + Deep)
           ELSE IF h[1] = 2 THEN SizeHS(h, <<4>>, Len(CfgLines), 2)
           ELSE IF h[1] = 3 THEN SizeHS(h, <<4, 4>>, IF Deep = 1 THEN Len(Words2) ELSE 8, 3)
           ELSE SizeHS(h, <<4, Len(Classes)>>, Len(Ctxs), 1 + Deep)
Styles2 == << <<>>, <<"short", "dash", "sadj", "snext", "sticky">>, <<"short", "slash", "dash", "sadj", "snext", "sticky">>, <<"disg", "short", "dash", "ladj", "sadj", "snext", "sticky">> >>
Build(h) ==
  CASE h[1] = 1 ->
    LET st == Styles[h[2]] args == Picked(h, 2, Words) IN
    Worded(<<DescRef(Descs \o Descs2, 1), CmdOp(1, st, args), WithPos(CmdOp(1, st, args), <<<<"single", 1>>>>), VmOp(0), StoreOp(1, 1), NotifyOp(1), VmOp(0), StoreOp(2, 2)>>)
  [] h[1] = 2 -> LET t == Join(Picked(h, 1, CfgLines), "\n") IN
    Worded(<<DescOp(SubSeq(Descs[1], 1, 6)), CfgOp(1, t, FALSE), CfgOp(1, t, TRUE), VmOp(0), StoreOp(1, 1), StoreOp(2, 1), NotifyOp(1)>>)
  [] h[1] = 3 ->
    LET c == CmdOp(1, Styles2[h[2]], Picked(h, 2, Words2)) IN
    Worded(<<DescRef(Descs \o Descs2, 2), c, WithPos(c, <<<<"num", 1>>, <<"glow", -1>>>>), VmOp(0), StoreOp(1, 1), NotifyOp(1), VmOp(0), StoreOp(2, 2), NotifyOp(2)>>)
  [] h[1] = 4 ->
    LET c == Classes[h[2]] ctx == Picked(h, 2, Ctxs) s0 == h[2] + Len(ctx) + (IF ctx = <<>> THEN 0 ELSE h[3]) IN
    Worded([j \in 1..14 |-> LET i == 1 + ((j - 1) % 7) IN
             [ErrAt(c, ctx, i) EXCEPT !.subs = Subs[1 + ((j + s0) % Len(Subs))], !.dfl = IF j <= 7 THEN <<>> ELSE Dfls[1 + ((j + s0 + h[2]) % 7)]]])
Next == MCNextOf(Size, Build)
ASSUME PrintT("D " \o ToJson(Descs \o Descs2))
=============================================================================
