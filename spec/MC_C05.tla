-------------------------------- MODULE MC_C05 -------------------------------
(* Styles: every one of the 8192 combinations of style flags, on command lines *)
(* of every shape.                                                             *)
EXTENDS MCBase
Flags == <<"long", "short", "dash", "slash", "ladj", "lnext", "sadj", "snext", "sticky", "guess", "lci", "sci", "disg">>
Descs == << <<Decl("f", "foo,f", "untyped0"), Decl("b", "bar,b", "string"), Decl("g", "food,g", "untyped0"),
              WithImp(Decl("x", "x", "string"), <<"i">>)>> >>
Lines0 == << <<"--foo", "v">>, <<"--ba=v">>, <<"-foo">>, <<"-fgb=v">>, <<"/b", "v">>, <<"/foo">> >>
Lines1 == Lines0 \o << <<"--bar=">>, <<"-BAR=1">>, <<"-bar", "w">>, <<"-b=v", "-f">>, <<"/BAR=2">>, <<"/fg">>, <<"-fv">>, <<"-fgbv">>, <<"--x">>, <<"-x">>,
               <<"--b", "-b", "1">>, <<"-Fb", "2">>, <<"---">>, <<"/", "-">>, <<"--foo=1">> >>
Lines == IF Deep = 1 THEN Lines1 ELSE Lines0
Size(h) == IF Len(h) < 13 THEN 2 ELSE 0
Build(h) ==
  LET st == Concat([i \in 1..13 |-> IF h[i] = 2 THEN <<Flags[i]>> ELSE <<>>]) IN
  Plain(<<DescRef(Descs, 1)>> \o MapSeq(Lines, LAMBDA l : CmdOp(1, st, l)))

(* theorem: a group of sticky short options means its members, one by one *)
RECURSIVE RunCmd(_, _)
RunCmd(cx, cs) == IF CmdDone(cs) THEN cs ELSE RunCmd(cx, CmdStep(cx, cs))
Sticky(st, g1, g2) ==
  LET cx == Context(MapSeq(Descs[1], MkOpt), CmdOp(1, st, <<>>))
      r1 == RunCmd(cx, CmdInit(g1))
      r2 == RunCmd(cx, CmdInit(g2))
      kv(cs) == MapSeq(cs.opts, LAMBDA o : <<o.k, o.v>>)
  IN r1.pc = r2.pc /\ kv(r1) = kv(r2)
StickyTheorem == \A st \in {<<>>, Unix \o <<"sci">>, NoGuess} :
  /\ Sticky(st, <<"-fg">>, <<"-f", "-g">>) /\ Sticky(st, <<"-fgf">>, <<"-f", "-g", "-f">>)
  /\ Sticky(st, <<"-fbv">>, <<"-f", "-bv">>) /\ Sticky(st, <<"-gfb", "v">>, <<"-g", "-f", "-b", "v">>)
  /\ Sticky(st, <<"-bfg">>, <<"--bar=fg">>)
ASSUME StickyTheorem
Next == MCNextOf(Size, Build)
ASSUME PrintT("D " \o ToJson(Descs))
=============================================================================
