-------------------------------- MODULE MC_C20 -------------------------------
(* Wide text: conversion of every short byte sequence and code point sequence, *)
(* at every offset to the piece boundary; command lines and files both ways.   *)
EXTENDS MCBase
BytesTab == <<65, 127, 128, 191, 192, 195, 169, 224, 228, 240, 247, 248, 252, 254, 255>>
Points == <<65, 127, 128, 233, 2047, 2048, 20013, 65535, 65536, 128512, 1114111>>
Pads == <<0, 29, 30, 31, 32, 63>>
Pad(n1, x) == IF n1 = 0 THEN <<>> ELSE TLCEval([i \in 1..n1 |-> x])
U1 == Chr(195) \o Chr(169)                     \* U+E9
U2 == Chr(228) \o Chr(184) \o Chr(173)         \* U+4E2D
U3 == Chr(240) \o Chr(159) \o Chr(152) \o Chr(128)
Words == <<"--ww=" \o U1, "--ss=" \o U2, "-w" \o U3, "--ww", "--ss", U1, U2 \o "x", "--" \o U1, "-" \o U2, "--ii=7", "--vv", "--", "--vv=" \o U1 \o "=" \o U3, "-b", "", "--nn=" \o U2, "-c" \o U3, "--xx=" \o U1>>
Descs == << <<Decl("w", "ww,w", "wstring"), Decl("s", "ss", "string"), Decl("i", "ii,i", "int"), Multi(Decl("v", "vv,v", "vwstring")), Decl("b", "bb,b", "untyped0"),
              Decl("u", U1 \o "k", "string"), Decl("n", "nn,n", "wnarrow"), Decl("c", "cc,c", "wchart"), Multi(Decl("x", "xx,x", "vwnarrow"))>> >>
NT == Len(Words)
CfgTexts == <<"ww=a b\nss=c", "[s]\nww=1", "ww = x=y # z\nvv=1\nvv=2", "ii=5\n\n", "zz=1\nss=">>
Size(h) == IF Len(h) = 0 THEN 4
           ELSE IF h[1] = 1 THEN SizeHS(h, <<4, Len(Pads)>>, Len(BytesTab), 2 + Deep)
           ELSE IF h[1] = 2 THEN SizeHS(h, <<4, Len(Pads)>>, Len(Points), 2 + Deep)
           ELSE IF h[1] = 3 THEN SizeHS(h, <<4, 2>>, NT, 2 + Deep)
           ELSE IF Len(h) = 1 THEN Len(CfgTexts) ELSE 0
Build(h) ==
  CASE h[1] = 1 -> LET s == Pad(Pads[h[2]], 97) \o Picked(h, 2, BytesTab) IN
         Plain(<<ConvOp("in", s), ConvOp("in", Pad(Pads[h[2]] \div 2, 97) \o Picked(h, 2, BytesTab) \o Pad(Pads[h[2]] \div 2, 98)),
                 ConvAs("latin1", "in", s), ConvAs("c", "in", s)>>
               \* where an unfinished character is dropped and where refused depends on the size of a piece (F15)
               \o IF Unfinished(s) THEN <<>> ELSE <<ConvAs("local", "in", s)>>)
    [] h[1] = 2 -> LET s == Picked(h, 2, Points) p == Pads[h[2]] IN
         Plain(<<ConvOp("out", Pad(p, 97) \o s), ConvOp("in", Encode(Pad(p, 97) \o s)), ConvOp("out", Pad(p, 233) \o s), ConvOp("in", Encode(Pad(p, 20013) \o s)),
                 ConvOp("out", Pad(p, 128512) \o s), ConvAs("local", "out", Pad(p, 97) \o s), ConvAs("local", "in", Encode(Pad(p, 97) \o s)),
                 ConvAs("local", "out", Pad(p, 20013) \o s), ConvAs("latin1", "out", Pad(p, 233) \o s), ConvAs("c", "out", Pad(p, 97) \o s)>>)
    [] h[1] = 3 -> LET args == Picked(h, 2, Words)
                       c0 == CmdOp(1, IF h[2] = 1 THEN <<>> ELSE Unix \o <<"disg", "lci">>, args)
                       c == IF h[2] = 1 THEN c0 ELSE WithPos(Tolerant(c0), <<<<"vv", -1>>>>) IN
         Plain(<<DescRef(Descs, 1), c, [c EXCEPT !.wide = TRUE], VmOp(0), VmOp(0), VmOp(0), VmOp(0), VmOp(0),
                 StoreOp(1, 1), StoreOp(2, 2), StoreLocal(1, 3), StoreLocal(2, 4), [op |-> "store", p |-> 1, m |-> 5, utf8 |-> TRUE], ShowOp(1), ShowOp(2)>>)
    [] h[1] = 4 -> LET c == CfgOp(1, CfgTexts[h[2]], TRUE) IN
         Plain(<<DescRef(Descs, 1), c, [c EXCEPT !.wide = TRUE], [c EXCEPT !.wide = TRUE, !.file = "ok"], VmOp(0), VmOp(0), StoreOp(1, 1), StoreOp(2, 2), StoreOp(3, 1), VmOp(0), VmOp(0), StoreLocal(1, 3), StoreLocal(2, 4)>>)
(* theorem: decoding undoes encoding, for every sequence of the points          *)
ASSUME \A a, b \in Range(Points) : Decode(Encode(<<a, b>>)) = [ok |-> TRUE, out |-> <<a, b>>]
Next == MCNextOf(Size, Build)
ASSUME PrintT("D " \o ToJson(Descs))
=============================================================================
