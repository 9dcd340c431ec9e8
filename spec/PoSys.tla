-------------------------------- MODULE PoSys ------------------------------
(* The whole library as one system.                                          *)
(*                                                                           *)
(* A scenario is a record [w, ops]: a program that uses the library through  *)
(* its public interface, one operation after the other (declare options,     *)
(* parse a command line / config text / environment, store, notify, look up, *)
(* print help, split, convert...).  Every operation runs as one or several   *)
(* transitions and leaves one observable outcome in out.  Scenarios come     *)
(* from an exhaustive generator (the MC modules) or from a recorded run of   *)
(* the real library (PoTrace).                                               *)
EXTENDS PoCmd, PoCfg, PoVal, PoStore, PoHelp, PoSplit, PoUtf

VARIABLES
  sc,       \* the scenario, or its index in the trace
  k,        \* next operation
  n,        \* transitions made (the machine is deterministic given sc)
  ph,       \* "idle", or the kind of operation in progress
  cur,      \* its machine state
  descs,    \* option descriptions
  parsed,   \* parse results [ok, opts, pre, utf8, d]
  vms,      \* variables maps
  tgt,      \* program variables bound to options
  out       \* outcomes so far

CONSTANT Deref(_)        \* sc -> scenario record
SC == Deref(sc)
(* a command line may be what an earlier parse did not recognise *)
Effective(op) ==
  IF "rest" \notin DOMAIN op THEN op
  ELSE [op EXCEPT !.args = IF parsed[op.rest].ok THEN Collect(parsed[op.rest].opts, op.inc) ELSE <<>>]
Op == Effective(SC.ops[k])
sysvars == <<sc, k, n, ph, cur, descs, parsed, vms, tgt, out>>

SysReset == /\ k = 1 /\ n = 0 /\ ph = "idle" /\ cur = <<>> /\ descs = <<>> /\ parsed = <<>>
            /\ vms = <<>> /\ tgt = EmptyFn /\ out = <<>>

Terminal == ph = "idle" /\ k > Len(SC.ops)

OkOut(x) == [r |-> "ok", e |-> "", kd |-> "", w |-> "", x |-> x]
ErrOut(e, x) == [r |-> "err", e |-> e.cls, kd |-> e.kd, w |-> IF SC.w THEN What(e) ELSE "", x |-> x]
SkipOut == [r |-> "skip", e |-> "", kd |-> "", w |-> "", x |-> <<>>]

Fld(op, f, default) == IF f \in DOMAIN op THEN op[f] ELSE default
At(kind) == ph = "idle" /\ k <= Len(SC.ops) /\ Op.op = kind
In(kind) == ph = kind
Finish(o) == out' = Append(out, o) /\ k' = k + 1 /\ ph' = "idle" /\ cur' = <<>>
Tick == n' = n + 1 /\ sc' = sc
Begin(kind, c) == ph' = kind /\ cur' = c /\ UNCHANGED <<k, out>>
Goto(c) == cur' = c /\ UNCHANGED <<k, ph, out>>

(* ---- declaring options ----------------------------------------------------- *)
InitTarget(o) == CASE o.t \in {"int", "vint"} -> <<"-999">> [] o.t \in {"bool", "switch"} -> <<"0">> [] OTHER -> <<"~">>
NewTargets(os) == TLCEval([i \in {os[j].id : j \in {x \in 1..Len(os) : os[x].sto}} |->
                     InitTarget(os[CHOOSE j \in 1..Len(os) : os[j].id = i])])
RECURSIVE AddAll(_, _)
AddAll(d, os) == IF os = <<>> THEN d ELSE AddAll(AddOpt(d, Head(os)), Tail(os))

MakeDesc == /\ At("desc") /\ Tick
            /\ descs' = Append(descs, AddAll(NewDesc(Op.cap, Op.ll, Op.ml), Op.opts))
            /\ tgt' = NewTargets(Op.opts) @@ tgt
            /\ Finish(OkOut(<<>>)) /\ UNCHANGED <<parsed, vms>>
AddOne == /\ At("add") /\ Tick
          /\ descs' = [descs EXCEPT ![Op.d] = AddOpt(@, Op.o)]
          /\ tgt' = NewTargets(<<Op.o>>) @@ tgt
          /\ Finish(OkOut(<<>>)) /\ UNCHANGED <<parsed, vms>>
AddDesc == /\ At("grp") /\ Tick
           /\ descs' = [descs EXCEPT ![Op.d] = AddGroup(@, descs[Op.g])]
           /\ Finish(OkOut(<<>>)) /\ UNCHANGED <<parsed, vms, tgt>>

(* a description copied by the program: it has the same options, and goes its own way *)
CopyDesc == /\ At("dcopy") /\ Tick
            /\ descs' = Append(descs, descs[Op.d])
            /\ Finish(OkOut(<<>>)) /\ UNCHANGED <<parsed, vms, tgt>>

(* ---- looking options up ------------------------------------------------------ *)
OptInfo(m, name) == <<m.o.id, Key(m, name), PrimaryName(m), FormatName(m), FormatParameter(m),
                      DisplayName(m, "long"), DisplayName(m, "disguise"), DisplayName(m, "dash"),
                      DisplayName(m, "slash"), DisplayName(m, "")>> \o m.long
FindOutcome ==
  LET os == descs[Op.d].opts
      f == FindOpt(os, Op.name, Op.ap, Op.li, Op.si)
  IN IF f.r = "amb" THEN ErrOut(AmbErr(f.alts), f.alts)
     ELSE IF f.r = "found" THEN OkOut(OptInfo(os[f.i], Op.name))
     ELSE IF Op.thr THEN ErrOut(Err("unknown", ""), <<>>) ELSE OkOut(<<>>)
FindOne == At("find") /\ Tick /\ Finish(FindOutcome) /\ UNCHANGED <<descs, parsed, vms, tgt>>
(* what each option of the description says to a name, and its long names     *)
AskMatch == /\ At("match") /\ Tick
            /\ Finish(OkOut(MapSeq(descs[Op.d].opts, LAMBDA m : Match(m, Op.name, Op.ap, Op.li, Op.si)))) /\ UNCHANGED <<descs, parsed, vms, tgt>>
ListOptions == /\ At("list") /\ Tick
               /\ Finish(OkOut(MapSeq(descs[Op.d].opts, LAMBDA m : m.o.id)))
               /\ UNCHANGED <<descs, parsed, vms, tgt>>

(* ---- command line -------------------------------------------------------------- *)
CX == Context(descs[Op.d].opts, Op)
AddParsed(opts, pre, utf8) ==
  parsed' = Append(parsed, [ok |-> TRUE, opts |-> opts, pre |-> pre, utf8 |-> utf8, d |-> Op.d])
NoParsed(utf8) == parsed' = Append(parsed, [ok |-> FALSE, opts |-> <<>>, pre |-> "", utf8 |-> utf8, d |-> Op.d])
Frame1 == UNCHANGED <<descs, parsed, vms, tgt>>

CmdBadStyle == LET e == StyleError(EffStyle(Op.style)) IN
            /\ At("cmd") /\ Tick /\ e # ""
            /\ NoParsed(Op.wide) /\ Finish(ErrOut(ErrMsg("style", e), <<>>)) /\ UNCHANGED <<descs, vms, tgt>>
CmdBegin == /\ At("cmd") /\ Tick /\ StyleError(EffStyle(Op.style)) = ""
            /\ Begin("cmd", CmdInit(Op.args)) /\ Frame1
CmdPc(pc) == In("cmd") /\ cur.pc = pc /\ Tick /\ Frame1
CmdAOffer == CmdPc("scan") /\ cur.args # <<>> /\ Goto(CmdOffer(CX, cur))
CmdAScanned == CmdPc("scan") /\ cur.args = <<>> /\ Goto(CmdScanned(cur))
CmdAOffered == CmdPc("offered") /\ Goto(CmdOffered(CX, cur))
CmdAPositional == CmdPc("positional") /\ Goto(CmdPositional(cur))
CmdAFinish == CmdPc("finish") /\ Goto(CmdFinish(CX, cur))
CmdAAttach == CmdPc("attach") /\ Goto(CmdAttach(CX, cur))
CmdAGather == CmdPc("gather") /\ cur.gi <= Len(cur.opts) /\ Goto(CmdGather(CX, cur))
CmdANumber == CmdPc("gather") /\ cur.gi > Len(cur.opts) /\ Goto(CmdNumber(cur))
CmdAName == CmdPc("name") /\ Goto(CmdName(CX, cur))
CmdAFlag == CmdPc("flag") /\ Goto(CmdFlag(CX, cur))
(* Wide results are converted back from UTF-8.  A token is converted as a      *)
(* whole; only a sticky short option or a user parser can cut a character in  *)
(* two, and then the conversion fails (known finding F14).                    *)
Convertible(opts) == \A i \in 1..Len(opts) : \A s \in Range(opts[i].v) \cup Range(opts[i].t) :
                        Decode(Bytes(s)).ok
CmdBroken == Op.wide /\ ~Convertible(cur.opts)
CmdUnconvertible == /\ In("cmd") /\ cur.pc = "done" /\ CmdBroken /\ Tick
                    /\ NoParsed(Op.wide)
                    /\ Finish(ErrOut(ErrMsg("logic", "character conversion failed"), <<>>))
                    /\ UNCHANGED <<descs, vms, tgt>>
CmdEnd == /\ In("cmd") /\ cur.pc = "done" /\ ~CmdBroken /\ Tick
          /\ AddParsed(cur.opts, CX.pre, Op.wide) /\ Finish(OkOut(cur.opts))
          /\ UNCHANGED <<descs, vms, tgt>>
CmdErr == /\ In("cmd") /\ cur.pc = "fail" /\ Tick
          /\ NoParsed(Op.wide) /\ Finish(ErrOut(cur.err, <<>>)) /\ UNCHANGED <<descs, vms, tgt>>
CmdActions == \/ CmdBadStyle \/ CmdBegin \/ CmdAOffer \/ CmdAScanned \/ CmdAOffered \/ CmdAPositional
              \/ CmdAFinish \/ CmdAAttach \/ CmdAGather \/ CmdANumber \/ CmdAName \/ CmdAFlag
              \/ CmdEnd \/ CmdUnconvertible \/ CmdErr

(* ---- config file ------------------------------------------------------------------ *)
CantRead == ErrMsg("readfile", "can not read options configuration file 'FILE'")
CfgBegin == /\ At("cfg") /\ Tick /\ Op.file # "missing"
            /\ Begin("cfg", CfgInit(descs[Op.d].opts, IF Op.file = "dir" THEN "" ELSE Op.text)) /\ Frame1
CfgMissing == /\ At("cfg") /\ Tick /\ Op.file = "missing"
              /\ NoParsed(Op.wide) /\ Finish(ErrOut(CantRead, <<>>)) /\ UNCHANGED <<descs, vms, tgt>>
CfgALine == /\ In("cfg") /\ cur.pc = "line" /\ Tick /\ Frame1
            /\ Goto(CfgLine(descs[Op.d].opts, Op.unreg, cur))
CfgEnd == /\ In("cfg") /\ cur.pc = "done" /\ Op.file # "dir" /\ Tick
          /\ AddParsed(cur.opts, "", Op.wide) /\ Finish(OkOut(cur.opts)) /\ UNCHANGED <<descs, vms, tgt>>
CfgUnreadable == /\ In("cfg") /\ cur.pc = "done" /\ Op.file = "dir" /\ Tick
                 /\ NoParsed(Op.wide) /\ Finish(ErrOut(CantRead, <<>>)) /\ UNCHANGED <<descs, vms, tgt>>
CfgErr == /\ In("cfg") /\ cur.pc = "fail" /\ Tick
          /\ NoParsed(Op.wide) /\ Finish(ErrOut(cur.err, <<>>)) /\ UNCHANGED <<descs, vms, tgt>>
CfgActions == CfgBegin \/ CfgMissing \/ CfgALine \/ CfgEnd \/ CfgUnreadable \/ CfgErr

(* ---- environment -------------------------------------------------------------------- *)
EnvBegin == At("env") /\ Tick /\ Begin("env", EnvInit(Op.entries)) /\ Frame1
EnvAEntry == In("env") /\ cur.pc = "entry" /\ Tick /\ Goto(EnvEntry(Op.map, Op.prefix, cur)) /\ Frame1
EnvEnd == /\ In("env") /\ cur.pc = "done" /\ Tick
          /\ AddParsed(cur.opts, "", FALSE) /\ Finish(OkOut(cur.opts)) /\ UNCHANGED <<descs, vms, tgt>>
EnvActions == EnvBegin \/ EnvAEntry \/ EnvEnd

(* a parse result the program made itself (a source of its own) *)
MakeParsed == /\ At("make") /\ Tick
              /\ AddParsed(Op.opts, Op.pre, FALSE) /\ Finish(OkOut(Op.opts)) /\ UNCHANGED <<descs, vms, tgt>>
CollectTokens == /\ At("collect") /\ Tick
                 /\ Finish(IF parsed[Op.p].ok THEN OkOut(Collect(parsed[Op.p].opts, Op.inc)) ELSE SkipOut)
                 /\ Frame1
(* parse results handed out earlier are still what they were, prefix style included *)
ShowParsed == /\ At("show") /\ Tick
              /\ Finish(IF parsed[Op.p].ok THEN [OkOut(parsed[Op.p].opts) EXCEPT !.kd = parsed[Op.p].pre] ELSE SkipOut) /\ Frame1

(* ---- variables maps -------------------------------------------------------------------- *)
NewMap == /\ At("vm") /\ Tick /\ vms' = Append(vms, [NewVm EXCEPT !.next = Op.n])
          /\ Finish(OkOut(<<>>)) /\ UNCHANGED <<descs, parsed, tgt>>
ChainMap == /\ At("next") /\ Tick /\ vms' = [vms EXCEPT ![Op.m].next = Op.n]
            /\ Finish(OkOut(<<>>)) /\ UNCHANGED <<descs, parsed, tgt>>
(* maps are values: a copy has what the map has, and they part there          *)
CopyMap == /\ At("vcopy") /\ Tick /\ vms' = Append(vms, vms[Op.m])
           /\ Finish(OkOut(Dump(vms[Op.m]))) /\ UNCHANGED <<descs, parsed, tgt>>
AssignMap == /\ At("vassign") /\ Tick /\ vms' = [vms EXCEPT ![Op.m] = vms[Op.f]]
             /\ Finish(OkOut(Dump(vms[Op.f]))) /\ UNCHANGED <<descs, parsed, tgt>>
Src == parsed[Op.p]
StoreSkip == /\ At("store") /\ ~Src.ok /\ Tick /\ Finish(SkipOut) /\ Frame1
StoreBegin == /\ At("store") /\ Src.ok /\ Tick /\ Begin("store", StoreInit(vms[Op.m])) /\ Frame1
StoreDesc == descs[Src.d].opts
(* the values may be declared to be UTF-8; the local encoding in force         *)
StoreSrc == [opts |-> Src.opts, pre |-> Src.pre, utf8 |-> Src.utf8 \/ Fld(Op, "utf8", FALSE), loc |-> Fld(Op, "loc", "")]
StoreAOption == /\ In("store") /\ cur.pc = "option" /\ Tick /\ Goto(StoreOption(StoreDesc, StoreSrc, cur)) /\ Frame1
StoreAFinal == /\ In("store") /\ cur.pc = "final" /\ Tick /\ Goto(StoreFinal(cur)) /\ Frame1
StoreADefault == /\ In("store") /\ cur.pc = "default" /\ Tick /\ Goto(StoreDefault(StoreDesc, StoreSrc, cur)) /\ Frame1
StoreEnd == /\ In("store") /\ cur.pc = "done" /\ Tick
            /\ vms' = [vms EXCEPT ![Op.m] = cur.vm]
            /\ Finish(OkOut(Dump(cur.vm))) /\ UNCHANGED <<descs, parsed, tgt>>
StoreErr == /\ In("store") /\ cur.pc = "fail" /\ Tick
            /\ vms' = [vms EXCEPT ![Op.m] = cur.vm]
            /\ Finish(ErrOut(cur.err, Dump(cur.vm))) /\ UNCHANGED <<descs, parsed, tgt>>
PutValue == /\ At("put") /\ Tick
            /\ vms' = [vms EXCEPT ![Op.m].val =
                         Put(@, Op.k, [v |-> Val("string", <<Op.v>>), d |-> Op.d, sem |-> <<>>])]
            /\ Finish(OkOut(<<>>)) /\ UNCHANGED <<descs, parsed, tgt>>
EraseValue == /\ At("erase") /\ Tick
              /\ vms' = [vms EXCEPT ![Op.m].val = TLCEval([y \in DOMAIN @ \ {Op.k} |-> @[y]])]
              /\ Finish(OkOut(<<>>)) /\ UNCHANGED <<descs, parsed, tgt>>
ClearMap == /\ At("clear") /\ Tick
            /\ vms' = [vms EXCEPT ![Op.m] = [NewVm EXCEPT !.next = vms[Op.m].next]]
            /\ Finish(OkOut(<<>>)) /\ UNCHANGED <<descs, parsed, tgt>>
DumpMap == At("dump") /\ Tick /\ Finish(OkOut(Dump(vms[Op.m]))) /\ Frame1
GetValue == /\ At("get") /\ Tick
            /\ Finish(OkOut(<<Show(Op.name, ChainGet(vms, Op.m, Op.name))>>)) /\ Frame1
AsValue == LET e == ChainGet(vms, Op.m, Op.name) IN
           /\ At("as") /\ Tick
           /\ Finish(IF e.v.t = Op.t THEN OkOut(e.v.v) ELSE ErrOut(ErrMsg("badcast", ""), <<>>)) /\ Frame1
NotifyBegin == At("notify") /\ Tick /\ Begin("notify", NotifyInit(vms[Op.m], tgt)) /\ Frame1
NotifyARequired == /\ In("notify") /\ cur.pc = "required" /\ Tick
                   /\ Goto(NotifyRequired(vms[Op.m], cur)) /\ Frame1
NotifyACall == /\ In("notify") /\ cur.pc = "call" /\ Tick /\ Goto(NotifyCall(vms[Op.m], cur)) /\ Frame1
Targets(f) == MapSeq(SortedSeq(DOMAIN f), LAMBDA i : [id |-> ">" \o i, v |-> f[i]])
NotifyEnd == /\ In("notify") /\ NotifyDone(cur) /\ Tick
             /\ tgt' = cur.tgt
             /\ Finish(IF cur.pc = "done" THEN OkOut(cur.log \o Targets(cur.tgt))
                       ELSE ErrOut(cur.err, cur.log \o Targets(cur.tgt)))
             /\ UNCHANGED <<descs, parsed, vms>>
MapActions == \/ NewMap \/ ChainMap \/ CopyMap \/ AssignMap \/ StoreSkip \/ StoreBegin \/ StoreAOption \/ StoreAFinal
              \/ StoreADefault \/ StoreEnd \/ StoreErr \/ PutValue \/ EraseValue \/ ClearMap \/ DumpMap \/ GetValue \/ AsValue
              \/ NotifyBegin \/ NotifyARequired \/ NotifyACall \/ NotifyEnd

(* ---- help ---------------------------------------------------------------------------------- *)
PrintHelp == LET h == HelpText(descs[Op.d], Fld(Op, "col", 0)) IN
             /\ At("help") /\ Tick
             /\ Finish(IF h.err THEN ErrOut(ErrMsg("error", TwoTabs), <<>>) ELSE OkOut(<<h.s>>)) /\ Frame1

(* ---- splitting, conversion ------------------------------------------------------------------- *)
SplitBegin == /\ At("split") /\ Tick
              /\ Begin("split", IF Op.kind = "win" THEN WinInit(Op.s) ELSE UnixInit) /\ Frame1
SplitUnixStep == /\ In("split") /\ Op.kind = "unix" /\ cur.pc = "go" /\ Tick
                 /\ Goto(UnixStep(Op.s, Op.sep, Op.q, Op.esc, cur)) /\ Frame1
SplitWinStep == /\ In("split") /\ Op.kind = "win" /\ cur.pc = "go" /\ Tick
                /\ Goto(WinStep(Op.s, cur)) /\ Frame1
SplitEnd == /\ In("split") /\ cur.pc = "done" /\ Tick
            /\ Finish(IF Op.kind = "unix" /\ cur.err # "" THEN ErrOut(ErrMsg("escape", cur.err), <<>>)
                      ELSE OkOut(cur.out)) /\ Frame1
Buf == 32
ConvBegin == At("conv") /\ Tick /\ Begin("conv", ConvInit) /\ Frame1
ConvPiece == /\ In("conv") /\ cur.pc = "piece" /\ Tick
             /\ Goto(ConvStep(Fld(Op, "enc", "utf8"), Op.dir, Buf, Op.s, cur)) /\ Frame1
ConvEnd == /\ In("conv") /\ cur.pc \in {"done", "fail"} /\ Tick
           /\ Finish(IF cur.pc = "done" THEN OkOut(cur.out)
                     ELSE ErrOut(ErrMsg("logic", "character conversion failed"), <<>>)) /\ Frame1
TextActions == \/ PrintHelp \/ SplitBegin \/ SplitUnixStep \/ SplitWinStep \/ SplitEnd
               \/ ConvBegin \/ ConvPiece \/ ConvEnd

(* ---- questions to the smaller parts -------------------------------------------------------------- *)
AskPositions == /\ At("pos") /\ Tick
                /\ LET names == PosNames(Op.pos) trail == PosTrail(Op.pos)
                       total == IF trail = "" THEN Len(names) ELSE M IN
                   Finish(OkOut(<<IF total = M THEN "unlimited" ELSE ToString(total)>>
                                \o MapSeq(SelectSeq(Op.ask, LAMBDA a : a < total), LAMBDA a : IF a < Len(names) THEN names[a + 1] ELSE trail)))
                /\ Frame1
MakeError == LET e == Made(Op) IN
             /\ At("err") /\ Tick
             /\ Finish(OkOut(<<What(e), IF HasContext(e) THEN CanonicalName(e) ELSE "", TokensNamed(e)>>)) /\ Frame1

DescActions == AskPositions \/ MakeError \/ MakeDesc \/ AddOne \/ AddDesc \/ CopyDesc \/ AskMatch \/ FindOne \/ ListOptions \/ MakeParsed \/ CollectTokens \/ ShowParsed
SysNext == DescActions \/ CmdActions \/ CfgActions \/ EnvActions \/ MapActions \/ TextActions
=============================================================================
