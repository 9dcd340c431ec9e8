------------------------------- MODULE PoStore -----------------------------
(* The map of variables: storing parse results, defaults, requirements,      *)
(* notification and chained lookup.                                          *)
(*                                                                           *)
(* A map is [val, fin, req, next]: val maps option names to entries          *)
(* [v: value, d: defaulted?, sem: <<>> or <<the option that stored it>>];    *)
(* fin is the set of names whose value is final; req maps the names of       *)
(* required options to their display names; next is the index of the chained *)
(* map (0: none).                                                            *)
EXTENDS PoVal

EmptyFn == TLCEval([x \in {} |-> 0])
NewVm == [val |-> EmptyFn, fin |-> {}, req |-> EmptyFn, next |-> 0]
Put(f, k, x) == TLCEval([y \in DOMAIN f \cup {k} |-> IF y = k THEN x ELSE f[y]])
NoEntry == [v |-> NoVal, d |-> FALSE, sem |-> <<>>]
Entry(vm, k) == IF k \in DOMAIN vm.val THEN vm.val[k] ELSE NoEntry

(* ---- store --------------------------------------------------------------- *)
(* src: [opts (parsed options), pre (prefix style), utf8, loc (encoding)]      *)
StoreInit(vm) == [pc |-> "option", i |-> 1, vm |-> vm, nfin |-> {}, err |-> NoErr]
StoreFailed(s, e) == [s EXCEPT !.pc = "fail", !.err = e]
StoreOption(desc, src, s) ==
  LET p == src.opts[s.i]
      tok == IF p.t = <<>> THEN "" ELSE p.t[1]
      f == FindOpt(desc, p.k, FALSE, FALSE, FALSE)
      m == desc[f.i]
      old == Entry(s.vm, p.k)
      base == IF old.d THEN NoEntry ELSE old         \* an explicit value erases a default
      r == Parse(m, base.v, p.v, src.utf8, src.loc)
      go == [s EXCEPT !.i = @ + 1]
  IN IF s.i > Len(src.opts) THEN [s EXCEPT !.pc = "final"]
     ELSE IF p.k = "" \/ p.un \/ p.k \in s.vm.fin THEN go
     ELSE IF f.r = "none" THEN StoreFailed(s, AddContext(Err("unknown", ""), p.k, tok, src.pre))
     ELSE IF f.r = "amb" THEN StoreFailed(s, AddContext(AmbErr(f.alts), p.k, tok, src.pre))
     ELSE IF r.err # NoErr
     THEN StoreFailed([s EXCEPT !.vm.val = Put(@, p.k, [base EXCEPT !.v = r.val])],
                      AddContext(r.err, p.k, tok, src.pre))
     ELSE [go EXCEPT !.vm.val = Put(@, p.k, [v |-> r.val, d |-> FALSE, sem |-> <<m>>]),
                     !.nfin = IF m.o.comp THEN @ ELSE @ \cup {p.k}]
(* only a store that went through makes options final *)
StoreFinal(s) == [s EXCEPT !.pc = "default", !.i = 1, !.vm.fin = @ \cup s.nfin, !.nfin = {}]
StoreDefault(desc, src, s) ==
  LET m == desc[s.i]
      key == Key(m, "")
      go == [s EXCEPT !.i = @ + 1]
      g1 == IF key \notin DOMAIN s.vm.val /\ m.o.hasdef
            THEN [go EXCEPT !.vm.val = Put(@, key, [v |-> Val(TypeTag(m.o.t), m.o.def), d |-> TRUE, sem |-> <<m>>])]
            ELSE go
      dn == DisplayName(m, src.pre)
      have == IF key \in DOMAIN s.vm.req THEN s.vm.req[key] ELSE ""
      g2 == IF m.o.req
            THEN [g1 EXCEPT !.vm.req = Put(@, key, IF Len(dn) > Len(have) THEN dn ELSE have)]
            ELSE g1
  IN IF s.i > Len(desc) THEN [s EXCEPT !.pc = "done"]
     ELSE IF key = "" THEN go ELSE g2
StoreDone(s) == s.pc \in {"done", "fail"}
StoreStep(desc, src, s) ==
  CASE s.pc = "option" -> StoreOption(desc, src, s)
    [] s.pc = "final" -> StoreFinal(s)
    [] s.pc = "default" -> StoreDefault(desc, src, s)
RECURSIVE StoreRun(_, _, _)
StoreRun(desc, src, s) == IF StoreDone(s) THEN s ELSE StoreRun(desc, src, StoreStep(desc, src, s))

(* ---- notify --------------------------------------------------------------- *)
(* tgt: the program variables options are bound to, by option id             *)
NotifyInit(vm, tgt) ==
  [pc |-> "required", keys |-> SortedSeq(DOMAIN vm.val), i |-> 1, log |-> <<>>, tgt |-> tgt, err |-> NoErr]
MissingRequired(vm) == {k \in DOMAIN vm.req : Entry(vm, k).v = NoVal}
NotifyRequired(vm, n) ==
  LET miss == MissingRequired(vm) IN
  IF miss = {} THEN [n EXCEPT !.pc = "call"]
  ELSE [n EXCEPT !.pc = "fail",
                 !.err = [Err("required", "") EXCEPT !.tok = vm.req[StrMin(miss)]]]
NotifyCall(vm, n) ==
  LET e == vm.val[n.keys[n.i]]
      m == e.sem[1]
      go == [n EXCEPT !.i = @ + 1]
      t1 == IF m.o.sto THEN [go EXCEPT !.tgt = Put(@, m.o.id, e.v.v)] ELSE go
      t2 == IF m.o.notif \/ m.o.nthrow
            THEN [t1 EXCEPT !.log = Append(@, [id |-> m.o.id, v |-> e.v.v])] ELSE t1
  IN IF n.i > Len(n.keys) THEN [n EXCEPT !.pc = "done"]
     ELSE IF e.sem = <<>> THEN go
     ELSE IF Untyped(m) THEN go
     ELSE IF m.o.nthrow THEN [t2 EXCEPT !.pc = "fail", !.err = ErrMsg("notifier", m.o.id)]
     ELSE t2
NotifyDone(n) == n.pc \in {"done", "fail"}

(* ---- chained lookup -------------------------------------------------------- *)
RECURSIVE ChainGet(_, _, _)
ChainGet(vms, i, name) ==
  LET own == Entry(vms[i], name)
      rest == ChainGet(vms, vms[i].next, name)
  IN IF vms[i].next = 0 THEN own
     ELSE IF own.v = NoVal THEN rest
     ELSE IF own.d /\ rest.v # NoVal /\ ~rest.d THEN rest
     ELSE own
(* declaratively, walking the chain from i: the first explicit value, else    *)
(* the first default, else nothing                                            *)
RECURSIVE Chain(_, _)
Chain(vms, i) == IF i = 0 THEN <<>> ELSE <<i>> \o Chain(vms, vms[i].next)
ChainMeaning(vms, i, name) ==
  LET es == MapSeq(Chain(vms, i), LAMBDA j : Entry(vms[j], name))
      ex == IdxFrom(1, Len(es), LAMBDA j : es[j].v # NoVal /\ ~es[j].d)
      df == IdxFrom(1, Len(es), LAMBDA j : es[j].v # NoVal /\ es[j].d)
  IN IF ex # <<>> THEN es[ex[1]] ELSE IF df # <<>> THEN es[df[1]] ELSE NoEntry

Show(k, e) == [k |-> k, d |-> e.d, e |-> e.v = NoVal, t |-> e.v.t, v |-> e.v.v]
Dump(vm) == MapSeq(SortedSeq(DOMAIN vm.val), LAMBDA k : Show(k, vm.val[k]))
=============================================================================
