------------------------------- MODULE Chain --------------------------------
(* The chain around the contract: IBC core (channels, packets, sequence      *)
(* numbers), the callback contracts, block time; and transactions.  One      *)
(* event is one transaction: the entry point, the messages it emits, their   *)
(* replies and callbacks; if anything fails, everything is undone.           *)
(*                                                                           *)
(* State: [c, ctr, core] with core = [chans, out, time, height, ids, seq0, step]. *)
(* out holds the packets that are neither acknowledged nor timed out.        *)
EXTENDS Controller

Connections == {"connection-0", "connection-1", "connection-2", "connection-3", "connection-10", "connection-12",
  "connection-18446744073709551615", "connection-4294967296", "connection-4294967297", "connection-100", "connection-9007199254740993"}
NoCtr == [success |-> <<>>, error |-> <<>>, timeout |-> <<>>]
NoTam == <<>>

Start(env) ==
  [c |-> NoContract, ctr |-> NoCtr,
   core |-> [chans |-> <<>>, out |-> <<>>, time |-> env.time, height |-> env.height, ids |-> env.ids, seq0 |-> env.seq0, step |-> env.step]]

Bad(s) == [ok |-> FALSE, s |-> s, eff |-> <<>>]
Good(s, eff) == [ok |-> TRUE, s |-> s, eff |-> eff]

ChanIdx(s, id) == {i \in 1..Len(s.core.chans) : s.core.chans[i].id = id}
HasChan(s, id) == ChanIdx(s, id) # {}
ChanOf(s, id) == s.core.chans[CHOOSE i \in ChanIdx(s, id) : TRUE]
SetChan(s, k) == [s EXCEPT !.core.chans = [i \in DOMAIN @ |-> IF @[i].id = k.id THEN k ELSE @[i]]]
\* how the chain describes a channel to the contract
Describe(k) == [id |-> k.id, port |-> k.port, cport |-> k.cport, cchan |-> k.cchan, order |-> k.order, conn |-> k.conn, ver |-> k.ver]
\* the description as received, if it was altered on the way
Altered(d, tam) == [f \in DOMAIN d |-> IF f \in DOMAIN tam THEN tam[f] ELSE d[f]]
Tam(e) == IF "tam" \in DOMAIN e THEN e.tam ELSE NoTam
Forced(e) == "force" \in DOMAIN Tam(e)

PktIdx(s, chan, seq) == {i \in 1..Len(s.core.out) : s.core.out[i].chan = chan /\ s.core.out[i].seq = seq}
HasPkt(s, e) == PktIdx(s, e.chan, e.seq) # {}
PktOf(s, e) == s.core.out[CHOOSE i \in PktIdx(s, e.chan, e.seq) : TRUE]
DropPkt(s, e) == [s EXCEPT !.core.out = SelectSeq(@, LAMBDA x : ~(x.chan = e.chan /\ x.seq = e.seq))]
\* the packet as the chain presents it to the contract
PacketMsg(p, k) == [chan |-> p.chan, port |-> k.port, dchan |-> k.cchan, dport |-> k.cport, seq |-> p.seq, tok |-> p.tok, ts |-> p.ts, th |-> p.th]

(* ---------------------------- messages --------------------------------- *)
CoreOpenInit(s, port, conn, cport, order, ver, tam) ==
  IF port # "wasm.self" \/ conn \notin Connections \/ Len(s.core.chans) >= Len(s.core.ids) THEN Bad(s)
  ELSE LET k == [id |-> s.core.ids[Len(s.core.chans) + 1], st |-> "INIT", port |-> port, cport |-> cport, cchan |-> "",
                 order |-> order, conn |-> conn, ver |-> ver, nseq |-> s.core.seq0]
           r == OnOpenInit(s.c, Altered(Describe(k), tam))
       IN IF ~r.ok THEN Bad(s)
          ELSE Good([s EXCEPT !.c = r.c, !.core.chans = Append(@, [k EXCEPT !.ver = Get(r.ver)])], <<[k |-> "ver", v |-> r.ver]>>)

CoreCloseInit(s, id, tam, forced) ==
  IF ~HasChan(s, id) THEN Bad(s)
  ELSE LET k == ChanOf(s, id)
           r == OnCloseInit(s.c, Altered(Describe(k), tam))
       IN IF (k.st = "CLOSED" /\ ~forced) \/ ~r.ok THEN Bad(s)
          ELSE Good(SetChan([s EXCEPT !.c = r.c], [k EXCEPT !.st = "CLOSED"]), <<>>)

\* qs: the queries of the request that led to this packet
CoreSend(s, m, qs) ==
  IF ~HasChan(s, m.chan) THEN Bad(s)
  ELSE LET k == ChanOf(s, m.chan)
           p == [chan |-> m.chan, seq |-> k.nseq, tok |-> "tok:new", ts |-> m.ts, th |-> m.th, qs |-> qs]
           s1 == SetChan([s EXCEPT !.core.out = Append(@, p)], [k EXCEPT !.nseq = AddL(@, s.core.step)])
       IN IF k.st # "OPEN" THEN Bad(s)
          ELSE Good(IF m.reply THEN [s1 EXCEPT !.c = SendReply(@, k.nseq)] ELSE s1, <<>>)

\* the sample counter contract files what it is told
CounterFile(ctr, m) ==
  CASE m.k = "ack" /\ m.ack.k = "result" -> [ctr EXCEPT !.success = Append(@, m)]
    [] m.k = "ack" /\ m.ack.k = "error"  -> [ctr EXCEPT !.error = Append(@, m)]
    [] m.k = "timeout"                   -> [ctr EXCEPT !.timeout = Append(@, m)]
    [] OTHER                             -> ctr

RECURSIVE Dispatch(_, _, _, _, _)
RunExec(s, sender, m, e, eff) ==
  LET r == Execute(s.c, sender, m, s.core.time, s.core.height)
      qs == IF m.k = "send" THEN m.qs ELSE <<>>
  IN IF ~r.ok THEN Bad(s) ELSE Dispatch([s EXCEPT !.c = r.c], r.msgs, e, qs, eff)

Dispatch(s, msgs, e, qs, eff) ==
  IF msgs = <<>> THEN Good(s, eff)
  ELSE LET m == msgs[1]
           r == CASE m.k = "open_init" ->
                       LET x == CoreOpenInit(s, m.port, m.conns[1], m.cport, m.order, m.ver, Tam(e))
                       IN [x EXCEPT !.eff = <<m>> \o @]
                  [] m.k = "close" ->
                       LET x == CoreCloseInit(s, m.chan, Tam(e), Forced(e))
                       IN [x EXCEPT !.eff = <<m>> \o @]
                  [] m.k = "send" ->
                       LET x == CoreSend(s, m, qs)
                       IN [x EXCEPT !.eff = <<[k |-> "send", chan |-> m.chan, data |-> m.data, ts |-> m.ts, th |-> m.th]>>]
                  [] m.k = "cb" ->
                       LET s1 == IF m.to = "ctr" THEN [s EXCEPT !.ctr = CounterFile(@, m.m)] ELSE s
                       IN CASE e.cbm = "fail" -> Bad(s)
                            \* the controller itself understands no callback
                            [] m.to = "self" -> Bad(s)
                            [] e.cbm = "re"   -> LET x == RunExec(s1, m.to, e.re, e, <<>>)
                                                 IN [x EXCEPT !.eff = <<m>> \o @]
                            [] OTHER          -> Good(s1, <<m>>)
       IN IF ~r.ok THEN Bad(s) ELSE Dispatch(r.s, Tail(msgs), e, qs, eff \o r.eff)

(* ----------------------------- transactions ---------------------------- *)
Inst(s, e) ==
  LET r == Instantiate(e.sender, e.owner, e.cb, e.opts)
  IN IF ~r.ok THEN Bad(s) ELSE Dispatch([s EXCEPT !.c = r.c], r.msgs, e, <<>>, <<>>)

\* an instance left behind by the previous release
Legacy(s, e) ==
  LET c == [NoContract EXCEPT !.exists = "t", !.own = e.st.own, !.cb = e.st.cb, !.ica = e.st.ica, !.ch = e.st.ch, !.ver = e.st.ver,
              !.opts = Some(e.opts),
              !.pend = [i \in 1..Len(SelectSeq(e.core.out, LAMBDA p : p.qs # <<>>)) |->
                          LET p == SelectSeq(e.core.out, LAMBDA x : x.qs # <<>>)[i]
                          IN [chan |-> p.chan, seq |-> p.seq, qs |-> p.qs]]]
  IN Good([s EXCEPT !.c = c, !.core.chans = e.core.chans,
                    !.core.out = [i \in 1..Len(e.core.out) |-> e.core.out[i] @@ [tok |-> "tok:legacy"]]], <<>>)

OpenAck(s, e) ==
  IF ~HasChan(s, e.chan) \/ (HasChan(s, e.chan) /\ ChanOf(s, e.chan).st # "INIT") THEN Bad(s)
  ELSE LET k == ChanOf(s, e.chan)
           r == OnOpenAck(s.c, Altered([Describe(k) EXCEPT !.cchan = e.cchan], Tam(e)), e.cver)
           x == Dispatch([s EXCEPT !.c = r.c], r.msgs, e, <<>>, <<>>)
       IN IF ~r.ok \/ ~x.ok THEN Bad(s)
          ELSE [x EXCEPT !.s = SetChan(@, [k EXCEPT !.st = "OPEN", !.ver = e.cver, !.cchan = e.cchan])]

CloseConfirm(s, e) ==
  IF ~HasChan(s, e.chan) THEN Bad(s)
  ELSE LET k == ChanOf(s, e.chan)
           r == OnCloseConfirm(s.c, Altered(Describe(k), Tam(e)))
       IN IF (k.st # "OPEN" /\ ~Forced(e)) \/ ~r.ok THEN Bad(s)
          ELSE Good(SetChan([s EXCEPT !.c = r.c], [k EXCEPT !.st = "CLOSED"]), <<>>)

\* More than IBC core allows: packets of closed channels can be acknowledged too, and in any order.  What the
\* properties promise does not depend on it.
Ack(s, e) ==
  IF ~HasPkt(s, e) THEN Bad(s)
  ELSE LET r == OnAck(s.c, PacketMsg(PktOf(s, e), ChanOf(s, e.chan)), e.rel, e.a)
       IN Dispatch([DropPkt(s, e) EXCEPT !.c = r.c], r.msgs, e, <<>>, r.ev)
Timeout(s, e) ==
  IF ~HasPkt(s, e) THEN Bad(s)
  ELSE LET k == ChanOf(s, e.chan)
           r == OnTimeout(s.c, PacketMsg(PktOf(s, e), k), e.rel)
           x == Dispatch([DropPkt(s, e) EXCEPT !.c = r.c], r.msgs, e, <<>>, <<>>)
       IN IF ~x.ok THEN Bad(s)
          ELSE IF k.order = "ORDER_ORDERED"
               THEN [x EXCEPT !.s = SetChan(@, [ChanOf(@, e.chan) EXCEPT !.st = "CLOSED"])] ELSE x

Migrate(s, e) ==
  LET c0 == IF IsSome(e.enc) /\ IsSome(s.c.ica) THEN [s.c EXCEPT !.ica[1].enc = Get(e.enc)] ELSE s.c
      r == OnMigrate(c0, e.name, e.sv)
  IN IF ~r.ok THEN Bad(s) ELSE Good([s EXCEPT !.c = r.c], <<>>)

(* ------------------------- integration helpers ------------------------- *)
\* another contract may build a request with the crate's helpers: the message it gets, and what is delivered
Codes == {"7", "8", "18446744073709551615"}          \* codes stored on the chain
Via(e) == IF "via" \in DOMAIN e THEN e.via ELSE [t |-> "none"]
SaltOK(x) == Len(x) >= 1 /\ Len(x) <= 64
ViaEffect(e) ==
  LET v == Via(e) IN
  CASE v.t = "exec"    -> <<[k |-> "hm", t |-> "execute", addr |-> v.to, funds |-> <<>>]>>
    [] v.t = "migrate" -> <<[k |-> "hm", t |-> "migrate", addr |-> v.to, code |-> v.code]>>
    [] v.t = "inst"    -> <<[k |-> "hm", t |-> "instantiate", code |-> v.code, label |-> v.label, admin |-> v.admin, funds |-> <<>>]>>
    [] v.t = "inst2"   -> <<[k |-> "hm", t |-> "instantiate2", code |-> v.code, label |-> v.label, admin |-> v.admin, funds |-> <<>>, salt |-> v.salt]>>
    [] OTHER           -> <<>>
ViaFails(e) == LET v == Via(e) IN (v.t = "inst2" /\ (v.code \notin Codes \/ ~SaltOK(v.salt))) \/ (v.t = "migrate" /\ v.to # "self")
Elsewhere(e) == Via(e).t = "exec" /\ Via(e).to # "self"
Reported(c) == [k |-> "hq", own |-> c.own, cb |-> c.cb, ica |-> c.ica, ch |-> c.ch]

Step0(s, e) ==
  IF e.op = "tick" THEN Good([s EXCEPT !.core.time = AddL(@, e.dt), !.core.height = AddL(@, e.dh)], <<>>)
  ELSE IF (e.op \in {"inst", "legacy"}) # (s.c.exists = "f") THEN Bad(s)
  ELSE CASE e.op = "inst"          -> Inst(s, e)
         [] e.op = "legacy"        -> Legacy(s, e)
         [] e.op = "exec"          -> RunExec(s, e.sender, e.m, e, <<>>)
         [] e.op = "open_init"     -> CoreOpenInit(s, "wasm.self", e.conn, e.cport, e.order, e.ver, Tam(e))
         [] e.op = "open_ack"      -> OpenAck(s, e)
         [] e.op = "close_init"    -> CoreCloseInit(s, e.chan, Tam(e), Forced(e))
         [] e.op = "close_confirm" -> CloseConfirm(s, e)
         [] e.op = "ack"           -> Ack(s, e)
         [] e.op = "timeout"       -> Timeout(s, e)
         [] e.op = "migrate"       -> Migrate(s, e)
         [] e.op = "admin"         -> Good(s, <<[k |-> "hm", t |-> IF IsSome(e.admin) THEN "update_admin" ELSE "clear_admin", addr |-> e.to, admin |-> e.admin]>>)
         \* the sample counter is told once more what it was told before
         [] e.op = "again"         -> IF e.i > Len(s.ctr[e.f]) THEN Bad(s) ELSE Good([s EXCEPT !.ctr[e.f] = Append(@, @[e.i])], <<>>)
         [] e.op = "hquery"        -> IF e.to = "self" THEN Good(s, <<Reported(s.c)>>) ELSE Bad(s)
         \* the contract is never the counterparty of a handshake and never receives packets
         [] e.op \in {"open_try", "open_confirm", "recv"} -> Bad(s)
         \* a text that is not a request of the entry point it is given to
         [] e.op = "garbled" -> Bad(s)

\* the contract itself carries out the request, whatever the chain then makes of it
Accepts(s, e) == e.op = "exec" /\ s.c.exists = "t" => Execute(s.c, e.sender, e.m, s.core.time, s.core.height).ok

\* the transaction: all or nothing
Step(s, e) == IF ViaFails(e) THEN Bad(s)
              ELSE IF Elsewhere(e) THEN Good(s, ViaEffect(e))
              ELSE LET r == Step0(s, e) IN IF r.ok THEN [r EXCEPT !.eff = ViaEffect(e) \o @] ELSE Bad(s)
=============================================================================
