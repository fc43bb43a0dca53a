------------------------------- MODULE Props --------------------------------
(* The listed properties.  Each has two parts:                               *)
(*   H_xx(s, e, r)      what the property says about one transaction e that  *)
(*                      takes the system from state s with outcome r; checked *)
(*                      on every transition of the model and on every         *)
(*                      transaction recorded from the implementation;         *)
(*   A_xx(s, e, m, r)   the part of the implementation's outcome r that the   *)
(*                      property speaks about equals the outcome m that the   *)
(*                      specification computes for the same s and e.          *)
(* A part not mentioned by a property (error texts, extra attributes, the     *)
(* layout of JSON text, effects of another kind) is not compared by it.       *)
EXTENDS Chain

(* ------------------------------ vocabulary ----------------------------- *)
Cbm(e) == IF "cbm" \in DOMAIN e THEN e.cbm ELSE "ok"
Reenters(e) == Cbm(e) = "re"
\* the callback contract, if any, accepts what it is sent; the controller itself never does
CbFails(s, e) == IsSome(s.c.cb) /\ (Cbm(e) = "fail" \/ Get(s.c.cb) = "self")
CbAccepts(s, e) == ~IsSome(s.c.cb) \/ (Cbm(e) = "ok" /\ Get(s.c.cb) # "self")
Untampered(e) == Tam(e) = NoTam /\ ~ViaFails(e)
IsExec(e) == e.op = "exec" /\ ~Elsewhere(e)
IsM(e, k) == IsExec(e) /\ e.m.k = k
Control == {"create", "close", "send", "setcb"}
Effs(r, k) == SelectSeq(r.eff, LAMBDA x : x.k = k)
NoEff(r, k) == Effs(r, k) = <<>>
\* what can be observed of the contract, and of the chain
View(s) == [exists |-> s.c.exists, own |-> s.c.own, cb |-> s.c.cb, ica |-> s.c.ica, ch |-> s.c.ch, ver |-> s.c.ver]
\* packets without the token that stands for their content
Outs(s) == [i \in 1..Len(s.core.out) |-> [f \in DOMAIN s.core.out[i] \ {"tok"} |-> s.core.out[i][f]]]
Untouched(s, t) == View(s) = View(t) /\ s.core = t.core /\ s.ctr = t.ctr
Refused(s, r) == ~r.ok /\ r.eff = <<>> /\ Untouched(s, r.s)

ByOwner(s, e) == IsOwner(s.c, e.sender)
RelayerOps == {"open_init", "open_try", "open_ack", "open_confirm", "close_init", "close_confirm", "ack", "timeout", "recv"}
LifeOps == {"open_ack", "ack", "timeout"}
\* the owner, acting as the callback contract, is called back and requests m during the event
Within(s, e, k) == Reenters(e) /\ IsSome(s.c.cb) /\ e.re.k = k
\* somebody requests k, directly or during an event
Asked(s, e, k) == IsM(e, k) \/ Within(s, e, k)
Asker(s, e) == IF IsExec(e) THEN e.sender ELSE Get(s.c.cb)
\* options in force for a create-channel request
Wanted(s, m) == IF IsSome(m.opts) THEN m.opts ELSE s.c.opts
OpenChans(s) == {i \in 1..Len(s.core.chans) : s.core.chans[i].st = "OPEN"}
ChOf(s) == Get(s.c.ch)
Described(s, e) == Altered(Describe(ChanOf(s, e.chan)), Tam(e))
AckDescribed(s, e) == Altered([Describe(ChanOf(s, e.chan)) EXCEPT !.cchan = e.cchan], Tam(e))
AckDue(s, e) == HasChan(s, e.chan) /\ ChanOf(s, e.chan).st = "INIT"
HonestAck(s, e) == AckDue(s, e) /\ ValidMetadata(e.cver, AckDescribed(s, e).conn) /\ e.cver.addr # ""
GoodOpts(o) == o.conn \in Connections /\ (IsSome(o.cport) => Get(o.cport) = HostPort)
Room(s) == Len(s.core.chans) < Len(s.core.ids)
CbOf(r) == Effs(r, "cb")
NoQr(x) == [to |-> x.to, funds |-> x.funds, m |-> [f \in DOMAIN x.m \ {"qr"} |-> x.m[f]]]
CbsNoQr(r) == [i \in 1..Len(CbOf(r)) |-> NoQr(CbOf(r)[i])]
CbsFull(r) == [i \in 1..Len(CbOf(r)) |-> [to |-> CbOf(r)[i].to, m |-> CbOf(r)[i].m]]
Sends(r) == Effs(r, "send")
AckEvs(r) == SelectSeq(r.eff, LAMBDA x : x.k = "ev" /\ x.ty = "acknowledge_packet")
EvKeys == {"packet_sequence", "packet_src_port", "packet_src_channel", "packet_ack_base64", "error"}
EvAttrs(x) == SelectSeq(x.at, LAMBDA a : a[1] \in EvKeys)
SameEv(x, y) == Len(EvAttrs(x)) = Len(EvAttrs(y)) /\ Range(EvAttrs(x)) = Range(EvAttrs(y))
QrOf(x) == IF "qr" \in DOMAIN x.m THEN x.m.qr ELSE None
SameQr(a, b) ==      \* a specified, b observed
  /\ Len(a) = Len(b)
  /\ IsSome(a) => /\ Get(a).k = Get(b).k
                  /\ Get(a).k = "ok" => Get(a).h = Get(b).h /\ Get(a).rs = Get(b).rs
                  /\ Get(a).k = "err" /\ "msg" \in DOMAIN Get(a) => Get(b).msg = Get(a).msg
SameQrs(m, r) == Len(CbOf(m)) = Len(CbOf(r)) /\ \A i \in 1..Len(CbOf(m)) : SameQr(QrOf(CbOf(m)[i]), QrOf(CbOf(r)[i]))
SameOpenInit(a, b) == /\ [f \in DOMAIN a \ {"ver"} |-> a[f]] = [f \in DOMAIN b \ {"ver"} |-> b[f]]
                      /\ SameVersion(a.ver, b.ver)
SameVer(a, b) == Len(a.v) = Len(b.v) /\ (IsSome(a.v) => SameVersion(Get(a.v), Get(b.v)))
SameAll(p, q, Same(_, _)) == Len(p) = Len(q) /\ \A i \in 1..Len(p) : Same(p[i], q[i])
IsQueryEntry(x) == x.url = QueryUrl /\ "raw" \notin DOMAIN x
\* observed entries carry both forms; n is the number of entries a property looks at
EntriesMatch(a, b, n) == \A i \in 1..n : EntryMatches(a[i], b[i])
SameSendShape(a, b) ==
  /\ a.chan = b.chan /\ a.ts = b.ts /\ a.th = b.th
  /\ a.data.k = b.data.k /\ a.data.typ = b.data.typ /\ a.data.memo = b.data.memo
  /\ Len(a.data.msgs) = Len(b.data.msgs)
  /\ \A i \in 1..Len(a.data.msgs) :
       /\ a.data.msgs[i].url = b.data.msgs[i].url
       /\ IsQueryEntry(a.data.msgs[i]) =>
            /\ a.data.msgs[i].v.signer = b.data.msgs[i].v.signer
            /\ Len(a.data.msgs[i].v.requests) = Len(b.data.msgs[i].v.requests)
SameSendMsgs(a, b) ==
  Len(a.data.msgs) = Len(b.data.msgs) /\
  \A i \in 1..Len(a.data.msgs) : ~IsQueryEntry(a.data.msgs[i]) => EntryMatches(a.data.msgs[i], b.data.msgs[i])
SameSendQueries(a, b) ==
  Len(a.data.msgs) = Len(b.data.msgs) /\
  \A i \in 1..Len(a.data.msgs) : IsQueryEntry(a.data.msgs[i]) =>
     /\ a.data.msgs[i].url = b.data.msgs[i].url
     /\ LET p == a.data.msgs[i].v.requests q == b.data.msgs[i].v.requests
        IN Len(p) = Len(q) /\ \A j \in 1..Len(p) : QueryMatches(p[j], q[j])
SendOf(s, e) == IF IsM(e, "send") THEN Some(e.m) ELSE IF Within(s, e, "send") THEN Some(e.re) ELSE None
QueriesOf(s, e) == IF HasPkt(s, e) THEN PktOf(s, e).qs ELSE <<>>

(* ---------------------------- everything ------------------------------- *)
SameEverything(m, r) ==
  /\ m.ok = r.ok
  /\ View(m.s) = View(r.s)
  \* the text of a conversion error is free, so the counter's files are compared by length here and in full by C23
  /\ \A f \in DOMAIN m.s.ctr : Len(m.s.ctr[f]) = Len(r.s.ctr[f])
  /\ [m.s.core EXCEPT !.out = <<>>] = [r.s.core EXCEPT !.out = <<>>]
  /\ Outs(m.s) = Outs(r.s)
  /\ SameAll(Effs(m, "open_init"), Effs(r, "open_init"), SameOpenInit)
  /\ SameAll(Effs(m, "ver"), Effs(r, "ver"), SameVer)
  /\ Effs(m, "close") = Effs(r, "close")
  /\ SameAll(Sends(m), Sends(r), SameSendShape) /\ SameAll(Sends(m), Sends(r), SameSendMsgs) /\ SameAll(Sends(m), Sends(r), SameSendQueries)
  /\ CbsNoQr(m) = CbsNoQr(r) /\ SameQrs(m, r)
  /\ SameAll(AckEvs(m), AckEvs(r), SameEv)
  /\ NoEff(r, "swallowed") /\ NoEff(r, "other")

(* ------------------- C01 only the owner controls ----------------------- *)
H_C01(s, e, r) ==
  /\ IsExec(e) /\ e.m.k \in Control /\ ~ByOwner(s, e) => Refused(s, r)
  /\ e.op \in RelayerOps /\ ~Reenters(e) => NoEff(r, "send") /\ NoEff(r, "open_init") /\ NoEff(r, "close") /\ r.s.c.cb = s.c.cb
  /\ Reenters(e) /\ r.ok /\ IsSome(s.c.cb) /\ e.re.k \in Control => IsOwner(s.c, Get(s.c.cb))
  /\ r.s.c.cb # s.c.cb => e.op \in {"inst", "legacy"} \/ (IsM(e, "setcb") /\ ByOwner(s, e)) \/ Within(s, e, "setcb")
A_C01(s, e, m, r) ==
  /\ IsExec(e) /\ e.m.k = "setcb" => m.ok = r.ok
  /\ m.ok = r.ok => m.s.c.cb = r.s.c.cb
  \* an owner's valid request is carried out: control is not lost
  /\ IsExec(e) /\ e.m.k \in Control /\ ByOwner(s, e) => (m.ok => r.ok)

(* --------------------------- C02 ownership ----------------------------- *)
H_C02(s, e, r) ==
  LET o == s.c.own p == r.s.c.own IN
  /\ r.s.c.exists = "t" => IsSome(p.owner)
  /\ s.c.exists = "t" =>
       /\ p.owner # o.owner =>
            /\ Asked(s, e, "accept") /\ o.pend = Some(Asker(s, e)) /\ p.owner = Some(Asker(s, e))
            /\ IsSome(o.exp) => ~Expired(Get(o.exp), s.core.time, s.core.height)
       /\ p # o => Asked(s, e, "accept") \/ (Asked(s, e, "xfer") /\ IsOwner(s.c, Asker(s, e)))
       /\ IsM(e, "xfer") /\ ByOwner(s, e) /\ e.m.to \in ValidAddr => r.ok /\ p = [owner |-> o.owner, pend |-> Some(e.m.to), exp |-> e.m.exp]
       /\ IsM(e, "xfer") /\ ~ByOwner(s, e) => Refused(s, r)
       /\ IsM(e, "accept") /\ o.pend = Some(e.sender) /\ (IsSome(o.exp) => ~Expired(Get(o.exp), s.core.time, s.core.height))
            => r.ok /\ p = [owner |-> Some(e.sender), pend |-> None, exp |-> None]
       /\ Asked(s, e, "renounce") => Refused(s, r)
       /\ IsExec(e) /\ e.m.k \in Control /\ ~ByOwner(s, e) => Refused(s, r)
       /\ IsM(e, "setcb") /\ ByOwner(s, e) /\ (IsSome(e.m.a) => Get(e.m.a) \in ValidAddr) => r.ok
A_C02(s, e, m, r) ==
  /\ IsExec(e) /\ e.m.k \in {"xfer", "accept", "renounce", "setcb"} => m.ok = r.ok
  /\ IsExec(e) /\ ByOwner(s, e) => (m.ok => r.ok)
  /\ m.s.c.exists = r.s.c.exists => m.s.c.own = r.s.c.own

(* ------------------- C03 who may start a handshake --------------------- *)
Starts(s, e) == e.op = "inst" \/ IsM(e, "create") \/ Within(s, e, "create")
H_C03(s, e, r) ==
  /\ e.op = "open_init" => Refused(s, r)
  /\ r.ok /\ Starts(s, e) => /\ Len(Effs(r, "open_init")) = 1
                             /\ Len(r.s.core.chans) = Len(s.core.chans) + 1
                             /\ e.op = "inst" \/ IsOwner(s.c, IF IsExec(e) THEN e.sender ELSE Get(s.c.cb))
  /\ ~Starts(s, e) /\ e.op # "legacy" => NoEff(r, "open_init") /\ NoEff(r, "ver") /\ Len(r.s.core.chans) = Len(s.core.chans)
A_C03(s, e, m, r) ==
  /\ Starts(s, e) => m.ok = r.ok
  /\ e.op = "open_init" => m.ok = r.ok

(* ------------------------------ C04 closing ---------------------------- *)
Closing(s, e) == IsM(e, "close") \/ Within(s, e, "close")
H_C04(s, e, r) ==
  /\ ~NoEff(r, "close") => /\ Closing(s, e) /\ IsOwner(s.c, IF IsExec(e) THEN e.sender ELSE Get(s.c.cb))
                           /\ Len(Effs(r, "close")) = 1
  /\ IsM(e, "close") /\ r.ok => /\ HasOpen(s.c)
                                /\ Len(Effs(r, "close")) = 1 /\ Effs(r, "close")[1].chan = ChOf(s).c.id
                                /\ r.s.c.ch = Some([c |-> ChOf(s).c, st |-> Closed])
  /\ e.op = "close_init" => Refused(s, r)
  /\ e.op = "close_confirm" /\ r.ok => /\ HasOpen(s.c) /\ ChOf(s).c = Described(s, e)
                                       /\ r.s.c.ch = Some([c |-> ChOf(s).c, st |-> Closed])
  /\ e.op = "close_confirm" /\ ~r.ok => Refused(s, r)
  /\ /\ e.op = "close_confirm" /\ HasOpen(s.c) /\ HasChan(s, e.chan)
     /\ ChanOf(s, e.chan).st = "OPEN" \/ Forced(e)
     /\ ChOf(s).c = Described(s, e)
     => r.ok
A_C04(s, e, m, r) ==
  /\ IsM(e, "close") \/ e.op \in {"close_init", "close_confirm"} => m.ok = r.ok /\ m.s.c.ch = r.s.c.ch
  /\ m.ok = r.ok => Effs(m, "close") = Effs(r, "close")

(* ------------------------ C05 one active channel ----------------------- *)
H_C05(s, e, r) ==
  /\ HasOpen(s.c) /\ (e.op = "open_ack" \/ IsM(e, "create")) => Refused(s, r)
  /\ Cardinality(OpenChans(s)) <= 1 /\ Untampered(e) => Cardinality(OpenChans(r.s)) <= 1 \/ e.op = "legacy"
  /\ /\ IsM(e, "create") /\ ByOwner(s, e) /\ ~HasOpen(s.c) /\ IsSome(Wanted(s, e.m)) /\ GoodOpts(Get(Wanted(s, e.m))) /\ Room(s) /\ Untampered(e)
     => r.ok
  /\ e.op = "open_ack" /\ ~HasOpen(s.c) /\ HonestAck(s, e) /\ CbAccepts(s, e) => r.ok
A_C05(s, e, m, r) == IsM(e, "create") \/ e.op \in {"inst", "open_ack"} => m.ok = r.ok

(* ------------------------- C06 reported status ------------------------- *)
InStep(s) == IsSome(s.c.ch) => (HasOpen(s.c) <=> (HasChan(s, ChOf(s).c.id) /\ ChanOf(s, ChOf(s).c.id).st = "OPEN"))
H_C06(s, e, r) ==
  /\ InStep(s) /\ Untampered(e) => InStep(r.s)
  /\ e.op \in {"ack", "migrate", "tick", "open_init", "recv", "open_try", "open_confirm"} /\ ~Within(s, e, "close") => r.s.c.ch = s.c.ch
  /\ e.op = "timeout" /\ ~Within(s, e, "close") =>
       \/ r.s.c.ch = s.c.ch
       \/ IsSome(s.c.ch) /\ ChOf(s).c.id = e.chan /\ ChOf(s).c.order = "ORDER_ORDERED" /\ r.s.c.ch = Some([c |-> ChOf(s).c, st |-> Closed])
  /\ e.op = "open_ack" /\ r.ok => IsSome(r.s.c.ch) /\ ChOf(r.s).c.id = AckDescribed(s, e).id /\ (ChOf(r.s).st = Open \/ Within(s, e, "close"))
  /\ IsSome(r.s.c.ch) /\ e.op # "legacy" => (IsSome(s.c.ch) /\ ChOf(s).c = ChOf(r.s).c) \/ (e.op = "open_ack" /\ r.ok)
  /\ e.op # "legacy" /\ IsSome(s.c.ch) => IsSome(r.s.c.ch)
A_C06(s, e, m, r) ==
  /\ m.ok = r.ok => m.s.c.ch = r.s.c.ch
  /\ IsM(e, "close") \/ e.op \in {"close_confirm", "timeout"} => m.ok = r.ok

(* ------------------------- C07 valid metadata -------------------------- *)
H_C07(s, e, r) ==
  /\ e.op = "open_ack" /\ r.ok => /\ ValidMetadata(e.cver, AckDescribed(s, e).conn) /\ e.cver.addr # ""
  /\ e.op = "open_ack" /\ ~r.ok => Refused(s, r)
  /\ e.op = "open_ack" /\ HonestAck(s, e) /\ ~HasOpen(s.c) /\ CbAccepts(s, e) => r.ok
  /\ r.ok /\ (e.op = "inst" \/ IsM(e, "create")) =>
       /\ Len(Effs(r, "ver")) = 1
       /\ LET k == r.s.core.chans[Len(r.s.core.chans)]
              d == Altered([Describe(k) EXCEPT !.ver = IF ~NoEff(r, "open_init") THEN Effs(r, "open_init")[1].ver ELSE @], Tam(e))
              v == Effs(r, "ver")[1].v
          IN /\ d.cport = HostPort
             /\ IsSome(v) /\ ValidMetadata(Get(v), d.conn)
             /\ IsEmptyVersion(d.ver) \/ ValidMetadata(d.ver, d.conn)
  /\ (e.op = "inst" \/ IsM(e, "create")) /\ ~r.ok => r.s.c.ica = s.c.ica /\ r.s.c.ch = s.c.ch
A_C07(s, e, m, r) ==
  /\ e.op \in {"inst", "open_ack", "open_init"} \/ IsM(e, "create") => m.ok = r.ok

(* ----------------------- C08 the recorded account ---------------------- *)
H_C08(s, e, r) ==
  /\ e.op = "open_ack" /\ r.ok =>
       /\ r.s.c.ica = Some([addr |-> e.cver.addr, chan |-> AckDescribed(s, e).id, enc |-> e.cver.enc])
       /\ IsSome(r.s.c.ch) /\ ChOf(r.s).c = [AckDescribed(s, e) EXCEPT !.ver = e.cver]
  /\ ~(e.op = "open_ack" /\ r.ok) /\ e.op # "legacy" /\ ~(e.op = "migrate" /\ IsSome(e.enc)) =>
       /\ r.s.c.ica = s.c.ica
       /\ [i \in 1..Len(r.s.c.ch) |-> r.s.c.ch[i].c] = [i \in 1..Len(s.c.ch) |-> s.c.ch[i].c]
  /\ \A i \in 1..Len(Sends(r)) :
       LET acc == IF e.op = "open_ack" THEN r.s.c.ica ELSE s.c.ica IN
       /\ IsSome(acc) /\ Sends(r)[i].chan = Get(acc).chan
A_C08(s, e, m, r) ==
  m.ok = r.ok =>
    /\ m.s.c.ica = r.s.c.ica
    /\ [i \in 1..Len(m.s.c.ch) |-> m.s.c.ch[i].c] = [i \in 1..Len(r.s.c.ch) |-> r.s.c.ch[i].c]
    /\ SameAll(Sends(m), Sends(r), LAMBDA a, b : a.chan = b.chan /\ SameSendMsgs(a, b))

(* ---------------------------- C09 proposals ---------------------------- *)
OptsFor(s, e) == IF e.op = "inst" THEN Some(e.opts)
                 ELSE IF IsM(e, "create") THEN Wanted(s, e.m) ELSE IF Within(s, e, "create") THEN Wanted(s, e.re) ELSE None
H_C09(s, e, r) ==
  /\ \A i \in 1..Len(Effs(r, "open_init")) :
       LET x == Effs(r, "open_init")[i] o == OptsFor(s, e) IN
       /\ IsSome(o)
       /\ x.port = "wasm.self" /\ x.signer = "self" /\ x.conns = <<Get(o).conn>> /\ x.cchan = ""
       /\ x.cport = (IF IsSome(Get(o).cport) THEN Get(Get(o).cport) ELSE "icahost")
       /\ x.order = (IF IsSome(Get(o).ord) THEN Get(Get(o).ord) ELSE "ORDER_ORDERED")
       /\ SameVersion(x.ver, [k |-> "md", fmt |-> "std", ver |-> "ics27-1", cc |-> Get(o).conn, hc |-> Get(o).cconn, addr |-> "",
                              enc |-> "proto3", tx |-> "sdk_multi_msg"])
  /\ r.ok /\ IsSome(OptsFor(s, e)) => r.s.c.opts = OptsFor(s, e) /\ Len(Effs(r, "open_init")) = 1
  /\ ~r.ok => r.s.c.opts = s.c.opts
A_C09(s, e, m, r) ==
  /\ Starts(s, e) => m.ok = r.ok
  /\ m.ok = r.ok => /\ SameAll(Effs(m, "open_init"), Effs(r, "open_init"), SameOpenInit)
                    /\ SameAll(Effs(m, "ver"), Effs(r, "ver"), SameVer)

(* ------------------------------ C10 sending ---------------------------- *)
H_C10(s, e, r) ==
  /\ IsM(e, "send") /\ r.ok =>
       /\ ByOwner(s, e) /\ IsSome(s.c.ica) /\ Get(s.c.ica).enc = "proto3"
       /\ Len(Sends(r)) = 1 /\ NoEff(r, "cb") /\ NoEff(r, "close") /\ NoEff(r, "open_init") /\ NoEff(r, "other")
       /\ LET p == Sends(r)[1] n == Len(e.m.msgs) q == IF e.m.qs = <<>> THEN 0 ELSE 1 IN
          /\ p.chan = Get(s.c.ica).chan
          /\ p.data.k = "pkt" /\ p.data.memo = e.m.memo
          /\ Len(p.data.msgs) = n + q
          /\ \A i \in 1..n : p.data.msgs[i].url = MsgUrl(e.m.msgs[i])
          /\ q = 1 => p.data.msgs[n + 1].url = QueryUrl /\ p.data.msgs[n + 1].v.signer = Get(s.c.ica).addr
                      /\ Len(p.data.msgs[n + 1].v.requests) = Len(e.m.qs)
          /\ p.th = None
          /\ p.ts = PlusSeconds(s.core.time, IF IsSome(e.m.tmo) THEN Get(e.m.tmo) ELSE <<0, 0, 600>>)
       /\ Len(r.s.core.out) = Len(s.core.out) + 1
       /\ View(r.s) = View(s)
  /\ IsM(e, "send") /\ ~r.ok => Refused(s, r)
  /\ ~IsSome(SendOf(s, e)) => NoEff(r, "send")
A_C10(s, e, m, r) ==
  /\ IsM(e, "send") => m.ok = r.ok
  /\ m.ok = r.ok => SameAll(Sends(m), Sends(r), SameSendShape)

(* ------------------------- C11 message meaning ------------------------- *)
\* the account signs every message that is not passed through raw
Signer(x) == CASE "sender" \in DOMAIN x -> x.sender
               [] "from_address" \in DOMAIN x -> x.from_address
               [] "voter" \in DOMAIN x -> x.voter
               [] "delegator_address" \in DOMAIN x -> x.delegator_address
               [] "depositor" \in DOMAIN x -> x.depositor
H_C11(s, e, r) ==
  IsM(e, "send") /\ r.ok /\ Len(Sends(r)) = 1 =>
    LET p == Sends(r)[1].data IN
    /\ Len(p.msgs) >= Len(e.m.msgs)
    /\ \A i \in 1..Len(e.m.msgs) :
       /\ EntryMatches(MsgEntry(e.m.msgs[i], Get(s.c.ica).addr), p.msgs[i])
       /\ e.m.msgs[i].t # "stargate" => Signer(p.msgs[i].v) = Get(s.c.ica).addr
A_C11(s, e, m, r) ==
  /\ IsM(e, "send") => (m.ok => r.ok)
  /\ m.ok = r.ok => SameAll(Sends(m), Sends(r), SameSendMsgs)

(* --------------------------- C12 query results ------------------------- *)
H_C12(s, e, r) ==
  /\ e.op = "ack" /\ r.ok =>
       \A i \in 1..Len(CbOf(r)) :
         LET x == CbOf(r)[i] qs == QueriesOf(s, e) IN
         /\ x.m.k = "ack"
         /\ IsSome(x.m.qr) <=> qs # <<>>
         /\ qs # <<>> /\ e.a.k = "error" => Get(x.m.qr).k = "err" /\ Get(x.m.qr).msg = e.a.s
         /\ qs # <<>> /\ e.a.k = "result" =>
              LET as == Get(e.a.d.q).rs IN
              IF Len(as) # Len(qs) THEN Get(x.m.qr).k = "err"
              ELSE Get(x.m.qr).k = "ok" => /\ Get(x.m.qr).h = Get(e.a.d.q).h
                                           /\ Len(Get(x.m.qr).rs) = Len(qs)
                                           /\ \A j \in 1..Len(qs) : Get(x.m.qr).rs[j].t = qs[j].t /\ Some(Get(x.m.qr).rs[j]) = Ans(qs[j], as[j])
  /\ e.op # "ack" => \A i \in 1..Len(CbOf(r)) : CbOf(r)[i].m.k # "ack"
A_C12(s, e, m, r) ==
  /\ e.op = "ack" => m.ok = r.ok
  /\ m.ok = r.ok => SameQrs(m, r)

(* -------------------------- C13 query meaning -------------------------- *)
H_C13(s, e, r) ==
  IsM(e, "send") /\ r.ok /\ Len(Sends(r)) = 1 /\ e.m.qs # <<>> =>
    LET p == Sends(r)[1].data.msgs[Len(e.m.msgs) + 1] IN
    /\ p.url = QueryUrl /\ Len(p.v.requests) = Len(e.m.qs)
    /\ \A i \in 1..Len(e.m.qs) : QueryMatches(QueryEntry(e.m.qs[i]), p.v.requests[i])
A_C13(s, e, m, r) ==
  /\ IsM(e, "send") => (m.ok => r.ok)
  /\ e.op = "ack" => m.ok = r.ok
  /\ m.ok = r.ok => SameAll(Sends(m), Sends(r), SameSendQueries) /\ SameQrs(m, r)

(* ---------------------------- C14 callbacks ---------------------------- *)
H_C14(s, e, r) ==
  /\ e.op \in LifeOps /\ r.ok =>
       /\ Len(CbOf(r)) = Len(s.c.cb)
       /\ IsSome(s.c.cb) => LET x == CbOf(r)[1] IN
            /\ x.to = Get(s.c.cb) /\ x.funds = <<>>
            /\ x.m.k = (CASE e.op = "open_ack" -> "open" [] e.op = "ack" -> "ack" [] e.op = "timeout" -> "timeout")
            /\ e.op \in {"ack", "timeout"} => x.m.pkt = PacketMsg(PktOf(s, e), ChanOf(s, e.chan)) /\ x.m.rel = e.rel
            /\ e.op = "ack" => x.m.ack.k = e.a.k /\ x.m.ack.d = (IF e.a.k = "result" THEN AckTok(e.a) ELSE e.a.s)
            /\ e.op = "open_ack" => x.m.ch = [AckDescribed(s, e) EXCEPT !.ver = e.cver] /\ x.m.ica = e.cver.addr /\ x.m.enc = e.cver.enc
  /\ e.op \notin LifeOps \/ ~r.ok => NoEff(r, "cb")
A_C14(s, e, m, r) ==
  /\ e.op \in LifeOps => m.ok = r.ok
  /\ m.ok = r.ok => CbsNoQr(m) = CbsNoQr(r) /\ m.s.c.cb = r.s.c.cb

(* ------------------------- C15 callbacks can veto ---------------------- *)
H_C15(s, e, r) ==
  /\ e.op \in LifeOps /\ CbFails(s, e) => Refused(s, r)
  /\ NoEff(r, "swallowed")
A_C15(s, e, m, r) ==
  e.op \in LifeOps => m.ok = r.ok /\ (m.ok => View(m.s) = View(r.s) /\ CbsNoQr(m) = CbsNoQr(r) /\ SameQrs(m, r))

(* ------------------------------ C16 events ----------------------------- *)
H_C16(s, e, r) ==
  /\ e.op = "ack" /\ r.ok =>
       /\ Len(AckEvs(r)) = 1
       /\ LET x == AckEvs(r)[1] IN
          \A a \in { <<"packet_sequence", DecL(e.seq)>>, <<"packet_src_port", "wasm.self">>, <<"packet_src_channel", e.chan>>,
                     IF e.a.k = "result" THEN <<"packet_ack_base64", AckTok(e.a)>> ELSE <<"error", e.a.s>> } : a \in Range(x.at)
  /\ e.op # "ack" \/ ~r.ok => AckEvs(r) = <<>>
A_C16(s, e, m, r) ==
  /\ e.op = "ack" => m.ok = r.ok
  /\ m.ok = r.ok => SameAll(AckEvs(m), AckEvs(r), SameEv)

(* --------------------------- C17 availability -------------------------- *)
H_C17(s, e, r) ==
  /\ e.op = "ack" /\ HasPkt(s, e) /\ CbAccepts(s, e) => r.ok
  /\ e.op = "timeout" /\ HasPkt(s, e) /\ CbAccepts(s, e) => r.ok
  /\ e.op = "close_confirm" /\ Untampered(e) /\ HasOpen(s.c) /\ InStep(s) /\ e.chan = ChOf(s).c.id /\ ChOf(s).c = Described(s, e) => r.ok
  /\ IsM(e, "create") /\ Untampered(e) /\ ByOwner(s, e) /\ ~HasOpen(s.c) /\ Room(s) /\ IsSome(Wanted(s, e.m)) /\ GoodOpts(Get(Wanted(s, e.m))) => r.ok
  /\ e.op = "open_ack" /\ HonestAck(s, e) /\ ~HasOpen(s.c) /\ CbAccepts(s, e) => r.ok
  /\ /\ IsM(e, "send") /\ ByOwner(s, e) /\ HasOpen(s.c) /\ InStep(s) /\ IsSome(s.c.ica) /\ Get(s.c.ica).chan = ChOf(s).c.id
     /\ Get(s.c.ica).enc = "proto3" /\ AllSupported(e.m) /\ IsSome(TimeoutOf(e.m, s.core.time))
     => r.ok
A_C17(s, e, m, r) ==
  (e.op \in {"ack", "timeout", "close_confirm", "open_ack"} \/ (IsExec(e) /\ e.m.k \in {"create", "send"})) => (m.ok => r.ok)

(* ---------------------------- C18 migration ---------------------------- *)
H_C18(s, e, r) ==
  e.op = "migrate" /\ ~ViaFails(e) =>
    /\ r.ok <=> /\ e.name = ContractName /\ IsSome(e.sv) /\ LowerVersion(Get(e.sv))
                /\ IsSome(s.c.ica) => (IF IsSome(e.enc) THEN Get(e.enc) ELSE Get(s.c.ica).enc) = "proto3"
    /\ ~r.ok => Refused(s, r)
    /\ r.ok => /\ View(r.s) = [View(s) EXCEPT !.ver = [name |-> ContractName, ver |-> ThisVersion.s]]
               /\ r.s.core = s.core /\ r.eff = SelectSeq(r.eff, LAMBDA x : x.k \in {"ev", "hm"})
               /\ r.s.ctr = s.ctr
A_C18(s, e, m, r) ==
  /\ e.op = "migrate" => m.ok = r.ok /\ View(m.s) = View(r.s)

(* ------------------------------- C19 role ------------------------------ *)
H_C19(s, e, r) == e.op \in {"open_try", "open_confirm", "recv"} => Refused(s, r)
A_C19(s, e, m, r) == TRUE

(* --------------------------- C20 instantiation ------------------------- *)
H_C20(s, e, r) ==
  e.op = "inst" /\ s.c.exists = "f" =>
    LET own == IF IsSome(e.owner) THEN Get(e.owner) ELSE e.sender IN
    /\ r.ok => /\ own \in ValidAddr /\ (IsSome(e.cb) => Get(e.cb) \in ValidAddr)
               /\ View(r.s) = [exists |-> "t", own |-> [owner |-> Some(own), pend |-> None, exp |-> None], cb |-> e.cb, ica |-> None,
                               ch |-> None, ver |-> [name |-> ContractName, ver |-> ThisVersion.s]]
               /\ Len(Effs(r, "open_init")) = 1 /\ Len(r.s.core.chans) = 1
    /\ ~r.ok => r.s.c.exists = "f" /\ r.s.core.chans = <<>>
    /\ own \in ValidAddr /\ (IsSome(e.cb) => Get(e.cb) \in ValidAddr) /\ GoodOpts(e.opts) /\ Room(s) /\ Untampered(e) => r.ok
\* the requested options are those of the handshake, and of the next one if that names none
AsInstantiated(s, e) == IsM(e, "create") /\ ~IsSome(e.m.opts) /\ Len(s.core.chans) = 1
A_C20(s, e, m, r) ==
  /\ e.op = "inst" => m.ok = r.ok
  /\ (e.op = "inst" \/ AsInstantiated(s, e)) /\ m.ok /\ r.ok => SameAll(Effs(m, "open_init"), Effs(r, "open_init"), SameOpenInit)

(* ------------------------ C21 integration helpers ---------------------- *)
H_C21(s, e, r) ==
  LET hms == Effs(r, "hm") hqs == Effs(r, "hq") v == Via(e) IN
  /\ r.ok /\ (v.t # "none" \/ e.op = "admin") => Len(hms) = 1
  /\ \A i \in 1..Len(hms) :
       LET h == hms[i] IN
       /\ h.t = (CASE v.t = "exec" -> "execute" [] v.t = "migrate" -> "migrate" [] v.t = "inst" -> "instantiate" [] v.t = "inst2" -> "instantiate2"
                   [] OTHER -> IF IsSome(e.admin) THEN "update_admin" ELSE "clear_admin")
       /\ "funds" \in DOMAIN h => h.funds = <<>>
       /\ v.t = "none" => h.addr = e.to /\ h.admin = e.admin
       /\ v.t \in {"exec", "migrate"} => h.addr = v.to
       /\ v.t \in {"migrate", "inst", "inst2"} => h.code = v.code
       /\ v.t \in {"inst", "inst2"} => h.label = v.label /\ h.admin = v.admin
       /\ v.t = "inst2" => h.salt = v.salt
  /\ Len(Effs(r, "predicted")) = Len(Effs(r, "assigned"))
  /\ \A i \in 1..Len(Effs(r, "predicted")) : Effs(r, "predicted")[i].a = Effs(r, "assigned")[i].a
  /\ e.op = "hquery" /\ e.to = "self" /\ s.c.exists = "t" => r.ok /\ Len(hqs) = 1
  /\ \A i \in 1..Len(hqs) : \A f \in {"own", "cb", "ica", "ch"} : hqs[i][f] = s.c[f]
\* a request built by a helper does what the same request made directly does
A_C21(s, e, m, r) == (Via(e).t # "none" \/ e.op \in {"admin", "hquery"}) => SameEverything(m, r) /\ Effs(m, "hm") = Effs(r, "hm") /\ Effs(m, "hq") = Effs(r, "hq")

(* --------------------------- C23 receivers ----------------------------- *)
H_C23(s, e, r) ==
  /\ \A i \in 1..Len(CbOf(r)) : "mac" \in DOMAIN CbOf(r)[i] => CbOf(r)[i].mac = "t"
  \* receivers written against the published form, not against this version of the crate
  /\ \A i \in 1..Len(CbOf(r)) : CbOf(r)[i].m.k # "garbled"
  /\ LET n(f) == Len(f.success) + Len(f.error) + Len(f.timeout)
         told == e.op \in {"ack", "timeout"} /\ r.ok /\ s.c.cb = Some("ctr")
         again == e.op = "again" /\ r.ok
     IN n(r.s.ctr) = n(s.ctr) + (IF told \/ again THEN 1 ELSE 0)
  /\ e.op = "again" => (r.ok <=> s.c.exists = "t" /\ e.i <= Len(s.ctr[e.f]))
A_C23(s, e, m, r) ==
  /\ e.op \in LifeOps /\ s.c.cb = Some("ctr") => (m.ok => r.ok)
  \* what is filed is what was told
  /\ r.ok /\ s.c.cb = Some("ctr") /\ Len(CbOf(r)) = 1 => r.s.ctr = CounterFile(s.ctr, CbOf(r)[1].m)
  /\ ~(r.ok /\ s.c.cb = Some("ctr")) /\ e.op # "again" => r.s.ctr = s.ctr
  /\ e.op = "again" => m.ok = r.ok /\ m.s.ctr = r.s.ctr

(* ------------------------ C24 unsupported requests --------------------- *)
H_C24(s, e, r) ==
  /\ IsM(e, "send") /\ ~AllSupported(e.m) => Refused(s, r)
  /\ Within(s, e, "send") /\ ~AllSupported(e.re) => Refused(s, r)
A_C24(s, e, m, r) ==
  /\ IsM(e, "send") => m.ok = r.ok
  /\ e.op \in {"ack", "timeout"} => m.ok = r.ok
  /\ m.ok = r.ok => SameAll(Sends(m), Sends(r), SameSendShape) /\ SameQrs(m, r)

(* -------------------------- C25 bounded storage ------------------------ *)
Asking(s) == SelectSeq(s.core.out, LAMBDA p : p.qs # <<>>)
H_C25(s, e, r) ==
  /\ r.s.c.tmpq = <<>> /\ ~r.s.c.ao /\ ~r.s.c.ac
  /\ Len(r.s.c.pend) = Len(Asking(r.s))
  /\ \A i \in 1..Len(r.s.c.pend) : \E p \in Range(Asking(r.s)) : r.s.c.pend[i] = [chan |-> p.chan, seq |-> p.seq, qs |-> p.qs]
A_C25(s, e, m, r) == TRUE
\* what is stored under how many keys, while n packets with queries are in flight
Bounded(kept, n) == kept.keys <= 16 + 4 * n /\ kept.bytes <= 4096 + 512 * n + 8 * kept.asked

(* ------------------------ C26 the form of requests --------------------- *)
H_C26(s, e, r) == e.op = "garbled" => Refused(s, r)
\* the form in which a well-formed request is written does not matter
A_C26(s, e, m, r) ==
  (IsExec(e) /\ "jf" \in DOMAIN e.m) \/ (e.op = "inst" /\ "jf" \in DOMAIN e) =>
    /\ m.ok = r.ok
    /\ View(m.s) = View(r.s)
    /\ SameAll(Effs(m, "open_init"), Effs(r, "open_init"), SameOpenInit)
    /\ SameAll(Sends(m), Sends(r), SameSendShape)

Holds(p, s, e, r) ==
  CASE p = "C01" -> H_C01(s, e, r) [] p = "C02" -> H_C02(s, e, r) [] p = "C03" -> H_C03(s, e, r) [] p = "C04" -> H_C04(s, e, r)
    [] p = "C05" -> H_C05(s, e, r) [] p = "C06" -> H_C06(s, e, r) [] p = "C07" -> H_C07(s, e, r) [] p = "C08" -> H_C08(s, e, r)
    [] p = "C09" -> H_C09(s, e, r) [] p = "C10" -> H_C10(s, e, r) [] p = "C11" -> H_C11(s, e, r) [] p = "C12" -> H_C12(s, e, r)
    [] p = "C13" -> H_C13(s, e, r) [] p = "C14" -> H_C14(s, e, r) [] p = "C15" -> H_C15(s, e, r) [] p = "C16" -> H_C16(s, e, r)
    [] p = "C17" -> H_C17(s, e, r) [] p = "C18" -> H_C18(s, e, r) [] p = "C19" -> H_C19(s, e, r) [] p = "C20" -> H_C20(s, e, r)
    [] p = "C21" -> H_C21(s, e, r) [] p = "C23" -> H_C23(s, e, r) [] p = "C24" -> H_C24(s, e, r)
    [] p = "C25" -> H_C25(s, e, r) [] p = "C26" -> H_C26(s, e, r)
Agrees(p, s, e, m, r) ==
  CASE p = "C01" -> A_C01(s, e, m, r) [] p = "C02" -> A_C02(s, e, m, r) [] p = "C03" -> A_C03(s, e, m, r) [] p = "C04" -> A_C04(s, e, m, r)
    [] p = "C05" -> A_C05(s, e, m, r) [] p = "C06" -> A_C06(s, e, m, r) [] p = "C07" -> A_C07(s, e, m, r) [] p = "C08" -> A_C08(s, e, m, r)
    [] p = "C09" -> A_C09(s, e, m, r) [] p = "C10" -> A_C10(s, e, m, r) [] p = "C11" -> A_C11(s, e, m, r) [] p = "C12" -> A_C12(s, e, m, r)
    [] p = "C13" -> A_C13(s, e, m, r) [] p = "C14" -> A_C14(s, e, m, r) [] p = "C15" -> A_C15(s, e, m, r) [] p = "C16" -> A_C16(s, e, m, r)
    [] p = "C17" -> A_C17(s, e, m, r) [] p = "C18" -> A_C18(s, e, m, r) [] p = "C19" -> A_C19(s, e, m, r) [] p = "C20" -> A_C20(s, e, m, r)
    [] p = "C21" -> A_C21(s, e, m, r) [] p = "C23" -> A_C23(s, e, m, r) [] p = "C24" -> A_C24(s, e, m, r)
    [] p = "C25" -> A_C25(s, e, m, r) [] p = "C26" -> A_C26(s, e, m, r)
\* requests that the contract must not leave to the chain to refuse
Guards(p, e) ==
  /\ IsExec(e)
  /\ CASE e.m.k = "create" -> p \in {"C01", "C03", "C05", "C09", "ALL"}
       [] e.m.k = "close"  -> p \in {"C01", "C04", "C06", "ALL"}
       [] e.m.k = "send"   -> p \in {"C01", "C08", "C10", "ALL"}
       [] OTHER            -> p \in {"C01", "C02", "ALL"}
AllProps == {"C01","C02","C03","C04","C05","C06","C07","C08","C09","C10","C11","C12","C13","C14","C15","C16","C17","C18","C19","C20","C21","C23","C24","C25","C26"}
=============================================================================
