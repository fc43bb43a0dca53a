----------------------------- MODULE Controller -----------------------------
(* The contract: one operator per entry point.  Each takes the contract's   *)
(* stored state c and returns [ok, c, msgs, ev (, ver)]: whether the call    *)
(* succeeds, the new stored state, the messages handed to the chain in       *)
(* order, and the events emitted.                                            *)
EXTENDS Conv

CONSTANT ThisVersion       \* [s |-> "0.20.0", n |-> <<0, 20, 0>>]
ContractName == "crates.io:cw-ica-controller"

\* accounts the chain considers well-formed; any other text is not an address
ValidAddr == {"self", "owner", "alice", "bob", "carol", "cbk", "ctr", "relayer", "deployer", "cbk2"}

HostPort == "icahost"
Open == "STATE_OPEN"
Closed == "STATE_CLOSED"

No(c) == [ok |-> FALSE, c |-> c, msgs |-> <<>>, ev |-> <<>>]
Yes(c, ms) == [ok |-> TRUE, c |-> c, msgs |-> ms, ev |-> <<>>]

NoContract ==
  [exists |-> "f", own |-> [owner |-> None, pend |-> None, exp |-> None], cb |-> None, ica |-> None, ch |-> None,
   ver |-> [name |-> "", ver |-> ""], opts |-> None, ao |-> FALSE, ac |-> FALSE, tmpq |-> <<>>, pend |-> <<>>]

IsOwner(c, a) == c.own.owner = Some(a)
HasOpen(c) == IsSome(c.ch) /\ Get(c.ch).st = Open

(* --------------------------- version metadata -------------------------- *)
Metadata(cc, hc, addr) ==
  [k |-> "md", fmt |-> "std", ver |-> "ics27-1", cc |-> cc, hc |-> hc, addr |-> addr, enc |-> "proto3", tx |-> "sdk_multi_msg"]
IsEmptyVersion(v) == v.k = "raw" /\ v.s = ""
WellFormed(v) == v.k = "md" /\ v.fmt \in {"std", "ws", "rev", "other"} /\ v.enc \in {"proto3", "proto3json"}
ValidIcaAddr(a) == a = "" \/ (Len(a) <= 128 /\ ByteLen(a) <= 128 /\ Alphanumeric(a))
ValidMetadata(v, conn) ==
  /\ WellFormed(v)
  /\ v.ver = "ics27-1"
  /\ v.cc = conn
  /\ v.enc = "proto3"
  /\ ValidIcaAddr(v.addr)
  /\ v.tx = "sdk_multi_msg"
\* equal as metadata: the text may be laid out differently
SameVersion(a, b) ==
  IF a.k = "md" /\ b.k = "md" THEN [a EXCEPT !.fmt = ""] = [b EXCEPT !.fmt = ""]
  ELSE a.k = b.k /\ a.s = b.s

(* ------------------------------ proposals ------------------------------ *)
OpenInitMsg(o) ==
  [k |-> "open_init", port |-> "wasm.self", signer |-> "self", conns |-> <<o.conn>>,
   cport |-> IF IsSome(o.cport) THEN Get(o.cport) ELSE HostPort, cchan |-> "",
   order |-> IF IsSome(o.ord) THEN Get(o.ord) ELSE "ORDER_ORDERED",
   state |-> "1", ver |-> Metadata(o.conn, o.cconn, "")]

(* ------------------------------ instantiate ---------------------------- *)
Instantiate(sender, owner, cb, opts) ==
  LET own == IF IsSome(owner) THEN Get(owner) ELSE sender
      c == [NoContract EXCEPT !.exists = "t", !.own.owner = Some(own), !.cb = cb,
                              !.ver = [name |-> ContractName, ver |-> ThisVersion.s],
                              !.opts = Some(opts), !.ao = TRUE]
  IN IF own \in ValidAddr /\ (IsSome(cb) => Get(cb) \in ValidAddr)
     THEN Yes(c, <<OpenInitMsg(opts)>>) ELSE No(NoContract)

(* ------------------------------- execute ------------------------------- *)
CreateChannel(c, sender, optsArg) ==
  LET o == IF IsSome(optsArg) THEN optsArg ELSE c.opts
  IN IF ~IsOwner(c, sender) \/ ~IsSome(o) THEN No(c)
     ELSE Yes([c EXCEPT !.opts = o, !.ao = TRUE], <<OpenInitMsg(Get(o))>>)

CloseChannel(c, sender) ==
  IF ~IsOwner(c, sender) \/ ~HasOpen(c) THEN No(c)
  ELSE Yes([c EXCEPT !.ac = TRUE], <<[k |-> "close", chan |-> Get(c.ch).c.id]>>)

AllSupported(m) == /\ \A i \in 1..Len(m.msgs) : m.msgs[i].t \in SupportedMsg
                   /\ \A i \in 1..Len(m.qs) : m.qs[i].t \in SupportedQuery
DefaultTimeout == <<0, 0, 600>>
TimeoutOf(m, now) == PlusSeconds(now, IF IsSome(m.tmo) THEN Get(m.tmo) ELSE DefaultTimeout)
PacketOf(m, ica) ==
  [k |-> "pkt", typ |-> "1", memo |-> m.memo,
   msgs |-> [i \in 1..Len(m.msgs) |-> MsgEntry(m.msgs[i], ica)] \o
            IF m.qs = <<>> THEN <<>>
            ELSE <<[url |-> QueryUrl, v |-> [signer |-> ica, requests |-> [i \in 1..Len(m.qs) |-> QueryEntry(m.qs[i])]]]>>]
Send(c, sender, m, now) ==
  IF \/ ~IsOwner(c, sender)
     \/ ~IsSome(c.ica)
     \/ Get(c.ica).enc # "proto3"
     \/ ~AllSupported(m)
     \/ ~IsSome(TimeoutOf(m, now))
  THEN No(c)
  ELSE Yes([c EXCEPT !.tmpq = m.qs],
           <<[k |-> "send", chan |-> Get(c.ica).chan, data |-> PacketOf(m, Get(c.ica).addr), ts |-> TimeoutOf(m, now),
              th |-> None, reply |-> m.qs # <<>>]>>)
\* the chain reports the sequence number of a packet that carries queries
SendReply(c, seq) ==
  [c EXCEPT !.tmpq = <<>>, !.pend = Append(@, [chan |-> Get(c.ica).chan, seq |-> seq, qs |-> c.tmpq])]

SetCallback(c, sender, a) ==
  IF ~IsOwner(c, sender) \/ (IsSome(a) /\ Get(a) \notin ValidAddr) THEN No(c)
  ELSE Yes([c EXCEPT !.cb = a], <<>>)

Expired(x, time, height) ==
  CASE x.k = "height" -> LeqL(x.n, height)
    [] x.k = "time"   -> LeqL(x.n, time)
    [] x.k = "never"  -> FALSE
Transfer(c, sender, to, exp) ==
  IF ~IsOwner(c, sender) \/ to \notin ValidAddr THEN No(c)
  ELSE Yes([c EXCEPT !.own = [owner |-> c.own.owner, pend |-> Some(to), exp |-> exp]], <<>>)
Accept(c, sender, time, height) ==
  IF \/ c.own.pend # Some(sender)
     \/ IsSome(c.own.exp) /\ Expired(Get(c.own.exp), time, height)
  THEN No(c)
  ELSE Yes([c EXCEPT !.own = [owner |-> Some(sender), pend |-> None, exp |-> None]], <<>>)

Execute(c, sender, m, time, height) ==
  CASE m.k = "create"   -> CreateChannel(c, sender, m.opts)
    [] m.k = "close"    -> CloseChannel(c, sender)
    [] m.k = "send"     -> Send(c, sender, m, time)
    [] m.k = "setcb"    -> SetCallback(c, sender, m.a)
    [] m.k = "xfer"     -> Transfer(c, sender, m.to, m.exp)
    [] m.k = "accept"   -> Accept(c, sender, time, height)
    [] m.k = "renounce" -> No(c)

(* ------------------------------ handshake ------------------------------ *)
\* d describes the channel as the chain presents it: [id, port, cport, cchan, order, conn, ver]
FromPrevious(c, d) ==
  IF IsSome(c.ch) /\ WellFormed(Get(c.ch).c.ver) THEN Some(Get(c.ch).c.ver)
  ELSE IF IsSome(c.opts) /\ Get(c.opts).conn = d.conn
       THEN Some(Metadata(Get(c.opts).conn, Get(c.opts).cconn, ""))
       ELSE None
OnOpenInit(c, d) ==
  LET v == IF IsEmptyVersion(d.ver) THEN FromPrevious(c, d) ELSE Some(d.ver)
  IN IF \/ ~c.ao
        \/ d.cport # HostPort
        \/ ~IsSome(v)
        \/ ~ValidMetadata(Get(v), d.conn)
        \/ HasOpen(c)
     THEN No(c) @@ [ver |-> None]
     ELSE Yes([c EXCEPT !.ao = FALSE], <<>>) @@ [ver |-> Some([Get(v) EXCEPT !.fmt = "std"])]

CallbackMsg(c, m) == IF IsSome(c.cb) THEN <<[k |-> "cb", to |-> Get(c.cb), funds |-> <<>>, m |-> m]>> ELSE <<>>

OnOpenAck(c, d, cver) ==
  IF \/ d.port = HostPort
     \/ ~ValidMetadata(cver, d.conn)
     \/ cver.addr = ""
     \/ HasOpen(c)
  THEN No(c)
  ELSE LET ch == [d EXCEPT !.ver = cver]
           c2 == [c EXCEPT !.ica = Some([addr |-> cver.addr, chan |-> d.id, enc |-> cver.enc]),
                           !.ch = Some([c |-> ch, st |-> Open])]
       IN Yes(c2, CallbackMsg(c, [k |-> "open", ch |-> ch, ica |-> cver.addr, enc |-> cver.enc]))

CloseRecorded(c, d) ==
  IF ~IsSome(c.ch) \/ ~HasOpen(c) \/ Get(c.ch).c # d THEN No(c)
  ELSE Yes([c EXCEPT !.ch = Some([c |-> d, st |-> Closed])], <<>>)
OnCloseInit(c, d) == IF ~c.ac THEN No(c) ELSE CloseRecorded([c EXCEPT !.ac = FALSE], d)
OnCloseConfirm(c, d) == CloseRecorded(c, d)

(* ------------------------------- packets ------------------------------- *)
PendingOf(c, p) == SelectSeq(c.pend, LAMBDA x : x.chan = p.chan /\ x.seq = p.seq)
Forget(c, p) == [c EXCEPT !.pend = SelectSeq(@, LAMBDA x : ~(x.chan = p.chan /\ x.seq = p.seq))]
AckTok(a) == IF "tok" \in DOMAIN a THEN a.tok ELSE "tok:ack"
AckEvent(p, a) ==
  [k |-> "ev", ty |-> "acknowledge_packet",
   at |-> <<<<"packet_sequence", DecL(p.seq)>>, <<"packet_src_port", p.port>>, <<"packet_src_channel", p.chan>>,
            IF a.k = "result" THEN <<"packet_ack_base64", AckTok(a)>> ELSE <<"error", a.s>>>>]
ResultFor(qs, a) ==
  IF a.k = "error" THEN [k |-> "err", msg |-> a.s]
  ELSE QueryResult(qs, Get(a.d.q).h, Get(a.d.q).rs)
OnAck(c, p, rel, a) ==
  LET asked == PendingOf(c, p)
      qr == IF asked = <<>> THEN None ELSE Some(ResultFor(asked[1].qs, a))
      cb == [k |-> "ack", ack |-> IF a.k = "result" THEN [k |-> "result", d |-> AckTok(a)] ELSE [k |-> "error", d |-> a.s],
             pkt |-> p, rel |-> rel, qr |-> qr]
  IN [Yes(Forget(c, p), CallbackMsg(c, cb)) EXCEPT !.ev = <<AckEvent(p, a)>>]
OnTimeout(c, p, rel) ==
  LET hit == IsSome(c.ch) /\ Get(c.ch).c.order = "ORDER_ORDERED" /\ Get(c.ch).c.id = p.chan
      c1 == IF hit THEN [c EXCEPT !.ch = Some([c |-> Get(c.ch).c, st |-> Closed])] ELSE c
  IN Yes(Forget(c1, p), CallbackMsg(c, [k |-> "timeout", pkt |-> p, rel |-> rel]))

(* ------------------------------- migrate ------------------------------- *)
LowerVersion(sv) == LET a == sv.n b == ThisVersion.n IN
  \/ a[1] < b[1] \/ (a[1] = b[1] /\ (a[2] < b[2] \/ (a[2] = b[2] /\ a[3] < b[3])))
  \/ (a = b /\ sv.pre = "t")
\* sv: the stored version if it is a semantic version
OnMigrate(c, name, sv) ==
  IF \/ name # ContractName
     \/ ~IsSome(sv)
     \/ ~LowerVersion(Get(sv))
     \/ IsSome(c.ica) /\ Get(c.ica).enc # "proto3"
  THEN No(c)
  ELSE Yes([c EXCEPT !.ver = [name |-> ContractName, ver |-> ThisVersion.s]], <<>>)
=============================================================================
