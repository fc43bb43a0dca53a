------------------------------- MODULE Themes -------------------------------
(* Event tables.  A theme is a finite alphabet of transactions chosen for a  *)
(* group of properties, with bounds; TLC explores every order of them and    *)
(* every explored transition is replayed on the implementation.              *)
EXTENDS Props

Env0 == [ids |-> <<"channel-0", "channel-1", "channel-2", "channel-3", "channel-4", "channel-5">>, seq0 |-> <<0, 0, 1>>, step |-> <<0, 0, 1>>,
         time |-> <<1, 700000000, 0>>, height |-> <<0, 0, 12345>>]
O(conn, cconn, cport, ord) == [conn |-> conn, cconn |-> cconn, cport |-> cport, ord |-> ord]
OptA == O("connection-0", "connection-7", None, None)                              \* defaults
OptB == O("connection-1", "connection-42", Some("icahost"), Some("ORDER_UNORDERED"))
OptC == O("connection-0", "connection-0", None, Some("ORDER_ORDERED"))
OptBadPort == O("connection-0", "connection-7", Some("transfer"), None)
OptBadConn == O("connection-99", "connection-7", None, None)
EInst(sender, owner, cb, opts) == [op |-> "inst", sender |-> sender, owner |-> owner, cb |-> cb, opts |-> opts, tam |-> NoTam, env |-> Env0]
X(sender, m) == [op |-> "exec", sender |-> sender, m |-> m, tam |-> NoTam, cbm |-> "ok"]
XT(sender, m, tam) == [op |-> "exec", sender |-> sender, m |-> m, tam |-> tam, cbm |-> "ok"]
MCreate(o) == [k |-> "create", opts |-> o]
MClose == [k |-> "close"]
MSend(msgs, qs, memo, tmo) == [k |-> "send", msgs |-> msgs, qs |-> qs, memo |-> memo, tmo |-> tmo, jf |-> ""]
MSetcb(a) == [k |-> "setcb", a |-> a]
MXfer(to, exp) == [k |-> "xfer", to |-> to, exp |-> exp]
MAccept == [k |-> "accept"]
MRenounce == [k |-> "renounce"]
Md(conn, hc, addr) == [k |-> "md", fmt |-> "std", ver |-> "ics27-1", cc |-> conn, hc |-> hc, addr |-> addr, enc |-> "proto3", tx |-> "sdk_multi_msg"]
EOpenAck(chan, cver, cbm) == [op |-> "open_ack", chan |-> chan, cchan |-> "channel-5", cver |-> cver, tam |-> NoTam, cbm |-> cbm]
ECloseConfirm(chan, tam) == [op |-> "close_confirm", chan |-> chan, tam |-> tam]
ECloseInit(chan, tam) == [op |-> "close_init", chan |-> chan, tam |-> tam]
EOpenInit(conn, ver) == [op |-> "open_init", conn |-> conn, cport |-> "icahost", order |-> "ORDER_ORDERED", ver |-> ver, tam |-> NoTam]
Seq_(n) == <<0, 0, n>>
EAck(chan, n, a, cbm) == [op |-> "ack", chan |-> chan, seq |-> Seq_(n), rel |-> "relayer", a |-> a, cbm |-> cbm]
ETimeout(chan, n, cbm) == [op |-> "timeout", chan |-> chan, seq |-> Seq_(n), rel |-> "relayer", cbm |-> cbm]
EMigrate(name, ver, sv, enc) == [op |-> "migrate", name |-> name, ver |-> ver, sv |-> sv, enc |-> enc]
EAgain(f, i) == [op |-> "again", f |-> f, i |-> i, sender |-> "self"]
ETick(dt, dh) == [op |-> "tick", dt |-> dt, dh |-> dh]
Sv(a, b, c, pre) == Some([n |-> <<a, b, c>>, pre |-> pre])

Coin(n, d) == [denom |-> d, amount |-> n]
M1 == [t |-> "bank_send", to |-> "cosmos1recipient", amount |-> <<Coin("100", "uatom")>>]
M2 == [t |-> "gov_vote", id |-> "7", opt |-> "no_with_veto"]
M3 == [t |-> "stk_redelegate", src |-> "cosmosvaloper1xyz", dst |-> "cosmosvaloper1other", coin |-> Coin("5", "stake")]
M4 == [t |-> "stargate", url |-> "/x.y.Z", value |-> "AAECAw=="]
M5 == [t |-> "wasm_exec", contract |-> "juno1contract", msg |-> "e30=", funds |-> <<Coin("1", "uosmo"), Coin("2", "uatom")>>]
M6 == [t |-> "ibc_transfer", chan |-> "channel-141", to |-> "osmo1qqqq", coin |-> Coin("9", "uatom"), th |-> None, ts |-> Some("1700000000000000000"), memo |-> Some("x y")]
MBad1 == [t |-> "bank_burn", amount |-> <<Coin("1", "uatom")>>]
MBad2 == [t |-> "ibc_close", chan |-> "channel-3"]
MBad3 == [t |-> "custom"]
Q1 == [t |-> "bank_balance", addr |-> "cosmos1recipient", denom |-> "uatom"]
Q2 == [t |-> "bank_balance", addr |-> "a", denom |-> "stake"]
Q3 == [t |-> "stk_bonded"]
Q4 == [t |-> "q_stargate", path |-> "/x.y.Query/Z", data |-> "AQI="]
QBad == [t |-> "wasm_code", code |-> "7"]
QBad2 == [t |-> "q_dist", del |-> "a"]
AV(t, v) == [k |-> "v", t |-> t, v |-> v]      \* t: the kind of query it answers
ABal(n) == AV("bank_balance", [balance |-> Some(Coin(n, "uatom"))])
ABond(d) == AV("stk_bonded", [params |-> Some([unbonding_time |-> Some([seconds |-> "5"]), max_validators |-> "100", max_entries |-> "7",
                                 historical_entries |-> "10", bond_denom |-> d, min_commission_rate |-> "0"])])
ARaw(b) == [k |-> "raw", b |-> b]
RTx(q) == [k |-> "result", d |-> [k |-> "tx", rs |-> <<>>, q |-> q]]
RNone == RTx(None)
RAns(h, as) == RTx(Some([h |-> h, rs |-> as]))
RErr(x) == [k |-> "error", s |-> x]

Chans == <<"channel-0", "channel-1", "channel-2">>
\* conn of the metadata that fits a channel: both connections are offered, the wrong one is refused
Addr(i) == <<"cosmos1ica", "osmo1other", "A1">>[i]
AcksFor(i, cbm) == <<EOpenAck(Chans[i], Md("connection-0", "connection-7", Addr(i)), cbm),
                     EOpenAck(Chans[i], Md("connection-1", "connection-42", Addr(i)), cbm)>>
Cat(q) == LET RECURSIVE F(_) F(i) == IF i > Len(q) THEN <<>> ELSE q[i] \o F(i + 1) IN F(1)
Times(n, f(_)) == Cat([i \in 1..n |-> f(i)])

Send0 == MSend(<<M1>>, <<>>, None, None)
SendQ == MSend(<<M1>>, <<Q1>>, Some("hello"), Some(<<0, 0, 60>>))
SendQ2 == MSend(<<>>, <<Q2, Q3>>, None, None)


T(ev, ch, out, depth) == [ev |-> ev, ch |-> ch, out |-> out, depth |-> depth]

\* channels and packets come and go
Life(big) ==
  LET nch == IF big THEN 3 ELSE 2 IN
  T(<<EInst("owner", None, Some("cbk"), OptA), EInst("owner", None, None, OptB)>>
    \o <<X("owner", MCreate(None)), X("owner", MCreate(Some(OptB))), X("owner", MCreate(Some(OptA))), X("owner", MClose), X("owner", Send0)>>
    \o Times(nch, LAMBDA i : AcksFor(i, "ok") \o <<ECloseConfirm(Chans[i], NoTam)>>)
    \o Times(nch, LAMBDA i : <<EAck(Chans[i], 1, RNone, "ok"), ETimeout(Chans[i], 1, "ok")>>)
    \o Times(IF big THEN nch ELSE 1, LAMBDA i : <<EAck(Chans[i], 2, RErr("x"), "ok"), ETimeout(Chans[i], 2, "ok")>>)
    \o <<EMigrate(ContractName, "0.1.0", Sv(0, 1, 0, "f"), None)>>,
    nch, IF big THEN 3 ELSE 2, IF big THEN 11 ELSE 9)

\* who may do what, with ownership on the move
Auth(big) ==
  LET who == IF big THEN <<"owner", "alice", "bob", "deployer", "cbk", "relayer">> ELSE <<"owner", "alice", "deployer", "cbk">> IN
  T(<<EInst("deployer", Some("owner"), Some("cbk"), OptA)>> \o AcksFor(1, "ok")
    \o Times(Len(who), LAMBDA i : <<X(who[i], MCreate(None)), X(who[i], MClose), X(who[i], Send0), X(who[i], MSetcb(Some("cbk2"))), X(who[i], MSetcb(None)),
                                    X(who[i], MXfer("alice", None)), X(who[i], MAccept), X(who[i], MRenounce)>>)
    \o <<X("owner", MXfer("bob", Some([k |-> "height", n |-> <<0, 0, 12346>>]))), X("bob", MAccept), ETick(<<0, 5, 0>>, <<0, 0, 1>>),
         X("owner", MXfer("UPPER:bob", None)), X("alice", MXfer("owner", None)), X("owner", MXfer("alice", Some([k |-> "time", n |-> <<1, 700000004, 0>>]))),
         ETimeout("channel-0", 1, "ok"), EMigrate(ContractName, "0.1.0", Sv(0, 1, 0, "f"), None)>>,
    IF big THEN 2 ELSE 2, 1, IF big THEN 8 ELSE 6)

\* expiry of nominations
Own(big) ==
  LET hs == IF big THEN <<12344, 12345, 12346, 12347>> ELSE <<12345, 12346, 12347>>
      exps == <<None, Some([k |-> "never", n |-> <<0, 0, 0>>]), Some([k |-> "time", n |-> <<1, 700000000, 0>>]), Some([k |-> "time", n |-> <<1, 700000001, 0>>]),
                Some([k |-> "time", n |-> <<1, 700000000, 1>>])>>
              \o [i \in 1..Len(hs) |-> Some([k |-> "height", n |-> <<0, 0, hs[i]>>])]
      who == <<"owner", "alice", "bob">> IN
  T(<<EInst("owner", None, None, OptA)>>
    \o Times(Len(exps), LAMBDA i : <<X("owner", MXfer("alice", exps[i])), X("alice", MXfer("bob", exps[i]))>>)
    \o Times(3, LAMBDA i : <<X(who[i], MAccept), X(who[i], MRenounce), X(who[i], MSetcb(Some("cbk")))>>)
    \o <<ETick(<<0, 0, 1>>, <<0, 0, 0>>), ETick(<<0, 1, 0>>, <<0, 0, 1>>), X("owner", MXfer("alice", None)), X("bob", MXfer("owner", None)), X("owner", MXfer("not an address", None)),
         EMigrate(ContractName, "0.1.0", Sv(0, 1, 0, "f"), None)>>,
    1, 0, IF big THEN 7 ELSE 5)

\* starting handshakes, altered on the way
Hand(big) ==
  LET vs == <<Md("connection-0", "connection-7", ""), Md("connection-0", "connection-9", "cosmos1ica"), Md("connection-1", "connection-7", ""), [k |-> "raw", s |-> ""],
              [k |-> "raw", s |-> "ics27-1"], [Md("connection-0", "connection-7", "") EXCEPT !.enc = "proto3json"],
              [Md("connection-0", "connection-7", "") EXCEPT !.tx = "sdk_single_msg"], [Md("connection-0", "connection-7", "") EXCEPT !.ver = "ics27-2"],
              [Md("connection-0", "connection-7", "") EXCEPT !.addr = "bad-addr"], [Md("connection-0", "connection-7", "") EXCEPT !.fmt = "ws"],
              [Md("connection-0", "connection-7", "") EXCEPT !.fmt = "drop:addr"]>>
      ks == <<MCreate(None), MCreate(Some(OptA)), MCreate(Some(OptB))>> IN
  T(<<EInst("owner", None, Some("cbk"), OptA), EInst("owner", None, None, OptB)>>
    \o Times(Len(vs), LAMBDA i : <<EOpenInit("connection-0", vs[i]), EOpenInit("connection-1", vs[i])>>)
    \o Times(IF big THEN 3 ELSE 1, LAMBDA j : Times(Len(vs), LAMBDA i : <<XT("owner", ks[j], [ver |-> vs[i]])>>))
    \o Times(3, LAMBDA j : <<X("owner", ks[j])>>)
    \o <<X("owner", MCreate(Some(OptBadPort))), X("owner", MCreate(Some(OptBadConn))), XT("owner", MCreate(None), [conn |-> "connection-2"]),
         XT("owner", MCreate(None), [cport |-> "icahost2"]), X("owner", MClose), X("alice", MCreate(Some(OptA)))>>
    \o AcksFor(1, "ok") \o AcksFor(2, "ok") \o <<EOpenAck("channel-0", [Md("connection-0", "connection-7", "cosmos1ica") EXCEPT !.fmt = "rev"], "ok")>>
    \o <<ECloseConfirm("channel-0", NoTam), ECloseConfirm("channel-1", NoTam)>>,
    IF big THEN 4 ELSE 3, 0, IF big THEN 8 ELSE 6)

\* completing handshakes
Long(n) == LET RECURSIVE F(_) F(i) == IF i = 0 THEN "" ELSE "a" \o F(i - 1) IN F(n)
Meta(big) ==
  LET b == Md("connection-0", "connection-7", "cosmos1ica")
      good == <<b, [b EXCEPT !.fmt = "ws"], [b EXCEPT !.fmt = "rev"], [b EXCEPT !.hc = ""], [b EXCEPT !.addr = Long(128)], [b EXCEPT !.addr = "0"]>>
      bad == <<[b EXCEPT !.ver = "ics27-2"], [b EXCEPT !.ver = ""], [b EXCEPT !.ver = "ICS27-1"], [b EXCEPT !.cc = "connection-1"], [b EXCEPT !.cc = ""], [b EXCEPT !.cc = "connection-00"],
               [b EXCEPT !.enc = "proto3json"], [b EXCEPT !.enc = "json"], [b EXCEPT !.enc = ""], [b EXCEPT !.tx = "sdk_single_msg"], [b EXCEPT !.tx = ""],
               [b EXCEPT !.addr = ""], [b EXCEPT !.addr = "bad-addr"], [b EXCEPT !.addr = "a b"], [b EXCEPT !.addr = "cosmos1_x"], [b EXCEPT !.addr = Long(129)],
               [b EXCEPT !.addr = "a.b"], [b EXCEPT !.fmt = "drop:addr"], [b EXCEPT !.fmt = "drop:ver"], [b EXCEPT !.fmt = "drop:enc"], [b EXCEPT !.fmt = "drop:tx"],
               [b EXCEPT !.fmt = "drop:cc"], [b EXCEPT !.fmt = "drop:hc"], [b EXCEPT !.fmt = "key:tx:txType"], [b EXCEPT !.fmt = "dup:addr"], [b EXCEPT !.fmt = "val:enc:0"], [b EXCEPT !.enc = "protobuf"], [k |-> "raw", s |-> ""], [k |-> "raw", s |-> "ics27-1"], [k |-> "raw", s |-> "{}"], [k |-> "raw", s |-> "null"]>>
      all == good \o bad IN
  T(<<EInst("owner", None, Some("cbk"), OptA), EInst("owner", None, None, OptBadPort), EInst("owner", None, None, OptC)>>
    \o Times(Len(all), LAMBDA i : <<EOpenAck("channel-0", all[i], "ok"), EOpenAck("channel-1", all[i], "ok")>>)
    \o <<[EOpenAck("channel-0", b, "ok") EXCEPT !.tam = [conn |-> "connection-1"]],
         [EOpenAck("channel-0", [b EXCEPT !.cc = "connection-1"], "ok") EXCEPT !.tam = [conn |-> "connection-1"]],
         X("owner", MCreate(None)), X("owner", MCreate(Some(OptB))), X("owner", MCreate(Some(OptBadPort))), X("owner", MClose), X("owner", Send0), ECloseConfirm("channel-0", NoTam)>>,
    2, 1, IF big THEN 7 ELSE 5)

\* closing, with altered descriptions
Close(big) ==
  LET tams == <<NoTam, [id |-> "channel-77"], [id |-> "channel-0"], [port |-> "wasm.alice"], [cport |-> "transfer"], [cchan |-> "channel-88"], [conn |-> "connection-2"],
                [order |-> "ORDER_UNORDERED"], [order |-> "ORDER_ORDERED"], [ver |-> [k |-> "raw", s |-> ""]], [ver |-> Md("connection-0", "connection-7", "")], [force |-> "t"]>> IN
  T(<<EInst("owner", None, Some("cbk"), OptA), EInst("owner", None, None, OptB)>>
    \o Times(Len(tams), LAMBDA i : <<ECloseConfirm("channel-0", tams[i]), ECloseConfirm("channel-1", tams[i]), ECloseInit("channel-0", tams[i]), ECloseInit("channel-1", tams[i])>>)
    \o Times(IF big THEN Len(tams) ELSE 4, LAMBDA i : <<XT("owner", MClose, tams[i])>>)
    \o <<X("alice", MClose), X("owner", MCreate(None)), X("owner", MCreate(Some(OptB))), X("owner", Send0), ETimeout("channel-0", 1, "ok")>>
    \o AcksFor(1, "ok") \o AcksFor(2, "ok"),
    2, 1, IF big THEN 9 ELSE 6)

\* packets with and without queries in flight
Query(big) ==
  LET nch == 2
      acks(i, n) == <<EAck(Chans[i], n, RAns("11", <<ABal("5")>>), "ok"), EAck(Chans[i], n, RAns("12", <<ABal("6"), ABond("stake")>>), "ok"),
                      EAck(Chans[i], n, RErr("ABCI code: 5"), "ok"), ETimeout(Chans[i], n, "ok")>>
                     \o (IF big THEN <<EAck(Chans[i], n, RAns("13", <<ARaw("/w==")>>), "ok"), EAck(Chans[i], n, RAns("13", <<>>), "ok")>> ELSE <<>>) IN
  T(<<EInst("owner", None, Some("ctr"), OptB)>> \o AcksFor(1, "ok") \o AcksFor(2, "ok")
    \o <<X("owner", Send0), X("owner", SendQ), X("owner", SendQ2), X("owner", MSend(<<M1, MBad1>>, <<Q1>>, None, None)), X("owner", MSend(<<>>, <<Q1, QBad>>, None, None)),
         X("owner", MCreate(Some(OptA))), X("owner", MClose)>>
    \o <<EAgain("success", 1), EAgain("error", 1), EAgain("timeout", 1)>>
    \o acks(1, 1) \o acks(1, 2) \o acks(1, 3) \o acks(2, 1) \o (IF big THEN acks(2, 2) ELSE <<>>),
    2, IF big THEN 3 ELSE 2, IF big THEN 9 ELSE 7)

\* callbacks: accepted, failing, re-entering, redirected
Cb(big) ==
  LET modes == <<"ok", "fail">> IN
  T(<<EInst("owner", None, Some("cbk"), OptA), EInst("owner", None, None, OptB), EInst("owner", None, Some("ctr"), OptB), EInst("owner", None, Some("owner"), OptB)>>
    \o Times(2, LAMBDA j : AcksFor(1, modes[j]) \o (IF big THEN AcksFor(2, modes[j]) ELSE <<>>)
         \o Times(2, LAMBDA n : <<EAck("channel-0", n, RNone, modes[j]), EAck("channel-0", n, RErr("x"), modes[j]), ETimeout("channel-0", n, modes[j]),
                                  EAck("channel-0", n, RAns("11", <<ABal("5")>>), modes[j])>>))
    \o <<[EAck("channel-0", 1, RNone, "re") EXCEPT !.cbm = "re"] @@ [re |-> Send0], ETimeout("channel-0", 1, "re") @@ [re |-> MCreate(None)],
         EAck("channel-0", 1, RErr("x"), "re") @@ [re |-> MSetcb(Some("cbk2"))], EAck("channel-0", 1, RNone, "re") @@ [re |-> MClose],
         EAck("channel-0", 1, RNone, "re") @@ [re |-> MXfer("alice", None)], ETimeout("channel-0", 1, "re") @@ [re |-> MRenounce],
         EOpenAck("channel-0", Md("connection-1", "connection-42", "cosmos1ica"), "re") @@ [re |-> SendQ],
         EOpenAck("channel-0", Md("connection-1", "connection-42", "cosmos1ica"), "re") @@ [re |-> MClose]>>
    \o <<X("owner", Send0), X("owner", SendQ), X("owner", MSetcb(Some("cbk2"))), X("owner", MSetcb(None)), X("owner", MSetcb(Some("ctr"))), X("owner", MSetcb(Some("junk"))), X("owner", MSetcb(Some("self")))>>
    \o (IF big THEN <<X("owner", MCreate(None)), X("owner", MClose)>> ELSE <<>>),
    IF big THEN 2 ELSE 1, 2, IF big THEN 7 ELSE 6)

\* what one request turns into
Sends_(big) ==
  LET ms == <<M1, M2, M3, M4, M5, M6>>
      bads == <<MBad1, MBad2, MBad3>>
      qs == <<Q1, Q3, Q4>>
      Lim(k) == <<0, 16, 746744073 + k>>     \* about the last second that fits into 64 bits of nanoseconds
      msgs == <<<<>>, <<M1>>, <<M2, M1>>, <<M1, M2, M3, M4, M5, M6>>, <<M4, M4>>, <<M6, M5>>, <<MBad1>>, <<M1, MBad2>>, <<MBad3, M1>>, <<M1, MBad1, M2>>>>
      quers == <<<<>>, <<Q1>>, <<Q1, Q2>>, <<Q4, Q3, Q1>>, <<QBad>>, <<Q1, QBad2>>, <<QBad, Q1>>>>
      memos == <<None, Some(""), Some("hello")>>
      tmos == <<None, Some(<<0, 0, 0>>), Some(<<0, 0, 1>>), Some(<<0, 0, 3600>>), Some(Lim(-1)), Some(Lim(0)), Some(Lim(1)), Some(<<18, 446744073, 709551615>>)>>
      all == Times(Len(msgs), LAMBDA i : Times(Len(quers), LAMBDA j : <<X("owner", MSend(msgs[i], quers[j], None, None))>>))
             \o Times(Len(memos), LAMBDA i : Times(Len(tmos), LAMBDA j : <<X("owner", MSend(<<M1>>, IF i = 2 THEN <<Q1>> ELSE <<>>, memos[i], tmos[j]))>>)) IN
  T(<<EInst("owner", None, Some("cbk"), OptA), EInst("owner", None, None, OptB)>> \o AcksFor(1, "ok") \o AcksFor(2, "ok") \o all
    \o <<X("alice", Send0), X("owner", MClose), X("owner", MCreate(None)), ETick(<<0, 5, 7>>, <<0, 0, 1>>)>>
    \o Times(2, LAMBDA n : <<EAck("channel-0", n, RNone, "ok"), EAck("channel-0", n, RAns("11", <<ABal("5")>>), "ok"), ETimeout("channel-0", n, "ok")>>),
    2, IF big THEN 2 ELSE 1, IF big THEN 6 ELSE 5)

\* instantiation
InstT(big) ==
  LET ss == <<"deployer", "owner">>
      os == <<None, Some("owner"), Some("alice"), Some("UPPER:alice"), Some("bad addr"), Some(""), Some("TRUNC:alice")>>
      cs == <<None, Some("cbk"), Some("owner"), Some("UPPER:cbk"), Some("nonsense"), Some("TRUNC:cbk"), Some("")>>
      ps == <<OptA, OptB, OptC, OptBadPort, OptBadConn>>
      ts == <<NoTam, [ver |-> [k |-> "raw", s |-> ""]], [ver |-> [k |-> "raw", s |-> "ics27-1"]], [cport |-> "transfer"], [conn |-> "connection-2"]>> IN
  T(Times(2, LAMBDA a : Times(Len(os), LAMBDA b : Times(Len(cs), LAMBDA c : Times(Len(ps), LAMBDA d : <<EInst(ss[a], os[b], cs[c], ps[d])>>))))
    \o Times(Len(ts), LAMBDA i : Times(Len(ps), LAMBDA d : <<[EInst("deployer", Some("owner"), Some("cbk"), ps[d]) EXCEPT !.tam = ts[i]]>>))
    \o <<X("owner", MSetcb(None)), X("deployer", MSetcb(None)), X("alice", MSetcb(None))>> \o AcksFor(1, "ok"),
    1, 0, IF big THEN 4 ELSE 2)

\* the counterparty's side of a handshake, incoming packets
Role(big) ==
  LET es(c) == <<[op |-> "open_confirm", chan |-> c], [op |-> "recv", chan |-> c, data |-> "{}"], [op |-> "recv", chan |-> c, data |-> "{\"type\":1,\"data\":[]}"]>>
      tr(conn, o, v) == <<[op |-> "open_try", conn |-> conn, cport |-> "icahost", cchan |-> "channel-50", order |-> o, ver |-> v],
                          [op |-> "open_try", conn |-> conn, cport |-> "icacontroller-x", cchan |-> "channel-50", order |-> o, ver |-> v]>> IN
  T(<<EInst("owner", None, Some("cbk"), OptA), EInst("owner", None, None, OptB)>> \o es("channel-0") \o es("channel-1")
    \o tr("connection-0", "ORDER_ORDERED", Md("connection-0", "connection-7", "")) \o tr("connection-1", "ORDER_UNORDERED", Md("connection-1", "connection-7", "cosmos1ica"))
    \o tr("connection-0", "ORDER_ORDERED", [k |-> "raw", s |-> ""])
    \o <<X("owner", MCreate(None)), X("owner", MClose), X("owner", Send0), ECloseConfirm("channel-0", NoTam), ETimeout("channel-0", 1, "ok"), EAck("channel-0", 1, RNone, "ok")>>
    \o AcksFor(1, "ok") \o AcksFor(2, "ok"),
    IF big THEN 3 ELSE 2, 1, IF big THEN 8 ELSE 7)

\* migration
MigT(big) ==
  LET v == ThisVersion.n
      str(n, pre) == ToString(n[1]) \o "." \o ToString(n[2]) \o "." \o ToString(n[3]) \o pre
      nums == <<v, <<v[1], v[2], v[3] + 1>>, <<v[1], v[2] + 1, 0>>, <<v[1] + 1, 0, 0>>, <<0, 1, 0>>, <<0, 9, 99>>, <<0, 2, 0>>, <<0, 19, 999>>, <<0, 100, 0>>, <<9, 0, 0>>, <<10, 0, 0>>>>
      good == Times(Len(nums), LAMBDA i : <<EMigrate(ContractName, str(nums[i], ""), Sv(nums[i][1], nums[i][2], nums[i][3], "f"), None),
                                            EMigrate(ContractName, str(nums[i], "-rc.1"), Sv(nums[i][1], nums[i][2], nums[i][3], "t"), None)>>)
      ver == Md("connection-0", "connection-7", "cosmos1legacy")
      ch(st) == [id |-> "channel-0", port |-> "wasm.self", cport |-> "icahost", cchan |-> "channel-5", order |-> "ORDER_UNORDERED", conn |-> "connection-0", ver |-> ver]
      Leg(st, cst, cb) == [op |-> "legacy", env |-> Env0,
                  st |-> [own |-> [owner |-> Some("owner"), pend |-> Some("alice"), exp |-> None], cb |-> cb,
                          ica |-> Some([addr |-> "cosmos1legacy", chan |-> "channel-0", enc |-> "proto3"]), ch |-> Some([c |-> ch(st), st |-> st]),
                          ver |-> [name |-> ContractName, ver |-> "0.19.0"]],
                  opts |-> OptA,
                  core |-> [chans |-> <<ch(st) @@ [st |-> cst, nseq |-> Seq_(4)]>>,
                            out |-> <<[chan |-> "channel-0", seq |-> Seq_(2), ts |-> Some(<<1, 700000600, 0>>), th |-> None, qs |-> <<>>],
                                      [chan |-> "channel-0", seq |-> Seq_(3), ts |-> Some(<<1, 700000600, 0>>), th |-> None, qs |-> <<Q1, Q4>>]>>]] IN
  T(<<EInst("owner", None, Some("cbk"), OptA), Leg(Open, "OPEN", Some("cbk")), Leg(Closed, "CLOSED", Some("ctr"))>> \o good
    \o <<EMigrate("crates.io:cw-ica-owner", "0.1.0", Sv(0, 1, 0, "f"), None), EMigrate("", "0.1.0", Sv(0, 1, 0, "f"), None),
         EMigrate(ContractName, "abc", None, None), EMigrate(ContractName, "", None, None), EMigrate(ContractName, "1", None, None), EMigrate(ContractName, "0.1", None, None),
         EMigrate(ContractName, "0.1.0", Sv(0, 1, 0, "f"), Some("proto3json")), EMigrate(ContractName, "0.1.0", Sv(0, 1, 0, "f"), Some("proto3"))>>
    \o <<X("owner", MCreate(None)), X("alice", MAccept), X("owner", SendQ), X("owner", MSetcb(None)), X("owner", MClose),
         EAck("channel-0", 2, RNone, "ok"), EAck("channel-0", 3, RAns("11", <<ABal("5"), ARaw("AQID")>>), "ok"), ETimeout("channel-0", 2, "ok"), ETimeout("channel-0", 3, "ok"),
         EAck("channel-0", 3, RErr("x"), "ok"), EAck("channel-0", 1, RAns("11", <<ABal("5")>>), "ok")>>
    \o AcksFor(1, "ok") \o AcksFor(2, "ok"),
    2, 3, IF big THEN 7 ELSE 5)

\* requests built with the integration helpers
Help(big) ==
  LET HX(sender, m, to) == X(sender, m) @@ [via |-> [t |-> "exec", to |-> to]]
      HI(e, t, code, label, admin, salt) == e @@ [via |-> [t |-> t, code |-> code, label |-> label, admin |-> admin, salt |-> salt]]
      HM(e, code) == e @@ [via |-> [t |-> "migrate", to |-> "self", code |-> code]]
      is == <<EInst("owner", None, None, OptA), EInst("deployer", Some("owner"), Some("cbk"), OptB), EInst("owner", None, Some("ctr"), OptC), EInst("owner", Some("bad addr"), None, OptA)>>
      salts == <<"salt", "", Long(64), Long(65), " 17", "salt ", "SALT">>
      ms == <<MCreate(None), MCreate(Some(OptA)), MCreate(Some(OptB)), MCreate(Some(OptBadPort)), MClose, Send0, SendQ, SendQ2, MSend(<<M2, M3, M4, M5, M6>>, <<Q4>>, Some(""), None),
              MSend(<<MBad1>>, <<>>, None, None), MSetcb(None), MSetcb(Some("cbk2")), MSetcb(Some("junk")), MXfer("alice", None),
              MXfer("alice", Some([k |-> "height", n |-> <<0, 0, 12346>>])), MXfer("bob", Some([k |-> "time", n |-> <<1, 700000004, 0>>])), MRenounce>> IN
  T(Times(Len(is), LAMBDA i : <<is[i], HI(is[i], "inst", "7", "label", None, ""), HI(is[i], "inst", "18446744073709551615", "", Some("owner"), "")>>
          \o Times(Len(salts), LAMBDA j : <<HI(is[i], "inst2", "8", "icacontroller", Some("alice"), salts[j]), HI(is[i], "inst2", "7", "", None, salts[j])>>)
          \o <<HI(is[i], "inst2", "9", "x", None, "salt")>>)
    \o Times(Len(ms), LAMBDA i : <<HX("owner", ms[i], "self"), HX("alice", ms[i], "self")>>)
    \o <<HX("owner", MClose, "alice"), HX("alice", MAccept, "self"), HX("bob", MAccept, "self"), X("owner", Send0), X("owner", MClose)>>
    \o <<HM(EMigrate(ContractName, "0.1.0", Sv(0, 1, 0, "f"), None), "7"), HM(EMigrate("x", "0.1.0", Sv(0, 1, 0, "f"), None), "8"),
         EMigrate(ContractName, "0.1.0", Sv(0, 1, 0, "f"), None)>>
    \o <<[op |-> "admin", to |-> "self", admin |-> None], [op |-> "admin", to |-> "self", admin |-> Some("alice")], [op |-> "admin", to |-> "alice", admin |-> Some("anything")],
         [op |-> "hquery", to |-> "self"], [op |-> "hquery", to |-> "alice"]>>
    \o AcksFor(1, "ok") \o <<ETick(<<0, 5, 0>>, <<0, 0, 1>>), ETimeout("channel-0", 1, "ok"), ECloseConfirm("channel-0", NoTam)>>,
    2, 1, IF big THEN 5 ELSE 4)

\* texts that are not requests, and requests written with null for what is left out
Form(big) ==
  LET G(entry, text) == [op |-> "garbled", entry |-> entry, sender |-> "owner", text |-> text]
      opts == "{\"connection_id\":\"connection-1\",\"counterparty_connection_id\":\"connection-7\"}"
      xs == <<"", "null", "{}", "5", "\"close_channel\"", "{\"close_channel\":{}", "{\"close_channel\":{}} x", "{'close_channel':{}}",
              "{\"close_channel\":null}", "{\"closeChannel\":{}}", "{\"close_channel\":{},\"create_channel\":{}}", "{\"CloseChannel\":{}}",
               "{\"create_channel\":{\"channel_open_init_options\":{\"connection_id\":\"connection-1\"}}}",
              "{\"create_channel\":{\"channel_open_init_options\":{\"connection_id\":\"connection-1\",\"counterparty_connection_id\":\"connection-7\",\"channel_ordering\":\"ordered\"}}}",
              "{\"create_channel\":{\"channel_open_init_options\":\"connection-1\"}}", "{\"create_channel\":\"x\"}",
              "{\"send_cosmos_msgs\":{}}", "{\"send_cosmos_msgs\":{\"queries\":[]}}",
              "{\"send_cosmos_msgs\":{\"messages\":[],\"timeout_seconds\":\"60\"}}", "{\"send_cosmos_msgs\":{\"messages\":[],\"timeout_seconds\":-1}}",
              "{\"send_cosmos_msgs\":{\"messages\":[],\"timeout_seconds\":18446744073709551616}}", "{\"send_cosmos_msgs\":{\"messages\":[],\"packet_memo\":5}}",
              "{\"send_cosmos_msgs\":{\"messages\":[{\"foo\":{}}]}}", "{\"send_cosmos_msgs\":{\"messages\":[{}]}}", "{\"send_cosmos_msgs\":{\"messages\":{}}}",
              "{\"send_cosmos_msgs\":{\"messages\":[],\"messages\":[]}}", "{\"send_cosmos_msgs\":{\"messages\":[],\"queries\":[{\"foo\":{}}]}}", "{\"send_custom_ica_messages\":{\"messages\":\"e30=\"}}",
              "{\"update_callback_address\":{\"callback_address\":5}}", "{\"update_callback_address\":null}",
              "{\"update_ownership\":\"renounce\"}", "{\"update_ownership\":{\"transfer_ownership\":{}}}", "{\"update_ownership\":{\"transfer_ownership\":{\"new_owner\":null}}}",
              "{\"update_ownership\":{\"accept_ownership\":{}}}", "{\"transfer_ownership\":{\"new_owner\":\"x\"}}", "{\"receive_ica_callback\":{}}", "{\"migrate\":{}}",
              "{\"close\":{}}", "{\"create\":{}}", "{\"open_channel\":{}}", "{\"reopen_channel\":{}}", "{\"send\":{\"messages\":[]}}", "{\"send_messages\":{\"messages\":[]}}", "{\"update_callback\":{}}",
              "{\"remove_callback\":{}}", "{\"set_callback_address\":{\"callback_address\":null}}", "{\"accept_ownership\":{}}", "\"accept_ownership\"">>
      is == <<"", "{}", "null", "{\"owner\":null}", "{\"channel_open_init_options\":null}", "{\"channel_open_init_options\":{}}", "{\"channel_open_init_options\":" \o opts,
               "{\"channel_open_init_options\":" \o opts \o ",\"owner\":5}",
              "{\"channel_open_init_options\":" \o opts \o ",\"send_callbacks_to\":[]}">>
      gs == <<"null", "", "5", "\"x\"", "{">>
      qs == <<"", "{}", "null", "\"get_channel\"", "{\"state\":{}}", "{\"get_state\":{}}", "{\"channel\":{}}", "{\"get_ownership\":{}}", "{\"owner\":{}}", "{\"get_channel\":null}", "{\"get_channels\":{}}", "{\"get_channel\":{},\"ownership\":{}}", "{\"ownership\":5}">>
      J(e) == [e EXCEPT !.m = @ @@ [jf |-> "null"]]
      JS(m) == [m EXCEPT !.jf = "null"]
      JI(e) == e @@ [jf |-> "null"] IN
  T(<<EInst("owner", None, None, OptA), JI(EInst("owner", None, None, OptA)), JI(EInst("deployer", Some("owner"), Some("cbk"), OptB)), JI(EInst("owner", None, None, OptBadPort))>>
    \o Times(Len(xs), LAMBDA i : <<G("execute", xs[i])>>) \o Times(Len(is), LAMBDA i : <<G("instantiate", is[i])>>)
    \o Times(Len(gs), LAMBDA i : <<G("migrate", gs[i])>>) \o Times(Len(qs), LAMBDA i : <<G("query", qs[i])>>)
    \o <<J(X("owner", MCreate(None))), J(X("owner", MCreate(Some(OptB)))), J(X("owner", MCreate(Some(OptA)))), X("owner", JS(Send0)), X("owner", JS(SendQ)), X("owner", JS(MSend(<<>>, <<>>, None, None))),
         J(X("owner", MSetcb(None))), J(X("owner", MSetcb(Some("cbk")))), J(X("owner", MXfer("alice", None))), X("owner", MClose), X("alice", MAccept)>>
    \o AcksFor(1, "ok") \o AcksFor(2, "ok"),
    2, 1, IF big THEN 7 ELSE 5)

ThemeOf(name, big) ==
  CASE name = "life" -> Life(big) [] name = "auth" -> Auth(big) [] name = "own" -> Own(big) [] name = "hand" -> Hand(big) [] name = "meta" -> Meta(big)
    [] name = "close" -> Close(big) [] name = "query" -> Query(big) [] name = "cb" -> Cb(big) [] name = "send" -> Sends_(big) [] name = "inst" -> InstT(big)
    [] name = "role" -> Role(big) [] name = "mig" -> MigT(big) [] name = "help" -> Help(big) [] name = "form" -> Form(big)
=============================================================================
