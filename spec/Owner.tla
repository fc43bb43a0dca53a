------------------------------- MODULE Owner --------------------------------
(* The sample owner contract (testing/contracts/cw-ica-owner): it creates    *)
(* controllers, sends a predefined action through them and receives their    *)
(* callbacks.  State: [o, known, time]; o is what the contract reports,      *)
(* known the controllers that exist on the chain.                            *)
EXTENDS Base

Valid == {"self", "owner", "alice", "bob", "carol", "cbk", "ctr", "relayer", "deployer", "cbk2"}
Codes == {"7", "8"}
NoOwner == [exists |-> "f", admin |-> "", code |-> "", icas |-> <<>>]
Start == [o |-> NoOwner, known |-> <<>>, time |-> <<1, 700000000, 0>>]
Bad(s) == [ok |-> FALSE, s |-> s, eff |-> <<>>]
Good(s, eff) == [ok |-> TRUE, s |-> s, eff |-> eff]

SaltOK(x) == Len(x) >= 1 /\ Len(x) <= 64
\* the salt, if none is requested, is the contract's choice: the block's second here, the observed one for recorded transactions
SaltOf(s, e) == IF IsSome(e.salt) THEN Get(e.salt)
                ELSE IF "dsalt" \in DOMAIN e /\ IsSome(e.dsalt) THEN Get(e.dsalt)
                ELSE DecL(<<0, s.time[1], s.time[2]>>)
AddressOf(code, salt) == "ica:" \o code \o ":" \o salt
Number(id) == NatOf(id) + 1
HasIca(s, id) == AllDigits(id) /\ Len(id) < 6 /\ Number(id) <= Len(s.o.icas)
IcaIdx(s, a) == {i \in 1..Len(s.o.icas) : s.o.icas[i].addr = a}
Refuses(e) == "ctl" \in DOMAIN e /\ e.ctl = "refuse"

Inst(s, e) ==
  LET a == IF IsSome(e.admin) THEN Get(e.admin) ELSE e.sender
  IN IF a \notin Valid THEN Bad(s) ELSE Good([s EXCEPT !.o = [exists |-> "t", admin |-> a, code |-> e.code, icas |-> <<>>]], <<>>)
Create(s, e) ==
  LET salt == SaltOf(s, e) a == AddressOf(s.o.code, salt)
  IN IF \/ e.sender # s.o.admin \/ ~SaltOK(salt) \/ s.o.code \notin Codes \/ Refuses(e) \/ a \in Range(s.known)
     THEN Bad(s)
     ELSE Good([s EXCEPT !.o.icas = Append(@, [addr |-> a, ica |-> None]), !.known = Append(@, a)],
               <<[k |-> "inst2", code |-> s.o.code, salt |-> salt, funds |-> "0", admin |-> Some("self"), owner |-> Some("self"), cb |-> Some("self"), opts |-> e.opts]>>)
Act(s, e) ==
  IF e.sender # s.o.admin \/ ~HasIca(s, e.id) \/ Refuses(e) THEN Bad(s)
  ELSE Good(s, <<[k |-> "exec", to |-> s.o.icas[Number(e.id)].addr, funds |-> "0", plain |-> "t", bank_to |-> e.to,
                  amount |-> <<[denom |-> "stake", amount |-> "100"]>>]>>)
Callback(s, e) ==
  IF IcaIdx(s, e.sender) = {} THEN Bad(s)
  ELSE LET i == CHOOSE i \in IcaIdx(s, e.sender) : TRUE
       IN IF e.m.k # "open" THEN Good(s, <<>>)
          ELSE Good([s EXCEPT !.o.icas[i].ica = Some([id |-> ToString(i - 1), addr |-> e.m.ica, enc |-> e.m.enc, ch |-> e.m.ch, st |-> "STATE_OPEN"])], <<>>)
Step(s, e) ==
  IF e.op = "tick" THEN Good([s EXCEPT !.time = AddL(@, e.dt)], <<>>)
  ELSE IF (e.op = "inst") # (s.o.exists = "f") THEN Bad(s)
  ELSE CASE e.op = "inst" -> Inst(s, e) [] e.op = "create" -> Create(s, e) [] e.op = "act" -> Act(s, e) [] e.op = "cb" -> Callback(s, e)

(* ------------------------------ property C22 --------------------------- *)
Same(s, t) == s.o = t.o /\ s.known = t.known
H_C22(s, e, r) ==
  LET o == s.o p == r.s.o n == Len(s.o.icas) IN
  /\ ~r.ok => Same(s, r.s) /\ r.eff = <<>>
  /\ e.op # "inst" => p.admin = o.admin /\ p.code = o.code
  /\ e.op = "inst" /\ r.ok => p.admin = (IF IsSome(e.admin) THEN Get(e.admin) ELSE e.sender) /\ p.code = e.code /\ p.icas = <<>> /\ r.eff = <<>>
  /\ e.op \in {"create", "act"} /\ e.sender # o.admin => ~r.ok
  /\ e.op = "create" /\ r.ok =>
       /\ Len(r.eff) = 1 /\ r.eff[1].k = "inst2" /\ r.eff[1].owner = Some("self") /\ r.eff[1].cb = Some("self") /\ r.eff[1].opts = e.opts
       /\ r.eff[1].code = o.code /\ r.eff[1].funds = "0" /\ (IsSome(e.salt) => r.eff[1].salt = Get(e.salt))
       /\ Len(r.s.known) = Len(s.known) + 1
       /\ p.icas = Append(o.icas, [addr |-> r.s.known[Len(r.s.known)], ica |-> None])
  /\ e.op # "create" => Len(p.icas) = n /\ \A i \in 1..n : p.icas[i].addr = o.icas[i].addr
  /\ e.op = "act" /\ r.ok =>
       /\ HasIca(s, e.id) /\ Len(r.eff) = 1 /\ r.eff[1].k = "exec" /\ r.eff[1].to = o.icas[Number(e.id)].addr /\ r.eff[1].funds = "0"
       /\ r.eff[1].plain = "t" /\ r.eff[1].bank_to = e.to /\ r.eff[1].amount = <<[denom |-> "stake", amount |-> "100"]>>
  /\ e.op \in {"cb", "inst", "tick"} => r.eff = <<>>
  /\ \A i \in 1..n : p.icas[i] # o.icas[i] => e.op = "cb" /\ e.sender = o.icas[i].addr /\ e.m.k = "open"
  /\ e.op = "cb" /\ IcaIdx(s, e.sender) # {} => r.ok
  /\ e.op = "cb" /\ IcaIdx(s, e.sender) # {} /\ e.m.k = "open" =>
       \E i \in IcaIdx(s, e.sender) : p.icas[i].ica = Some([id |-> ToString(i - 1), addr |-> e.m.ica, enc |-> e.m.enc, ch |-> e.m.ch, st |-> "STATE_OPEN"])
  \* every controller it knows exists, and each one once
  /\ \A i \in 1..Len(p.icas) : p.icas[i].addr \in Range(r.s.known)
  /\ \A i, j \in 1..Len(p.icas) : i # j => p.icas[i].addr # p.icas[j].addr
A_C22(s, e, m, r) ==
  \* what becomes of a stranger's acknowledgement or timeout does not matter as long as nothing changes
  /\ ~(e.op = "cb" /\ IcaIdx(s, e.sender) = {} /\ e.m.k # "open") => m.ok = r.ok
  /\ Same(m.s, r.s) /\ (m.ok = r.ok => m.eff = r.eff)

(* -------------------------------- alphabet ----------------------------- *)
O1 == [conn |-> "connection-0", cconn |-> "connection-7", cport |-> None, ord |-> None]
O2 == [conn |-> "connection-1", cconn |-> "connection-42", cport |-> Some("icahost"), ord |-> Some("ORDER_UNORDERED")]
Md(a) == [k |-> "md", fmt |-> "std", ver |-> "ics27-1", cc |-> "connection-0", hc |-> "connection-7", addr |-> a, enc |-> "proto3", tx |-> "sdk_multi_msg"]
OpenCb(a, id) == [k |-> "open", ica |-> a, enc |-> "proto3",
                  ch |-> [id |-> id, port |-> "wasm.self", cport |-> "icahost", cchan |-> "channel-5", order |-> "ORDER_ORDERED", conn |-> "connection-0", ver |-> Md(a)]]
ECreate(who, salt, o, ctl) == [op |-> "create", sender |-> who, salt |-> salt, opts |-> o, ctl |-> ctl]
EAct(who, id, ctl) == [op |-> "act", sender |-> who, id |-> id, to |-> "cosmos1recipient", ctl |-> ctl]
ECb(who, m) == [op |-> "cb", sender |-> who, m |-> m]
Cat(q) == LET RECURSIVE F(_) F(i) == IF i > Len(q) THEN <<>> ELSE q[i] \o F(i + 1) IN F(1)
Times(n, f(_)) == Cat([i \in 1..n |-> f(i)])
RECURSIVE Long(_)
Long(n) == IF n = 0 THEN "" ELSE "a" \o Long(n - 1)
Alphabet(big) ==
  LET who == <<"owner", "alice", "deployer", "ica:7:a", "self">>
      cbs == <<"ica:7:a", "ica:7:b", "ica:7:1700000000", "ica:8:a", "alice", "owner", "self">>
      ms == <<OpenCb("cosmos1ica", "channel-0"), OpenCb("osmo1x", "channel-3"), [k |-> "timeout"], [k |-> "ack", r |-> "result", q |-> "none"]>>
            \o (IF big THEN <<[k |-> "ack", r |-> "error", q |-> "err"], [k |-> "ack", r |-> "result", q |-> "ok"]>> ELSE <<>>) IN
  <<[op |-> "inst", sender |-> "deployer", admin |-> Some("owner"), code |-> "7"], [op |-> "inst", sender |-> "owner", admin |-> None, code |-> "8"],
    [op |-> "inst", sender |-> "deployer", admin |-> Some("bad addr"), code |-> "7"], [op |-> "inst", sender |-> "deployer", admin |-> Some("alice"), code |-> "9"]>>
  \o Times(Len(who), LAMBDA i : <<ECreate(who[i], Some("a"), O1, "accept"), ECreate(who[i], None, O2, "accept"), EAct(who[i], "0", "accept"), EAct(who[i], "1", "accept")>>)
  \o <<ECreate("owner", Some("b"), O2, "accept"), ECreate("owner", Some("c"), O2, "refuse"), ECreate("owner", Some(""), O1, "accept"), ECreate("owner", Some(Long(64)), O1, "accept"),
       ECreate("owner", Some(Long(65)), O1, "accept"), EAct("owner", "0", "refuse"), EAct("owner", "2", "accept"), [op |-> "tick", dt |-> <<0, 1, 0>>]>>
  \o Times(Len(cbs), LAMBDA i : Times(Len(ms), LAMBDA j : <<ECb(cbs[i], ms[j])>>))
=============================================================================
