--------------------------------- MODULE MC ---------------------------------
(* Explores all histories over a theme's alphabet.  On every transition the   *)
(* properties are checked, and the transition's history is printed so that    *)
(* the harness can replay it on the implementation.                           *)
EXTENDS Themes, Json, IOUtils

Version == [s |-> IOEnv.VER, n |-> <<atoi(IOEnv.VER1), atoi(IOEnv.VER2), atoi(IOEnv.VER3)>>]
Theme == ThemeOf(IOEnv.THEME, IOEnv.BIG = "1")
Ev == Theme.ev
NEv == Len(Ev)
Bounds == [ch |-> Theme.ch, out |-> Theme.out, depth |-> Theme.depth]
Checked == IF IOEnv.PROP = "ALL" THEN AllProps ELSE {IOEnv.PROP}
\* remember the last event too: every pair of consecutive events is then a transition of its own
Pairs == IOEnv.PAIRS = "1"

VARIABLES s, path
vars == <<s, path>>
\* the history is not part of the state
Clean == \A i \in 1..Len(path) : Untampered(Ev[path[i]])
Hidden == <<s, Clean, IF Pairs /\ path # <<>> THEN path[Len(path)] ELSE 0>>

\* is e meaningful in s?  Only events that concern existing channels and packets are explored.
Applicable(e) ==
  /\ (e.op \in {"inst", "legacy"}) = (s.c.exists = "f")
  /\ "chan" \in DOMAIN e => HasChan(s, e.chan)
  /\ e.op \in {"ack", "timeout"} => HasPkt(s, e)
  /\ e.op = "again" => Len(s.ctr[e.f]) >= e.i /\ Len(s.ctr.success) + Len(s.ctr.error) + Len(s.ctr.timeout) <= 1
  /\ e.op = "ack" /\ e.a.k = "result" => (IsSome(e.a.d.q) \/ PktOf(s, e).qs = <<>>)
  \* the host answers what was asked, or the wrong number of answers
  /\ e.op = "ack" /\ e.a.k = "result" /\ IsSome(e.a.d.q) =>
       LET qs == PktOf(s, e).qs as == Get(e.a.d.q).rs
       IN Len(as) = Len(qs) => \A i \in 1..Len(as) : as[i].k = "v" => as[i].t = qs[i].t
  /\ e.op = "open_ack" => ChanOf(s, e.chan).st = "INIT"

Fits(t) == Len(t.core.chans) <= Bounds.ch /\ Len(t.core.out) <= Bounds.out

Init == s = Start(Env0) /\ path = <<>>
Next == \E i \in 1..NEv :
          /\ Applicable(Ev[i])
          /\ LET r == Step(s, Ev[i]) IN
             /\ Fits(r.s)
             /\ Assert(\A p \in Checked : Holds(p, s, Ev[i], r), <<"MODEL", {p \in Checked : ~Holds(p, s, Ev[i], r)}, path, i>>)
             /\ s' = r.s
             /\ path' = Append(path, i)
             /\ PrintT(path')
Spec == Init /\ [][Next]_vars
Shallow == Len(path) < Bounds.depth

(* ------------------------ properties of states ------------------------- *)
Alive == s.c.exists = "t"
\* nothing is left half done between transactions
Quiescent == ~s.c.ao /\ ~s.c.ac
HasOneOwner == Alive => IsSome(s.c.own.owner)
OneOpen == Clean => Cardinality(OpenChans(s)) <= 1
\* exactly the queries of packets in flight are remembered
PendingExact ==
  { [chan |-> p.chan, seq |-> p.seq, qs |-> p.qs] : p \in {x \in Range(s.core.out) : x.qs # <<>>} } = Range(s.c.pend)
IcaMatches == IsSome(s.c.ica) <=> IsSome(s.c.ch)
\* from every state the owner can get to a working account again
OwnerNow == Get(s.c.own.owner)
Recovers ==
  Alive /\ Clean /\ Len(s.core.chans) + 1 <= Len(s.core.ids) =>
    LET s0 == IF s.c.cb = Some("self") THEN Step(s, X(OwnerNow, MSetcb(None))).s ELSE s
        s1 == IF HasOpen(s0.c) THEN Step(s0, X(OwnerNow, MClose)).s ELSE s0
        r2 == Step(s1, X(OwnerNow, MCreate(Some(OptB))))
        id == r2.s.core.chans[Len(r2.s.core.chans)].id
        r3 == Step(r2.s, EOpenAck(id, Md("connection-1", "connection-42", "cosmos1back"), "ok"))
        r4 == Step(r3.s, X(OwnerNow, SendQ))
    IN r2.ok /\ r3.ok /\ r4.ok /\ r4.s.c.ica = Some([addr |-> "cosmos1back", chan |-> id, enc |-> "proto3"])
\* the reported status is the real one, unless a description of the channel was falsified on the way
Synced == Clean => InStep(s)

ASSUME IOEnv.EVOUT = "" \/ JsonSerialize(IOEnv.EVOUT, Ev)
=============================================================================
