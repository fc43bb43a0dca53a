----------------------------- MODULE TraceCheck -----------------------------
(* Checks transactions recorded from the implementation.  The recording is a *)
(* forest: a line is one transaction, its parent is the transaction before.  *)
(* For every line the state before it is rebuilt from what was observed after *)
(* its parent, the specification's outcome is computed, and the property P    *)
(* must hold for the recorded outcome and agree with the specification's.     *)
(* When the observed contract state has come to differ from the one the       *)
(* history calls for (an earlier transaction recorded the wrong thing, in a   *)
(* part P does not look at), P must hold from the latter as well.             *)
EXTENDS Props, Json, IOUtils

P == IOEnv.PROP
Lines == ndJsonDeserialize(IOEnv.TRACE)
Version == [s |-> IOEnv.VER, n |-> <<atoi(IOEnv.VER1), atoi(IOEnv.VER2), atoi(IOEnv.VER3)>>]

VARIABLES n,     \* the line
          par,   \* the line before it, 0 if none
          opts,  \* channel options of the last accepted request before this line (not observable)
          root,  \* the chain's parameters, from the first line
          mig,   \* a migration succeeded earlier in this history, or it starts from old data
          exp    \* the contract state the history calls for, if not the observed one
vars == <<n, par, opts, root, mig, exp>>

L == Lines[n]
Pending(out) == LET q == SelectSeq(out, LAMBDA p : p.qs # <<>>)
                IN [i \in 1..Len(q) |-> [chan |-> q[i].chan, seq |-> q[i].seq, qs |-> q[i].qs]]
Readable(o) == o.st.exists = "t" => /\ "unreadable" \notin DOMAIN o.st.own
                                    /\ o.st.cb # <<"unreadable">>
                                    /\ \A i \in 1..Len(o.st.ica) : "unreadable" \notin DOMAIN o.st.ica[i]
                                    /\ \A i \in 1..Len(o.st.ch) : o.st.ch[i].st # "unreadable"
\* the state after a recorded transaction
Observed(o, op, env) ==
  [c |-> IF o.st.exists = "f" THEN NoContract
         ELSE [exists |-> "t", own |-> o.st.own, cb |-> o.st.cb, ica |-> o.st.ica, ch |-> o.st.ch, ver |-> o.st.ver,
               opts |-> op, ao |-> FALSE, ac |-> FALSE, tmpq |-> <<>>, pend |-> Pending(o.core.out)],
   ctr |-> IF o.st.exists = "f" THEN NoCtr ELSE o.st.ctr,
   core |-> [chans |-> o.core.chans, out |-> o.core.out, time |-> o.core.time, height |-> o.core.height, ids |-> env.ids, seq0 |-> env.seq0, step |-> env.step]]
Before == IF par = 0 THEN Start(L.e.env) ELSE Observed(Lines[par].o, opts, root)
\* the options after the line: an accepted request with options replaces them
OptsAfter(e, o, s) ==
  IF o.ok = "f" THEN opts
  ELSE IF e.op \in {"inst", "legacy"} THEN Some(e.opts)
  ELSE IF IsSome(OptsFor(s, e)) THEN OptsFor(s, e) ELSE opts
Env(e) == IF par = 0 THEN e.env ELSE root
After == Observed(L.o, OptsAfter(L.e, L.o, Before), Env(L.e))
Recorded == [ok |-> L.o.ok = "t", s |-> After, eff |-> L.o.eff]

\* the same from the state the history calls for
BeforeX == IF IsSome(exp) THEN [Before EXCEPT !.c = Get(exp)] ELSE Before
OutcomeX == Step(BeforeX, L.e)
AfterX == [After EXCEPT !.c = IF L.o.ok = "f" THEN BeforeX.c
                              ELSE IF ~OutcomeX.ok THEN After.c
                              ELSE [OutcomeX.s.c EXCEPT !.ao = FALSE, !.ac = FALSE, !.tmpq = <<>>, !.pend = After.c.pend,
                                                        !.opts = OptsAfter(L.e, L.o, BeforeX)]]
RecordedX == [Recorded EXCEPT !.s = AfterX]

MigNow == mig \/ L.e.op = "legacy"
Verdict ==
  LET s == Before r == Recorded m == Step(s, L.e) IN
  /\ Readable(L.o)
  \* C19: counterparty-side calls tried in this state, and on the way to it, were all refused
  /\ P \in {"C19", "ALL"} /\ "foreign" \in DOMAIN L.o => L.o.foreign = <<>>
  \* C25: nothing is left behind in the contract's storage
  /\ P \in {"C25", "ALL"} => Bounded(L.o.kept, Len(Pending(L.o.core.out)))
  \* what the contract let through, although the chain then refused it
  /\ "late" \in DOMAIN L.o /\ Guards(P, L.e) => Accepts(s, L.e)
  /\ IF P = "ALL" THEN SameEverything(m, r) /\ \A p \in AllProps : Holds(p, s, L.e, r) /\ Agrees(p, s, L.e, m, r)
     ELSE /\ Holds(P, s, L.e, r) /\ Agrees(P, s, L.e, m, r)
          /\ P = "C18" /\ MigNow => SameEverything(m, r)
          /\ IsSome(exp) => Holds(P, BeforeX, L.e, RecordedX) /\ Agrees(P, BeforeX, L.e, OutcomeX, RecordedX)
LineOK == (par > 0 => Readable(Lines[par].o)) => Verdict

Init == /\ n \in {i \in 1..Len(Lines) : Lines[i].root = "t"}
        /\ par = 0 /\ opts = None /\ root = L.e.env /\ mig = FALSE /\ exp = None
Next == \E j \in 1..Len(L.kids) :
          /\ n' = L.kids[j] /\ par' = n /\ root' = root
          /\ opts' = OptsAfter(L.e, L.o, Before)
          /\ exp' = IF Readable(L.o) /\ View(AfterX) # View(After) THEN Some(AfterX.c) ELSE None
          /\ mig' = (MigNow \/ (L.e.op = "migrate" /\ L.o.ok = "t"))
Spec == Init /\ [][Next]_vars
\* which part fails, for the report
Explain ==
  LET s == Before r == Recorded m == Step(s, L.e) IN
  [line |-> n, op |-> L.e.op, foreign |-> IF "foreign" \in DOMAIN L.o THEN L.o.foreign ELSE <<>>, late |-> "late" \in DOMAIN L.o, kept |-> L.o.kept, readable |-> Readable(L.o),
   fails_property |-> {p \in AllProps : ~Holds(p, s, L.e, r)},
   fails_agreement |-> {p \in AllProps : ~Agrees(p, s, L.e, m, r)},
   from_expected_state |-> IsSome(exp) /\ ~(Holds(P, BeforeX, L.e, RecordedX) /\ Agrees(P, BeforeX, L.e, OutcomeX, RecordedX)),
   spec_accepts |-> m.ok, impl_accepts |-> r.ok]
LineOKExplained == LineOK \/ (PrintT(<<"EXPLAIN", ToJson(Explain)>>) /\ FALSE)
=============================================================================
