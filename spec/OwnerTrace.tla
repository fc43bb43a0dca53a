----------------------------- MODULE OwnerTrace -----------------------------
(* Checks recorded transactions of the owner contract; see TraceCheck.       *)
EXTENDS Owner, Json, IOUtils
Lines == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES n, par
vars == <<n, par>>
L == Lines[n]
Readable(o) == o.st.exists = "t" => \A i \in 1..Len(o.st.icas) : "unreadable" \notin DOMAIN o.st.icas[i]
Observed(x) == [o |-> IF x.st.exists = "f" THEN NoOwner ELSE [exists |-> "t", admin |-> x.st.admin, code |-> x.st.code, icas |-> x.st.icas],
                known |-> x.known, time |-> x.time]
Before == IF par = 0 THEN Start ELSE Observed(Lines[par].o)
Recorded == [ok |-> L.o.ok = "t", s |-> Observed(L.o), eff |-> L.o.eff]
P == IOEnv.PROP
\* C23: a receiver built without the optional features reads every callback
Understood == L.e.op = "cb" => L.o.recovers = "t"
Verdict ==
  LET s == Before r == Recorded m == Step(s, L.e) IN
  IF P = "C23" THEN Understood ELSE
  /\ Readable(L.o)
  /\ L.o.st.exists = "t" => L.o.st.n = ToString(Len(L.o.st.icas)) /\ L.o.st.beyond = "f"
  /\ H_C22(s, L.e, r) /\ A_C22(s, L.e, m, r)
LineOK == (par > 0 => Readable(Lines[par].o)) => Verdict
Init == n \in {i \in 1..Len(Lines) : Lines[i].root = "t"} /\ par = 0
Next == \E j \in 1..Len(L.kids) : n' = L.kids[j] /\ par' = n
Spec == Init /\ [][Next]_vars
Explain == LET s == Before r == Recorded m == Step(s, L.e) IN
  [line |-> n, op |-> L.e.op, readable |-> Readable(L.o), holds |-> H_C22(s, L.e, r), agrees |-> A_C22(s, L.e, m, r), spec_accepts |-> m.ok, impl_accepts |-> r.ok]
LineOKExplained == LineOK \/ (PrintT(<<"EXPLAIN", ToJson(Explain)>>) /\ FALSE)
=============================================================================
