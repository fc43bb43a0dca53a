------------------------------ MODULE OwnerMC -------------------------------
EXTENDS Owner, Json, IOUtils
Ev == Alphabet(IOEnv.BIG = "1")
Depth == IF IOEnv.BIG = "1" THEN 7 ELSE 5
MaxIcas == 3
Pairs == IOEnv.PAIRS = "1"
VARIABLES s, path
vars == <<s, path>>
Hidden == <<s, IF Pairs /\ path # <<>> THEN path[Len(path)] ELSE 0>>
Applicable(e) == (e.op = "inst") = (s.o.exists = "f")
Init == s = Start /\ path = <<>>
Next == \E i \in 1..Len(Ev) :
          /\ Applicable(Ev[i])
          /\ LET r == Step(s, Ev[i]) IN
             /\ Len(r.s.known) <= MaxIcas
             /\ Assert(H_C22(s, Ev[i], r), <<"MODEL", {"C22"}, path, i>>)
             /\ s' = r.s
             /\ path' = Append(path, i)
             /\ PrintT(path')
Spec == Init /\ [][Next]_vars
Shallow == Len(path) < Depth
\* the contract's numbering and the chain agree
Numbered == \A i \in 1..Len(s.o.icas) : s.o.icas[i].addr = s.known[i]
Recorded == \A i \in 1..Len(s.o.icas) : IsSome(s.o.icas[i].ica) => Get(s.o.icas[i].ica).id = ToString(i - 1)
ASSUME IOEnv.EVOUT = "" \/ JsonSerialize(IOEnv.EVOUT, Ev)
=============================================================================
