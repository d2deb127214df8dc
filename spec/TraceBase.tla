------------------------------ MODULE TraceBase ------------------------------
(* Skeleton shared by every session specification.  A behaviour is one         *)
(* recorded session with the real code: tid selects the session, ptr is the next *)
(* call, st the abstract state the specification keeps, bad the names of the   *)
(* clauses the last call broke.  Sessions are independent initial states, so   *)
(* TLC checks them all in one run; verdicts are total and name the clause.     *)
EXTENDS Naturals, Integers, Sequences, FiniteSets, TLC, Json, IOUtils, Num, NumDiff

Traces == ndJsonDeserialize(IOEnv.TRACES)
VARIABLES tid, ptr, st, bad
vars == <<tid, ptr, st, bad>>

Tr == Traces[tid]
Ev == Tr.ev[ptr]
Has(r, f) == f \in DOMAIN r
Is(op) == ptr <= Len(Tr.ev) /\ Ev.op = op /\ ptr' = ptr + 1 /\ tid' = tid
(* obligations: a tuple of <<clause name, truth value>> *)
Failing(obs) == LET o == obs IN {o[k][1] : k \in {k \in 1..Len(o) : ~Chk(o[k][1], o[k][2])}}
Judge(obs) == /\ bad' = Failing(obs)
              /\ IF bad' = {} THEN TRUE ELSE PrintT(<<"FAIL", tid, ptr, bad'>>)
(* a call the specification allows raised an exception *)
Raised == Is("raised") /\ Judge(<< <<"raised:" \o Ev.at, FALSE>> >>) /\ st' = st
(* inputs handed to the library are never changed by it *)
Unchanged == Is("inputs") /\ Judge(<< <<"inputs-unchanged:" \o Ev.at, Ev.same>> >>) /\ st' = st
Finished == ptr = Len(Tr.ev) + 1 /\ PrintT(<<"DONE", tid>>) /\ ptr' = ptr + 1 /\ UNCHANGED <<tid, st, bad>>
TInit(s0) == tid \in 1..Len(Traces) /\ ptr = 1 /\ st = s0 /\ bad = {}
Accepted == ChkReport /\ TLCGet("distinct") > 0
=============================================================================
