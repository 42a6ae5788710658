------------------------------ MODULE TPacket ------------------------------
(* Transport packets on the wire: what serialises to what, what parses, and   *)
(* for whom a signed packet verifies.                                         *)
EXTENDS Naturals, Sequences, FiniteSets, TLC, Randomization
CONSTANTS Pks,       \* packet objects
          Xs,        \* sequence numbers / flags (classes the adapter maps to 64-bit values)
          Vers, Bodies, Macs, Types,
          Signers, Verifiers,  \* "P" has no private keys; "X" is an invalid chain over the node of M
          Muts, MaxSteps,
          Linear,      \* one packet's life at a time (make, sign, serialise, change, parse)
          Kinds
VARIABLES pk, buf, n, act
vars == <<pk, buf, n, act>>
NoNm == [x \in {} |-> 0]
Nb(s, x) == [s |-> s, n |-> x, k |-> "b"]
None == [ok |-> FALSE, ty |-> "", mac |-> 0, x |-> "", ver |-> 0, body |-> "", sig |-> <<>>]
\* sig: <<>> or <<signer, type, flags, version, body, mut>> - what the signature covers
HasMac(p) == p.mac = 2
Obs(p) == [ok |-> TRUE, ty |-> p.ty, mac |-> p.mac, x |-> p.x, ver |-> p.ver, signed |-> p.sig # <<>>]
Refused == [ok |-> FALSE]
Do(e, o, nm) == act' = [ev |-> e, obs |-> o, nm |-> nm] /\ n' = n + 1
Make(e) ==
    /\ Linear => (~buf.p.ok /\ ~pk[e.p].ok)
    /\ pk' = [pk EXCEPT ![e.p] = [None EXCEPT !.ok = TRUE, !.ty = e.ty, !.mac = e.mac, !.x = e.x, !.ver = IF e.ty = "h" THEN e.ver ELSE 0, !.body = e.b]]
    /\ UNCHANGED buf /\ Do(e, Obs(pk'[e.p]), [body |-> Nb("body", e.b)])
Sign(e) ==
    /\ pk[e.p].ok
    /\ pk[e.p].sig = <<>>          \* signing a packet again is a misuse (it would leak), left out
    /\ IF e.id = "P" THEN UNCHANGED <<pk, buf>> /\ Do(e, [r |-> FALSE], NoNm)
       ELSE /\ pk' = [pk EXCEPT ![e.p].mac = 2, ![e.p].sig = <<e.id, pk[e.p].ty, pk[e.p].x, pk[e.p].ver, pk[e.p].body>>]
            /\ UNCHANGED buf /\ Do(e, [r |-> TRUE, mac |-> 2, maclen |-> 143], NoNm)
\* What the bytes say: with authentication kind 2 the last 143 bytes are the signature.
Ser(e) ==
    /\ Linear => ~buf.p.ok
    /\ pk[e.p].ok /\ pk[e.p].body # "spoiled"
    /\ buf' = [p |-> pk[e.p], mut |-> "none"]
    /\ UNCHANGED pk /\ Do(e, [ok |-> TRUE, layout |-> TRUE], NoNm)
Mut(e) == /\ buf.p.ok /\ buf.mut = "none" /\ buf' = [buf EXCEPT !.mut = e.m] /\ UNCHANGED pk /\ Do(e, [r |-> TRUE], NoNm)
\* outcome of parsing what is in buf: "same", "refused", "spoiled" (well formed, but another packet)
Hard == {"null", "one", "hdr-", "hdr", "type"}
Outcome == LET p == buf.p  m == buf.mut  big == p.body = "big" IN
    IF HasMac(p) /\ p.sig = <<>> THEN      \* claims a signature it does not have: the end of its body is read as one
        IF m = "mactype" \/ (big /\ m \notin Hard \cup {"hdr+mac"}) THEN "spoiled" ELSE "refused"
    ELSE CASE m = "none" -> "same"
           [] m \in Hard -> "refused"
           [] m = "hdr+mac" -> IF HasMac(p) THEN "refused" ELSE IF big THEN "spoiled" ELSE "skip"
           [] m = "cut" -> IF p.body = "one" THEN "refused" ELSE "spoiled"
           [] m = "swap" -> IF p.body = "one" /\ p.ty = "d" THEN "refused" ELSE "spoiled"
           [] m = "mactype" -> IF HasMac(p) \/ big THEN "spoiled" ELSE "refused"
           [] OTHER -> "spoiled"
Parse(e) ==
    /\ buf.p.ok /\ Outcome # "skip"
    /\ IF Outcome = "refused" THEN /\ pk' = [pk EXCEPT ![e.p] = None] /\ UNCHANGED buf /\ Do(e, Refused, NoNm)
       ELSE IF Outcome = "same"
       THEN /\ pk' = [pk EXCEPT ![e.p] = buf.p] /\ UNCHANGED buf /\ Do(e, Obs(buf.p), [body |-> Nb("body", buf.p.body)])
       ELSE /\ pk' = [pk EXCEPT ![e.p] = [buf.p EXCEPT !.body = "spoiled", !.ver = 99, !.sig = <<"spoiled">>]]
            /\ UNCHANGED buf /\ Do(e, [ok |-> TRUE], NoNm)
Verify(e) ==
    /\ pk[e.p].ok
    /\ UNCHANGED <<pk, buf>>
    /\ LET p == pk[e.p] IN
       Do(e, [r |-> p.mac = 2 /\ e.id # "X" /\ p.sig = <<IF e.id = "P" THEN "none" ELSE e.id, p.ty, p.x, p.ver, p.body>>], NoNm)
Copy(e) ==
    /\ pk[e.p].ok /\ pk[e.p].body # "spoiled" /\ pk' = [pk EXCEPT ![e.q] = pk[e.p]] /\ UNCHANGED buf
    /\ Do(e, Obs(pk[e.p]), [body |-> Nb("body", pk[e.p].body)])
Events == {e \in
    [op : {"Make"}, p : Pks, ty : Types, mac : Macs, x : Xs, ver : Vers, b : Bodies]
    \cup [op : {"Sign"}, p : Pks, id : Signers] \cup [op : {"Verify"}, p : Pks, id : Verifiers]
    \cup [op : {"Ser", "Parse"}, p : Pks] \cup [op : {"Mut"}, m : Muts] \cup [op : {"Copy"}, p : Pks, q : Pks] : e.op \in Kinds}
Makes == {e \in Events : e.op = "Make"}
SimEvents == RandomSubset(2 + (n % 3), Makes) \cup {e \in Events : e.op # "Make"}
Step(e) == /\ n < MaxSteps
           /\ CASE e.op = "Make" -> Make(e) [] e.op = "Sign" -> Sign(e) [] e.op = "Verify" -> Verify(e) [] e.op = "Ser" -> Ser(e)
                [] e.op = "Parse" -> Parse(e) [] e.op = "Mut" -> Mut(e) [] e.op = "Copy" -> Copy(e)
Init == pk = [p \in Pks |-> None] /\ buf = [p |-> None, mut |-> "none"] /\ n = 0 /\ act = [ev |-> [op |-> "Init"], obs |-> NoNm, nm |-> NoNm]
View == <<pk, buf>>
Next == \E e \in Events : Step(e)
--------------------------------------------------------------------------------
\* T07
RoundTrip == [][(act'.ev.op = "Parse" /\ buf.mut = "none" /\ (HasMac(buf.p) => buf.p.sig # <<>>)) => (act'.obs.ok /\ pk'[act'.ev.p] = buf.p)]_vars
OnlyTheSigner == [][(act'.ev.op = "Verify" /\ act'.obs.r) =>
    LET p == pk[act'.ev.p] IN p.sig[1] = act'.ev.id /\ <<p.sig[2], p.sig[3], p.sig[4], p.sig[5]>> = <<p.ty, p.x, p.ver, p.body>>]_vars
================================================================================
