------------------------------- MODULE Stream -------------------------------
(* Encoding and decoding streams: direction, forward-only sequence numbers,   *)
(* key evolution, nonce generation, reference counting and copies.            *)
(* Sequence numbers are abstract: a key k groups them in periods of Ppe[k],   *)
(* and the adapter maps them monotonically to 64-bit values that keep the     *)
(* period structure, for any real packet count per period.                    *)
EXTENDS Naturals, Integers, Sequences, FiniteSets, TLC
CONSTANTS Keys,      \* stream keys
          Ppe,       \* [Keys -> packets per key period]
          Ctx,       \* names of stream contexts
          MaxSeq,    \* largest abstract sequence number
          MaxCts,    \* number of ciphertexts kept
          MaxRefs, Aads, Tampers,
          Runs,      \* lengths of uninterrupted runs
          Kinds      \* event kinds in use
VARIABLES ctx,       \* [Ctx -> None or stream state]
          cts,       \* ciphertexts produced so far
          act        \* last event, what it must be observed to do (not part of the state)
vars == <<ctx, cts, act>>
None == [k |-> "none", dir |-> "", last |-> 0, refs |-> 0, n |-> 0, shared |-> FALSE]
Seqs == 0 .. MaxSeq
Epoch(k, s) == s \div Ppe[k]
Live(c) == ctx[c].refs > 0
KeyNm(c) == <<ctx[c].k, Epoch(ctx[c].k, ctx[c].last)>>
\* nm entries: [s |-> name space, n |-> abstract name, k |-> "b" (bijective) or "f" (token determines name)]
Nb(s, n) == [s |-> s, n |-> n, k |-> "b"]
Nf(s, n) == [s |-> s, n |-> n, k |-> "f"]
Set(e, o, nm) == act' = [ev |-> e, obs |-> o, nm |-> nm]
NoNm == [x \in {} |-> 0]

New(e) ==
    /\ ~Live(e.c)
    /\ ctx' = [ctx EXCEPT ![e.c] = [k |-> e.k, dir |-> e.d, last |-> 0, refs |-> 1, n |-> 0, shared |-> FALSE]]
    /\ UNCHANGED cts
    /\ Set(e, [r |-> TRUE, last |-> 0], [key |-> Nb("key", <<e.k, 0>>)])

Ref(e) ==
    /\ Live(e.c) /\ ctx[e.c].refs < MaxRefs
    /\ ctx' = [ctx EXCEPT ![e.c].refs = @ + 1]
    /\ UNCHANGED cts
    /\ Set(e, [r |-> TRUE], NoNm)

Rel(e) ==
    /\ Live(e.c)
    /\ ctx' = [ctx EXCEPT ![e.c] = IF @.refs = 1 THEN None ELSE [@ EXCEPT !.refs = @ - 1]]
    /\ UNCHANGED cts
    /\ Set(e, [alive |-> ctx[e.c].refs > 1], NoNm)

\* A copy is an independent stream that behaves as the original would from here on.
Copy(e) ==
    /\ Live(e.c) /\ ~Live(e.f)
    /\ ctx' = [ctx EXCEPT ![e.f] = [ctx[e.c] EXCEPT !.refs = 1, !.shared = TRUE],
                          ![e.c].shared = TRUE]
    /\ UNCHANGED cts
    /\ Set(e, [r |-> TRUE, last |-> ctx[e.c].last], [key |-> Nb("key", KeyNm(e.c))])

EncWhy(e) == IF ctx[e.c].dir # "E" THEN "dir" ELSE IF e.s <= ctx[e.c].last THEN "seq" ELSE "ok"
Enc(e) ==
    /\ Live(e.c) /\ Len(cts) < MaxCts
    /\ LET w == EncWhy(e)  x == ctx[e.c]  k == x.k  ok == w = "ok"
           kn == <<k, Epoch(k, e.s)>>
           m == Len(cts) + 1
       IN IF ~ok
          THEN /\ UNCHANGED <<ctx, cts>>
               /\ Set(e, [ok |-> FALSE, last |-> x.last], [key |-> Nb("key", KeyNm(e.c))])
          ELSE /\ ctx' = [ctx EXCEPT ![e.c].last = e.s, ![e.c].n = @ + 1]
               /\ cts' = Append(cts, [k |-> k, ep |-> Epoch(k, e.s), aad |-> e.aad, s |-> e.s])
               /\ Set(e, [ok |-> TRUE, last |-> e.s, clear |-> FALSE],
                      [key |-> Nb("key", kn), msg |-> Nb("msg", m)]
                      @@ (IF x.shared THEN NoNm ELSE [iv |-> Nf("iv", e.c)])
                      @@ [kiv |-> Nb("kiv-" \o e.c, x.n + 1),
                          \* a copy goes on with the nonces of its original: the n-th of both may agree, no others
                          root |-> Nf("root-" \o e.c, x.n + 1)])

DecWhy(e) == LET x == ctx[e.c]  t == cts[e.i] IN
    IF x.dir # "D" THEN "dir"
    ELSE IF e.s <= x.last THEN "seq"
    ELSE IF e.t # "none" THEN "tamper"
    ELSE IF t.k # x.k THEN "key"
    ELSE IF t.ep # Epoch(x.k, e.s) THEN "period"
    ELSE IF t.aad # e.aad THEN "aad" ELSE "ok"
Dec(e) ==
    /\ Live(e.c) /\ e.i <= Len(cts)
    /\ LET w == DecWhy(e)  x == ctx[e.c] IN
       IF w = "ok"
       THEN /\ ctx' = [ctx EXCEPT ![e.c].last = e.s]
            /\ UNCHANGED cts
            /\ Set(e, [ok |-> TRUE, last |-> e.s], [key |-> Nb("key", <<x.k, Epoch(x.k, e.s)>>), msg |-> Nb("msg", e.i)])
       ELSE /\ UNCHANGED <<ctx, cts>>
            /\ Set(e, [ok |-> FALSE, last |-> x.last], [key |-> Nb("key", KeyNm(e.c))])

\* A long uninterrupted run of n packets, each encoded and decoded in turn.
Many(e) ==
    /\ Live(e.c) /\ Live(e.f) /\ ctx[e.c].dir = "E" /\ ctx[e.f].dir = "D" /\ ctx[e.c].k = ctx[e.f].k
    /\ ctx[e.f].last <= ctx[e.c].last /\ ctx[e.c].last + e.n <= MaxSeq
    /\ LET s == ctx[e.c].last + e.n IN
       /\ ctx' = [ctx EXCEPT ![e.c].last = s, ![e.c].n = @ + e.n, ![e.f].last = s]
       /\ UNCHANGED cts
       /\ Set(e, [encoded |-> e.n, decoded |-> e.n, fresh |-> e.n, periods |-> Epoch(ctx[e.c].k, s) - Epoch(ctx[e.c].k, ctx[e.c].last), last |-> s],
              [key |-> Nb("key", <<ctx[e.c].k, Epoch(ctx[e.c].k, s)>>)])

\* Encoding while the cipher itself fails: nothing comes out and the stream may be used again.
EncFault(e) ==
    /\ Live(e.c) /\ EncWhy(e) = "ok" /\ ~ctx[e.c].shared     \* (may use up a nonce)
    /\ UNCHANGED <<ctx, cts>>
    /\ Set(e, [ok |-> FALSE, last |-> ctx[e.c].last], NoNm)

\* State-aware selection of events for long random behaviours
Pick(S) == IF S = {} THEN {} ELSE {CHOOSE x \in S : TRUE}
SimEvents ==
    [op : {"New"}, c : {c \in Ctx : ~Live(c)}, k : Keys, d : {"E", "D"}]
    \cup UNION {{[op |-> "Enc", c |-> c, s |-> x, aad |-> a] : a \in Aads,
                 x \in {y \in {ctx[c].last, ctx[c].last + 1, ctx[c].last + 2, ctx[c].last + 3, ctx[c].last + 7, ctx[c].last - 1} : y >= 0 /\ y <= MaxSeq}}
                : c \in {c \in Ctx : Live(c) /\ ctx[c].dir = "E" /\ Len(cts) < MaxCts}}
    \cup UNION {{[op |-> "Dec", c |-> c, i |-> i, s |-> cts[i].s + x, aad |-> a, t |-> t] :
                   x \in {0} \cup (IF cts[i].s < MaxSeq THEN {1} ELSE {}), a \in {cts[i].aad} \cup Pick(Aads), t \in {"none"} \cup Pick(Tampers)}
                : c \in {c \in Ctx : Live(c) /\ ctx[c].dir = "D"}, i \in {i \in 1..Len(cts) : i > Len(cts) - 6}}
    \cup UNION {{[op |-> "Dec", c |-> c, i |-> i, s |-> cts[i].s, aad |-> cts[i].aad, t |-> t] : t \in Tampers}
                : c \in {c \in Ctx : Live(c) /\ ctx[c].dir = "D"}, i \in {i \in 1..Len(cts) : i = Len(cts)}}
    \cup UNION {{[op |-> "Copy", c |-> c, f |-> f] : f \in {f \in Ctx : ~Live(f)}} : c \in {c \in Ctx : Live(c) /\ "Copy" \in Kinds}}
    \cup UNION {{[op |-> o, c |-> c] : o \in Kinds \cap {"Ref", "Rel"}} : c \in {c \in Ctx : Live(c)}}
    \cup UNION {{[op |-> "EncFault", c |-> c, s |-> ctx[c].last + x, aad |-> "a0"] : x \in {1, 2}} : c \in {c \in Ctx : Live(c) /\ ctx[c].dir = "E" /\ ~ctx[c].shared /\ ctx[c].last + 2 <= MaxSeq /\ "EncFault" \in Kinds}}

Events == {e \in
    [op : {"New"}, c : Ctx, k : Keys, d : {"E", "D"}]
    \cup [op : {"Ref", "Rel"}, c : Ctx]
    \cup [op : {"Copy"}, c : Ctx, f : Ctx]
    \cup [op : {"Enc"}, c : Ctx, s : Seqs, aad : Aads]
    \cup [op : {"EncFault"}, c : Ctx, s : IF "EncFault" \in Kinds THEN Seqs ELSE {}, aad : Aads]
    \cup [op : {"Many"}, c : Ctx, f : Ctx, n : Runs]
    \cup [op : {"Dec"}, c : Ctx, i : 1..MaxCts, s : Seqs, aad : Aads, t : Tampers] : e.op \in Kinds}
Step(e) == CASE e.op = "New" -> New(e) [] e.op = "Ref" -> Ref(e) [] e.op = "Rel" -> Rel(e)
             [] e.op = "Copy" -> Copy(e) [] e.op = "Enc" -> Enc(e) [] e.op = "Dec" -> Dec(e)
             [] e.op = "EncFault" -> EncFault(e) [] e.op = "Many" -> Many(e)

Init == ctx = [c \in Ctx |-> None] /\ cts = <<>> /\ act = [ev |-> [op |-> "Init"], obs |-> NoNm, nm |-> NoNm]
View == <<ctx, cts>>
Next == \E e \in Events : Step(e)
Spec == Init /\ [][Next]_vars

--------------------------------------------------------------------------------
\* Properties decided on the model
TypeOK == \A c \in Ctx : ctx[c].refs \in 0..MaxRefs /\ ctx[c].last \in Seqs
\* S01: sequence numbers only move forward while a stream lives; success only strictly beyond the last one
ForwardOnly == [][\A c \in Ctx : (Live(c) /\ ctx'[c].refs > 0) => ctx'[c].last >= ctx[c].last]_vars
SuccessMovesForward == [][(act'.ev.op \in {"Enc", "Dec"} /\ act'.obs.ok) =>
    /\ ctx'[act'.ev.c].last > ctx[act'.ev.c].last
    /\ (act'.ev.op = "Enc") = (ctx[act'.ev.c].dir = "E")]_vars
\* S02: a packet decodes under the key it was encoded with; the key period never goes back
PeriodForward == [][\A c \in Ctx : (Live(c) /\ ctx'[c].refs > 0) =>
    Epoch(ctx[c].k, ctx'[c].last) >= Epoch(ctx[c].k, ctx[c].last)]_vars
DecodesInStep == [][(act'.ev.op = "Dec" /\ act'.ev.t = "none" /\ act'.ev.s > ctx[act'.ev.c].last
                     /\ ctx[act'.ev.c].dir = "D" /\ cts[act'.ev.i].k = ctx[act'.ev.c].k
                     /\ cts[act'.ev.i].s = act'.ev.s /\ cts[act'.ev.i].aad = act'.ev.aad) => act'.obs.ok]_vars
\* S04: whatever is refused leaves every stream as it was
RefusalIsNoop == [][(act'.ev.op \in {"Enc", "Dec", "EncFault"} /\ ~act'.obs.ok) => UNCHANGED <<ctx, cts>>]_vars
\* S05: only Rel ends a stream, and operations on one stream never touch another
Isolation == [][\A c \in Ctx : (act'.ev.op \notin {"Copy", "Many"} /\ c # act'.ev.c) => ctx'[c] = ctx[c]]_vars
OnlyReleaseEnds == [][\A c \in Ctx : (Live(c) /\ ctx'[c].refs = 0) => (act'.ev.op = "Rel" /\ ctx[c].refs = 1)]_vars
================================================================================
