--------------------------------- MODULE Ecdh ----------------------------------
(* Encryption under an agreed key: the secret of two key pairs is the same    *)
(* from either side; the cipher key is a function of that secret and of the   *)
(* derivation parameters.                                                     *)
EXTENDS Naturals, Sequences, FiniteSets, TLC, Randomization
CONSTANTS Ks,              \* key pairs, numbered
          Forms,           \* forms a key is given in: "pri", "pub"
          Pars,            \* derivation parameters: [algo, salt, info]
          Ciphers, Texts, Ways, MaxCr, Kinds
VARIABLES cr, act
vars == <<cr, act>>
Nb(s, n) == [s |-> s, n |-> n, k |-> "b"]
NoNm == [x \in {} |-> 0]
No == [r |-> FALSE]
N == Len(cr)
Did(v, y, o, nm) == cr' = y /\ act' = [ev |-> v, obs |-> o, nm |-> nm]
Fail(v) == Did(v, cr, No, NoNm)
Pair(a, b) == IF a <= b THEN <<a, b>> ELSE <<b, a>>
Hkdf == {"h256", "h384", "h512", "hx"}
Key(a, b, p, c) == [pair |-> Pair(a, b), algo |-> p.algo, salt |-> IF p.algo = "hx" THEN "-" ELSE p.salt, info |-> p.info, c |-> c]
Able(v) == v.f = "pri" /\ v.p.algo \in Hkdf
Enc(v) == IF ~Able(v) THEN Fail(v)
    ELSE N < MaxCr /\ Did(v, Append(cr, [c |-> v.c, key |-> Key(v.a, v.b, v.p, v.c), t |-> v.t, ok |-> TRUE]), [r |-> TRUE, leak |-> FALSE, valid |-> TRUE, shape |-> TRUE, c |-> v.c], [iv |-> Nb("iv", N + 1), ct |-> Nb("ct", N + 1)])
Dec(v) == LET x == cr[v.i] IN
    /\ v.i <= N
    /\ IF ~Able(v) \/ x.c # v.c THEN Fail(v)
       ELSE IF x.ok /\ x.key = Key(v.a, v.b, v.p, v.c) THEN Did(v, cr, [r |-> TRUE], [t |-> Nb("text", x.t)])
       ELSE IF v.c = "GCM" THEN Fail(v) ELSE Did(v, cr, [r |-> TRUE], [t |-> Nb("text", <<"noise", v.i, Key(v.a, v.b, v.p, v.c)>>)])
Change(v) == v.i <= N /\ cr[v.i].ok /\ N < MaxCr /\ (v.w = "tag" => cr[v.i].c = "GCM") /\ Did(v, Append(cr, [cr[v.i] EXCEPT !.ok = FALSE]), [r |-> TRUE], NoNm)
\* the agreed secret itself
Secret(v) == IF v.f = "pri" THEN Did(v, cr, [r |-> TRUE, len |-> 66], [ss |-> Nb("ss", Pair(v.a, v.b))]) ELSE Fail(v)
I == 1..MaxCr
Sets == <<
    [op : {"Enc"}, a : Ks, f : Forms, b : Ks, g : Forms, p : Pars, c : Ciphers, t : Texts],
    [op : {"Dec"}, i : I, a : Ks, f : Forms, b : Ks, g : Forms, p : Pars, c : Ciphers],
    [op : {"Change"}, i : I, w : Ways],
    [op : {"Secret"}, a : Ks, f : Forms, b : Ks, g : Forms] >>
Events == {v \in UNION {Sets[i] : i \in DOMAIN Sets} : v.op \in Kinds}
Pick(k, S) == IF Cardinality(S) <= k THEN S ELSE RandomSubset(k, S)
Good == {v \in Sets[2] : v.i <= N /\ v.f = "pri" /\ cr[v.i].ok /\ cr[v.i].key = Key(v.a, v.b, v.p, v.c)}
SimEvents == UNION {Pick(4 + (N - N), Sets[i]) : i \in DOMAIN Sets} \cup Pick(3, Good)
Step(v) == CASE v.op = "Enc" -> Enc(v) [] v.op = "Dec" -> Dec(v) [] v.op = "Change" -> Change(v) [] v.op = "Secret" -> Secret(v)
Init == cr = <<>> /\ act = [ev |-> [op |-> "Init"], obs |-> NoNm, nm |-> NoNm]
View == cr
Next == \E v \in Events : Step(v)
OnlyPeer == [][(act'.ev.op = "Dec" /\ act'.obs.r /\ act'.ev.c = "GCM") => LET x == cr[act'.ev.i] IN x.ok /\ Pair(act'.ev.a, act'.ev.b) = x.key.pair /\ act'.ev.p.algo = x.key.algo /\ act'.ev.p.info = x.key.info /\ (act'.ev.p.algo # "hx" => act'.ev.p.salt = x.key.salt)]_vars
================================================================================
