---------------------------------- MODULE Kdf ----------------------------------
(* Key derivation as terms: the key is a function of algorithm, cost, salt,   *)
(* information, length and secret, and of nothing else.  Parameter sets are   *)
(* generated, assembled, copied, serialised, changed; data sealed under a     *)
(* password opens with it and refuses anything weaker than it was sealed with.*)
EXTENDS Naturals, Sequences, FiniteSets, TLC, Randomization
CONSTANTS Algos, Secrets, Salts, Infos, Sizes,   \* "-" is none; salt "bad" has a wrong length, info "big" is too long
          BClass,          \* [Secrets -> what the bcrypt algorithms see of them]
          Texts, SWays, MaxM, Kinds
VARIABLES ms, ss, act       \* parameter sets (or their serialised form), sealed data
vars == <<ms, ss, act>>
Nb(s, n) == [s |-> s, n |-> n, k |-> "b"]
Un(s, n) == [s |-> s, n |-> n, k |-> "u"]
NoNm == [x \in {} |-> 0]
No == [r |-> FALSE]
NoSalt == <<"-">>
M == Len(ms)  S == Len(ss)
Did(v, y, z, o, nm) == ms' = y /\ ss' = z /\ act' = [ev |-> v, obs |-> o, nm |-> nm]
Fail(v) == Did(v, ms, ss, No, NoNm)
Hkdf == {"h256", "h384", "h512", "hx"}
Scrypt == {"s17", "s18", "s19", "s20"}
Len0(a) == CASE a \in Scrypt -> 32 [] a = "b15" -> 60 [] a = "h256" -> 32 [] a = "h384" -> 48 [] a = "h512" -> 64 [] OTHER -> 0
Cost(a) == CASE a = "s17" -> "1:131072:8:1" [] a = "s18" -> "1:262144:8:1" [] a = "s19" -> "1:524288:8:1" [] a = "s20" -> "1:1048576:8:1" [] a = "b15" -> "2:15:0:0" [] OTHER -> "0:0:0:0"
Par(a, s, i, n) == [form |-> "obj", algo |-> a, salt |-> s, info |-> i, out |-> n]
Term(m, x) == [algo |-> m.algo, out |-> m.out, salt |-> IF m.algo = "hx" THEN NoSalt ELSE m.salt, info |-> IF m.algo \in Hkdf THEN m.info ELSE "-", secret |-> IF m.algo = "b15" THEN BClass[x] ELSE x]
NmX(x) == IF x = "-" THEN "absent" ELSE x
NmS(x) == IF x = NoSalt THEN "absent" ELSE x
MObs(m) == [r |-> TRUE, algo |-> m.algo, out |-> IF m.algo = "b15" THEN 64 ELSE m.out]
MNm(m) == [salt |-> Nb("salt", NmS(m.salt)), info |-> Nb("info", NmX(m.info))]
PutM(v, m) == M < MaxM /\ Did(v, Append(ms, m), ss, MObs(m), MNm(m))
KObs(m) == [r |-> TRUE, algo |-> m.algo, len |-> m.out, cost |-> Cost(m.algo), std |-> TRUE]
KNm(m, x) == [key |-> Nb("key", Term(m, x)), salt |-> Nb("salt", NmS(m.salt)), info |-> Nb("info", NmX(m.info))]
Able(m) == m.out > 0 /\ ~(m.algo \in Hkdf /\ m.info = "big")
--------------------------------------------------------------------------------
Gen(v) == LET m == Par(v.algo, <<"fresh", M + 1>>, "-", Len0(v.algo)) IN
    IF v.algo = "hx" THEN Fail(v) ELSE M < MaxM /\ Did(v, Append(ms, m), ss, KObs(m), KNm(m, v.x))
Make(v) ==
    LET ok == IF v.algo \in Hkdf THEN v.salt # "-" \/ v.info # "-" ELSE v.salt \notin {"-", "bad"}
    IN IF ~ok THEN Fail(v) ELSE PutM(v, Par(v.algo, IF v.salt = "-" THEN NoSalt ELSE <<v.salt, IF v.algo = "b15" THEN "b" ELSE "s">>, v.info, Len0(v.algo)))
Expand(v) == IF v.g # "512" \/ v.info = "-" \/ v.n > 255 THEN Fail(v) ELSE PutM(v, Par("hx", NoSalt, v.info, v.n))
Derive(v) == LET m == ms[v.i] IN v.i <= M /\ m.form = "obj" /\ (IF Able(m) THEN Did(v, ms, ss, KObs(m), KNm(m, v.x)) ELSE Fail(v))
\* serialising keeps algorithm and salt; only the password algorithms can be read back
Ser(v) == LET m == ms[v.i] IN v.i <= M /\ m.form = "obj" /\ (IF m.salt = NoSalt THEN Fail(v) ELSE M < MaxM /\ Did(v, Append(ms, [m EXCEPT !.form = "bytes", !.info = "-"]), ss, [r |-> TRUE], NoNm))
Other(x) == IF x[1] = "changed" THEN x[2] ELSE <<"changed", x>>
Read(v) == LET m == ms[v.i] IN v.i <= M /\ m.form = "bytes" /\ (v.w = "cost" => m.algo \notin Hkdf) /\ (IF m.algo \in Hkdf \/ v.w \in {"badid", "cut", "empty"} THEN Fail(v) ELSE
    PutM(v, [m EXCEPT !.form = "obj", !.salt = IF v.w = "salt" THEN Other(@) ELSE @, !.algo = IF v.w = "cost" THEN (IF @ = "s17" THEN "s18" ELSE IF @ = "b15" THEN "b15" ELSE "s17") ELSE @]))
Copy(v) == v.i <= M /\ ms[v.i].form = "obj" /\ PutM(v, ms[v.i])
\* ---- sealing under a password
Seal(v) == IF v.algo \notin Scrypt \/ v.c # "GCM" THEN Fail(v)
    ELSE S < MaxM /\ Did(v, ms, Append(ss, [algo |-> v.algo, c |-> v.c, t |-> v.t, x |-> v.x, ok |-> TRUE]), [r |-> TRUE, leak |-> FALSE], [salt |-> Nb("salt", <<"seal", S + 1>>), iv |-> Nb("iv", S + 1)])
Craft(v) == S < MaxM /\ Did(v, ms, Append(ss, [algo |-> v.algo, c |-> v.c, t |-> v.t, x |-> v.x, ok |-> v.algo \in Scrypt /\ v.c = "GCM"]), [r |-> TRUE], NoNm)
Spoil(v) == v.i <= S /\ ss[v.i].ok /\ S < MaxM /\ Did(v, ms, Append(ss, [ss[v.i] EXCEPT !.ok = FALSE]), [r |-> TRUE], NoNm)
Unseal(v) == LET s == ss[v.i] IN v.i <= S /\ (IF s.ok /\ s.x = v.x THEN Did(v, ms, ss, [r |-> TRUE], [t |-> Nb("text", s.t)]) ELSE Fail(v))
--------------------------------------------------------------------------------
I == 1..MaxM
Sets == <<
    [op : {"Gen"}, algo : Algos, x : Secrets],
    [op : {"Make"}, algo : Algos, salt : Salts, info : Infos],
    [op : {"Expand"}, g : {"256", "384", "512"}, info : Infos, n : Sizes],
    [op : {"Derive"}, i : I, x : Secrets],
    [op : {"Ser"}, i : I],
    [op : {"Read"}, i : I, w : {"-", "salt", "cost", "badid", "cut", "empty"}],
    [op : {"Copy"}, i : I],
    [op : {"Seal"}, algo : Algos \ Hkdf, c : {"GCM", "CTR"}, t : Texts, x : Secrets] \cup [op : {"Seal"}, algo : Algos \cap Hkdf, c : {"GCM"}, t : Texts, x : Secrets],
    [op : {"Craft"}, algo : Algos \ Hkdf, c : {"GCM", "CTR"}, t : Texts, x : Secrets],
    [op : {"Spoil"}, i : I, w : SWays],
    [op : {"Unseal"}, i : I, x : Secrets] >>
Events == {v \in UNION {Sets[i] : i \in DOMAIN Sets} : v.op \in Kinds}
Pick(k, P) == IF Cardinality(P) <= k THEN P ELSE RandomSubset(k, P)
SimEvents == {v \in UNION {Pick(4 + (M - M), Sets[i]) : i \in DOMAIN Sets} : v.op \in Kinds}
Step(v) == CASE v.op = "Gen" -> Gen(v) [] v.op = "Make" -> Make(v) [] v.op = "Expand" -> Expand(v) [] v.op = "Derive" -> Derive(v) [] v.op = "Ser" -> Ser(v) [] v.op = "Read" -> Read(v)
    [] v.op = "Copy" -> Copy(v) [] v.op = "Seal" -> Seal(v) [] v.op = "Craft" -> Craft(v) [] v.op = "Spoil" -> Spoil(v) [] v.op = "Unseal" -> Unseal(v)
Init == ms = <<>> /\ ss = <<>> /\ act = [ev |-> [op |-> "Init"], obs |-> NoNm, nm |-> NoNm]
View == <<ms, ss>>
Next == \E v \in Events : Step(v)
--------------------------------------------------------------------------------
OnlySame == [][(act'.ev.op = "Unseal" /\ act'.obs.r) => ss[act'.ev.i].x = act'.ev.x /\ ss[act'.ev.i].algo \in Scrypt /\ ss[act'.ev.i].c = "GCM"]_vars
OnlyStrong == [][(act'.ev.op = "Seal" /\ act'.obs.r) => act'.ev.algo \in Scrypt /\ act'.ev.c = "GCM"]_vars
================================================================================
