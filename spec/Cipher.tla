-------------------------------- MODULE Cipher --------------------------------
(* Symmetric ciphers as terms: encrypting gives a nonce, a text and, with an  *)
(* authenticated cipher, a tag.  Results are assembled from the parts of      *)
(* others, changed, serialised and copied; anybody deciphers any of them with *)
(* any key, any additional data, allowing unauthenticated ciphers or not.     *)
EXTENDS Naturals, Sequences, FiniteSets, TLC, Randomization
CONSTANTS Data, Ciphers,  \* keys are <<key data, cipher>>; the same data may serve both
          Texts, Short,   \* Short: texts so short that ciphertexts may coincide
          Aads, Nonces,   \* additional data ("-" is none, "huge" more than a cipher takes: nothing is enciphered with it); nonces the caller may give ("-" draws one, "bad" has a wrong length)
          Ways, MaxCr, Kinds
VARIABLES cr, act
vars == <<cr, act>>
Nb(s, n) == [s |-> s, n |-> n, k |-> "b"]
NoNm == [x \in {} |-> 0]
No == [r |-> FALSE]
N == Len(cr)
Keys == {<<d, c>> : d \in Data, c \in Ciphers}
IsAuth(c) == c = "GCM"
Did(v, y, o, nm) == cr' = y /\ act' = [ev |-> v, obs |-> o, nm |-> nm]
Fail(v) == Did(v, cr, No, NoNm)
Gone == <<"none">>
Iv(k, x) == <<"iv", k[2], x>>
Ct(k, iv, t) == <<"ct", k, iv, t>>
Tag(k, iv, t, a) == <<"tag", k, iv, t, a>>
NmT(x) == IF x = Gone THEN "absent" ELSE x
Show(x) == [r |-> TRUE, c |-> x.c, valid |-> TRUE, shape |-> TRUE]
\* (what a change makes of a part is not named: two changes may have the same outcome)
Wild(p) == p[1] = "changed"
Vague(p) == Wild(p) \/ (p[1] = "ct" /\ p[4] \in Short)
CrNm(x) == (IF Wild(x.iv) THEN NoNm ELSE [iv |-> Nb("iv", NmT(x.iv))]) @@ (IF Wild(x.tag) THEN NoNm ELSE [tag |-> Nb("tag", NmT(x.tag))]) @@ (IF Vague(x.ct) THEN NoNm ELSE [ct |-> Nb("ct", NmT(x.ct))])
PutCr(v, x) == N < MaxCr /\ Did(v, Append(cr, x), Show(x), CrNm(x))
--------------------------------------------------------------------------------
Enc(v) ==
    LET k == <<v.d, v.c>>  iv == Iv(k, IF v.iv = "-" THEN <<"fresh", N + 1>> ELSE <<v.iv>>)
        x == [c |-> v.c, iv |-> iv, ct |-> Ct(k, iv, v.t), tag |-> IF IsAuth(v.c) THEN Tag(k, iv, v.t, v.a) ELSE Gone]
    IN IF v.iv = "bad" \/ v.a = "huge" \/ (v.a # "-" /\ ~IsAuth(v.c)) THEN Fail(v)
       ELSE N < MaxCr /\ Did(v, Append(cr, x), Show(x) @@ [leak |-> FALSE, full |-> TRUE], CrNm(x))
\* what deciphering gives: a text, something meaningless, or nothing
Opened(x, k, a, only) ==
    IF x.ct = Gone \/ x.c # k[2] \/ (only /\ ~IsAuth(x.c)) \/ (a # "-" /\ ~IsAuth(x.c)) THEN <<"no">>
    ELSE LET right == x.ct[1] = "ct" /\ x.ct[2] = k /\ x.ct[3] = x.iv IN
         IF IsAuth(x.c) THEN (IF right /\ x.tag = Tag(k, x.iv, x.ct[4], a) THEN <<"text", x.ct[4]>> ELSE <<"no">>)
         ELSE IF right THEN <<"text", x.ct[4]>> ELSE <<"noise", k, x.iv, x.ct>>
Dec(v) == LET x == cr[v.i]  y == Opened(x, <<v.d, v.c>>, v.a, v.only) IN
    /\ v.i <= N
    /\ CASE y[1] = "no" -> Fail(v)
         [] y[1] = "noise" -> Did(v, cr, [r |-> TRUE], IF Vague(x.ct) \/ Wild(x.iv) THEN NoNm ELSE [t |-> Nb("text", y)])
         [] OTHER -> Did(v, cr, [r |-> TRUE], [t |-> Nb("text", y[2])])
\* results put together from parts; each part must have the shape its cipher demands
Mix(v) ==
    LET i == cr[v.i].iv  x == cr[v.j].ct  t == IF v.k = 0 THEN Gone ELSE cr[v.k].tag
        good == (cr[v.i].c = v.c) /\ (IF IsAuth(v.c) THEN t # Gone ELSE t = Gone)
    IN /\ v.i <= N /\ v.j <= N /\ v.k <= N
       /\ IF ~good THEN Fail(v) ELSE PutCr(v, [c |-> v.c, iv |-> i, ct |-> x, tag |-> t])
Altered(n) == <<"changed", n>>
Change(v) ==
    LET x == cr[v.i]  w == v.w  oc == IF x.c = "GCM" THEN "CTR" ELSE "GCM"  m == Altered(N + 1)
        y == CASE w = "iv" -> [x EXCEPT !.iv = m] [] w = "ct" -> [x EXCEPT !.ct = m] [] w = "tag" -> [x EXCEPT !.tag = m]
               [] w \in {"ext", "trunc"} -> [x EXCEPT !.ct = m] [] w = "noct" -> [x EXCEPT !.ct = Gone]
               [] OTHER -> [c |-> oc, iv |-> m, ct |-> m, tag |-> IF IsAuth(oc) THEN m ELSE Gone]
    IN /\ v.i <= N /\ x.ct # Gone /\ ~(Wild(x.iv) \/ Wild(x.ct) \/ Wild(x.tag)) /\ (w = "tag" => IsAuth(x.c)) /\ (w = "trunc" => ~(x.ct[1] = "ct" /\ x.ct[4] \in Short)) /\ (w = "other" => ~(x.ct[1] = "ct" /\ x.ct[4] \in Short))
       /\ IF w \in {"badid", "short"} THEN Fail(v) ELSE N < MaxCr /\ Did(v, Append(cr, y), Show(y), CrNm(y))
Same(v) == v.i <= N /\ Did(v, cr, Show(cr[v.i]) @@ [same |-> TRUE], CrNm(cr[v.i]))     \* serialised and read back, or copied
\* keys: drawn, serialised, copied, malformed
KeySame(v) == Did(v, cr, [r |-> TRUE, c |-> v.c, len |-> 32], [k |-> Nb("key", v.d)])
KeyBad(v) == Fail(v)
KeyRand(v) == N < MaxCr /\ Did(v, cr, [r |-> TRUE, c |-> v.c, len |-> 32, fresh |-> TRUE], NoNm)
--------------------------------------------------------------------------------
I == 1..MaxCr
Sets == <<
    [op : {"Enc"}, d : Data, c : Ciphers, t : Texts, a : Aads, iv : Nonces],
    [op : {"Dec"}, i : I, d : Data, c : Ciphers, a : Aads, only : BOOLEAN],
    [op : {"Mix"}, c : Ciphers, i : I, j : I, k : 0..MaxCr],
    [op : {"Change"}, i : I, w : Ways],
    [op : {"Same"}, i : I, w : {"ser", "copy"}],
    [op : {"KeySame"}, d : Data, c : Ciphers, w : {"ser", "copy"}],
    [op : {"KeyBad"}, d : Data, c : Ciphers, w : {"badid", "short", "empty", "cut", "long", "less"}],
    [op : {"KeyRand"}, c : Ciphers] >>
Events == {v \in UNION {Sets[i] : i \in DOMAIN Sets} : v.op \in Kinds}
Pick(k, S) == IF Cardinality(S) <= k THEN S ELSE RandomSubset(k, S)
Good == {v \in Sets[2] : v.i <= N /\ Opened(cr[v.i], <<v.d, v.c>>, v.a, v.only)[1] # "no"}
SimEvents == UNION {Pick(5 + (N - N), Sets[i]) : i \in DOMAIN Sets} \cup Pick(4, Good)
Step(v) == CASE v.op = "Enc" -> Enc(v) [] v.op = "Dec" -> Dec(v) [] v.op = "Mix" -> Mix(v) [] v.op = "Change" -> Change(v) [] v.op = "Same" -> Same(v)
    [] v.op = "KeySame" -> KeySame(v) [] v.op = "KeyBad" -> KeyBad(v) [] v.op = "KeyRand" -> KeyRand(v)
Init == cr = <<>> /\ act = [ev |-> [op |-> "Init"], obs |-> NoNm, nm |-> NoNm]
View == cr
Next == \E v \in Events : Step(v)
--------------------------------------------------------------------------------
Got == act'.ev.op = "Dec" /\ act'.obs.r
\* only exactly what one encryption produced, and then exactly what was encrypted
Exact == [][(Got /\ IsAuth(act'.ev.c)) => LET x == cr[act'.ev.i]  k == <<act'.ev.d, act'.ev.c>> IN
             \E t \in Texts : x.ct = Ct(k, x.iv, t) /\ x.tag = Tag(k, x.iv, t, act'.ev.a) /\ act'.nm.t.n = t]_vars
OnlyAuth == [][(Got /\ act'.ev.only) => IsAuth(cr[act'.ev.i].c)]_vars
NoAad == [][(act'.ev.op \in {"Enc", "Dec"} /\ act'.obs.r /\ act'.ev.a # "-") => IsAuth(act'.ev.c)]_vars
================================================================================
