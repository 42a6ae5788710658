--------------------------------- MODULE Codec ---------------------------------
(* Base16, base32 (Crockford) and base64 defined by arithmetic on bit groups. *)
(* Items are sequences of numbers below 256: data, or text as character codes.*)
EXTENDS Naturals, Sequences, FiniteSets, TLC, Randomization
CONSTANTS Datas,     \* sequence of byte sequences to start from
          Chars,     \* characters put into texts by hand
          Poss,      \* where (a number, reduced to the length)
          MaxI, Kinds
VARIABLES it, act
vars == <<it, act>>
NoNm == [x \in {} |-> 0]
N == Len(it)
Did(v, y, o) == it' = y /\ act' = [ev |-> v, obs |-> o, nm |-> NoNm]
Codecs == {"b64", "b32", "hex"}
Bits(c) == CASE c = "b64" -> 6 [] c = "b32" -> 5 [] OTHER -> 4
Range(a, n) == [i \in 1..n |-> a + i - 1]
Digits == Range(48, 10)
Alphas == [b64 |-> Range(65, 26) \o Range(97, 26) \o Digits \o <<43, 47>>,
           b32 |-> Digits \o Range(65, 8) \o <<74, 75, 77, 78>> \o Range(80, 5) \o Range(86, 5),
           hex |-> Digits \o Range(97, 6)]
Alpha(c) == Alphas[c]
Ords == [c \in Codecs |-> [x \in 0..255 |-> IF \E i \in DOMAIN Alphas[c] : Alphas[c][i] = x THEN (CHOOSE i \in DOMAIN Alphas[c] : Alphas[c][i] = x) - 1 ELSE 99]]
Ord(c, x) == Ords[c][x]
Pow(n) == 2 ^ n
Bit(x, w, k) == (x \div Pow(w - 1 - k)) % 2                    \* bit k, most significant first, of a w bit number
\* bit p (from 0) of a sequence of w bit numbers; 0 beyond the end
At(s, w, p) == IF p \div w >= Len(s) THEN 0 ELSE Bit(s[p \div w + 1], w, p % w)
RECURSIVE Val(_, _, _, _)
Val(s, w, p, n) == IF n = 0 THEN 0 ELSE 2 * Val(s, w, p, n - 1) + At(s, w, p + n - 1)
Regroup(s, w, u, n) == TLCEval([i \in 1..n |-> Val(s, w, (i - 1) * u, u)])   \* n numbers of u bits from numbers of w bits
Up(a, b) == (a + b - 1) \div b
Pad(n) == IF n % 3 = 1 THEN <<61, 61>> ELSE IF n % 3 = 2 THEN <<61>> ELSE <<>>
Encode(c, d) == LET u == Bits(c)  g == Regroup(d, 8, u, Up(8 * Len(d), u))
                IN TLCEval([i \in 1..Len(g) |-> Alpha(c)[g[i] + 1]]) \o (IF c = "b64" THEN Pad(Len(d)) ELSE <<>>)
----
White == {32, 9, 10, 12, 13}
SpaceOk(c) == IF c = "b64" THEN White \ {12} ELSE {}
Sub(t, S) == SelectSeq(t, LAMBDA x : x \notin S)
Lower(x) == IF x \in 65..70 THEN x + 32 ELSE x
\* what decoding a text must give: <<"data", d>>, <<"no">> or <<"free">> (malformed but not foreign: either, but never an empty result)
Decode(c, t0) ==
    LET t == IF c = "hex" THEN TLCEval([i \in DOMAIN t0 |-> Lower(t0[i])]) ELSE t0
        b == IF c = "b64" THEN Sub(t, SpaceOk(c)) ELSE t
        body == IF c = "b64" THEN Sub(b, {61}) ELSE b
        o == TLCEval([i \in DOMAIN body |-> Ord(c, body[i])])
        foreign == \E i \in DOMAIN body : o[i] = 99
        n == (Len(body) * Bits(c)) \div 8
        d == Regroup(o, Bits(c), 8, n)
        e == Encode(c, d)
    IN IF 0 \in {t0[i] : i \in DOMAIN t0} THEN <<"free">>
       ELSE IF foreign THEN (IF c = "hex" \/ (c = "b64" /\ 12 \in {t[i] : i \in DOMAIN t}) THEN <<"free">> ELSE <<"no">>)
       ELSE IF n > 0 /\ b = e THEN <<"data", d>>
       ELSE <<"free">>
----
DoEnc(v) == LET x == it[v.i] IN v.i <= N /\ x.k = "data" /\ N < MaxI /\ LET y == Encode(v.c, x.b) IN
    Did(v, Append(it, [k |-> "text", b |-> y]), [r |-> TRUE, b |-> y, term |-> TRUE])
\* z: the terminating zero is counted in the length given (base32 takes no zero)
DoDec(v) == LET x == it[v.i] IN v.i <= N /\ x.k = "text" /\ x.b # <<>> /\ (v.z => v.c # "b32") /\ LET y == Decode(v.c, x.b) IN
    CASE y[1] = "no" -> Did(v, it, [r |-> FALSE])
      [] y[1] = "data" -> Did(v, it, [r |-> TRUE, b |-> y[2]])
      [] OTHER -> Did(v, it, [sane |-> TRUE])
Edit(v) == LET x == it[v.i]  n == Len(x.b)  p == v.p % (n + 1) IN
    /\ v.i <= N /\ x.k = "text" /\ N < MaxI
    /\ LET y == CASE v.w = "ins" -> SubSeq(x.b, 1, p) \o <<v.ch>> \o SubSeq(x.b, p + 1, n)
                  [] v.w = "set" -> [i \in 1..n |-> IF i = (v.p % n) + 1 THEN v.ch ELSE x.b[i]]
                  [] v.w = "cut" -> SubSeq(x.b, 1, p) [] OTHER -> SubSeq(x.b, 1, p)
       IN y # <<>> /\ n > 0 /\ Did(v, Append(it, [k |-> "text", b |-> y]), [r |-> TRUE])
\* a long text: fifteen bytes fill whole groups in every encoding, so n of them and a rest are encoded one after the other
Long(v) == LET u == it[v.i]  x == it[v.j] IN v.i <= N /\ v.j <= N /\ u.k = "data" /\ x.k = "data" /\ Len(u.b) = 15 /\
    Did(v, it, [r |-> TRUE, n |-> v.n, u |-> Encode(v.c, u.b), t |-> Encode(v.c, x.b), back |-> TRUE])
Base == Len(Datas)
Index == 1..MaxI
Sets == <<
    [op : {"Enc"}, c : Codecs, i : Index],
    [op : {"Dec"}, c : Codecs, i : Index, z : BOOLEAN],
    [op : {"Edit"}, i : Index, w : {"ins", "set"}, p : Poss, ch : Chars],
    [op : {"Edit"}, i : Index, w : {"cut"}, p : Poss, ch : {0}],
    [op : {"Long"}, c : Codecs, i : Index, j : Index, n : Poss] >>
Events == {v \in UNION {Sets[i] : i \in DOMAIN Sets} : v.op \in Kinds}
Pick(k, S) == IF Cardinality(S) <= k THEN S ELSE RandomSubset(k, S)
Of(k, n) == Pick(n + (N - N), {i \in 1..N : it[i].k = k})
SimEvents == [op : {"Enc"}, c : Codecs, i : Of("data", 2)] \cup [op : {"Dec"}, c : Codecs, i : Of("text", 3), z : BOOLEAN]
    \cup [op : {"Edit"}, i : Of("text", 2), w : {"ins", "set"}, p : Pick(2 + (N - N), Poss), ch : Pick(2 + (N - N), Chars)] \cup [op : {"Edit"}, i : Of("text", 1), w : {"cut"}, p : Pick(2 + (N - N), Poss), ch : {0}]
Step(v) == CASE v.op = "Enc" -> DoEnc(v) [] v.op = "Dec" -> DoDec(v) [] v.op = "Edit" -> Edit(v) [] v.op = "Long" -> Long(v)
Init == it = [i \in DOMAIN Datas |-> [k |-> "data", b |-> Datas[i]]] /\ act = [ev |-> [op |-> "Init"], obs |-> NoNm, nm |-> NoNm]
View == [i \in 1..(N - Base) |-> it[i + Base]]
Next == \E v \in Events : Step(v)
----
\* the definitions themselves: decoding an encoding gives the data back, only alphabet characters are used
RoundTrip == N = Base => \A i \in DOMAIN Datas : \A c \in Codecs : Decode(c, Encode(c, Datas[i])) = <<"data", Datas[i]>>
Lossless == N > Base => \A i \in DOMAIN it : it[i].k = "text" => \A c \in {"b64", "b32"} : LET y == Decode(c, it[i].b) IN y[1] = "data" => Encode(c, y[2]) = Sub(it[i].b, SpaceOk(c))
================================================================================
