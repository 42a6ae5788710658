--------------------------------- MODULE Print ---------------------------------
(* Fingerprints: a value named by identifier and key; two of them combine to  *)
(* a value named by the unordered pair.  Raw ones are made from given bytes.  *)
EXTENDS Naturals, Sequences, FiniteSets, TLC, Randomization
CONSTANTS Ks, Forms, Ids, Raws, Odd,   \* Odd: raw ones of another length
          MaxF, Kinds
VARIABLES fs, act
vars == <<fs, act>>
Nb(s, n) == [s |-> s, n |-> n, k |-> "b"]
NoNm == [x \in {} |-> 0]
No == [r |-> FALSE]
N == Len(fs)
Did(v, y, o, nm) == fs' = y /\ act' = [ev |-> v, obs |-> o, nm |-> nm]
Fail(v) == Did(v, fs, No, NoNm)
Put(v, f) == N < MaxF /\ Did(v, Append(fs, f), [r |-> TRUE, len |-> 64], [f |-> Nb("print", f)])
\* a term is a set: {<<"one", k, i>>}, {<<"raw", x>>} or the set of two terms; sets avoid a choice of order
One(k, i) == {<<"one", k, i>>}
Raw(x) == {<<"raw", x>>}
Is(i) == i <= N
OddF(f) == \E x \in Odd : f = Raw(x)
Gen(v) == IF v.ty # 0 THEN Fail(v) ELSE Put(v, One(v.k, v.id))
RawF(v) == N < MaxF /\ Did(v, Append(fs, Raw(v.x)), [r |-> TRUE], [f |-> Nb("print", Raw(v.x))])
Two(v) == LET f == IF v.i = 0 THEN {} ELSE fs[v.i]  g == IF v.j = 0 THEN {} ELSE fs[v.j] IN
    /\ (v.i = 0 \/ Is(v.i)) /\ (v.j = 0 \/ Is(v.j))
    /\ IF v.i = 0 \/ v.j = 0 \/ v.ty # 0 \/ f = g \/ OddF(f) # OddF(g) THEN Fail(v) ELSE Put(v, {<<"two", f, g>>, <<"two", g, f>>})
Copy(v) == Is(v.i) /\ Did(v, fs, [r |-> TRUE], [f |-> Nb("print", fs[v.i])])
Size(v) == IF v.how = "b32" THEN (IF v.len = "long" THEN 103 ELSE 51) ELSE (IF v.len = "long" THEN 128 ELSE 64)
Show(v) == IF v.i = 0 THEN Fail(v) ELSE Is(v.i) /\ ~OddF(fs[v.i]) /\ Did(v, fs, [r |-> TRUE, len |-> Size(v), term |-> TRUE, right |-> TRUE], NoNm)
I == 0..MaxF
Sets == <<
    [op : {"Gen"}, k : Ks, f : Forms, id : Ids, ty : {0, 7}],
    [op : {"Raw"}, x : Raws],
    [op : {"Two"}, i : I, j : I, ty : {0, 7}],
    [op : {"Copy"}, i : I \ {0}],
    [op : {"Show"}, i : I, how : {"b32", "hex"}, len : {"long", "short"}] >>
Events == {v \in UNION {Sets[i] : i \in DOMAIN Sets} : v.op \in Kinds}
Pick(k, S) == IF Cardinality(S) <= k THEN S ELSE RandomSubset(k, S)
SimEvents == UNION {Pick(5 + (N - N), {v \in Sets[i] : v.op \in {"Gen", "Raw"} \/ v.i <= N}) : i \in DOMAIN Sets}
Step(v) == CASE v.op = "Gen" -> Gen(v) [] v.op = "Raw" -> RawF(v) [] v.op = "Two" -> Two(v) [] v.op = "Copy" -> Copy(v) [] v.op = "Show" -> Show(v)
Init == fs = <<>> /\ act = [ev |-> [op |-> "Init"], obs |-> NoNm, nm |-> NoNm]
View == fs
Next == \E v \in Events : Step(v)
----
Symmetric == [][\A i, j \in DOMAIN fs' : (act'.ev.op = "Two" /\ act'.obs.r) => fs'[Len(fs')] # fs[act'.ev.i] /\ fs'[Len(fs')] # fs[act'.ev.j]]_vars
================================================================================
