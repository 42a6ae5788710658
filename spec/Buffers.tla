-------------------------------- MODULE Buffers --------------------------------
(* A pool of byte buffers.  Every operation answers exactly as sequences do;  *)
(* every range that does not lie inside refuses and changes nothing.          *)
EXTENDS Naturals, Sequences, FiniteSets, TLC, Randomization
CONSTANTS Bytes, Offs,     \* byte values; offsets and lengths (1000 and above: far beyond any buffer, see the adapter)
          Lens, MaxB, MaxLen, Cmps, Kinds
VARIABLES bs, act
vars == <<bs, act>>
NoNm == [x \in {} |-> 0]
N == Len(bs)
Obs(y, r) == [r |-> r, all |-> y]
Did(v, y, r) == bs' = y /\ act' = [ev |-> v, obs |-> Obs(y, r), nm |-> NoNm]
Put(v, x) == N < MaxB /\ Len(x) <= MaxLen /\ Did(v, Append(bs, x), TRUE)
No(v) == Did(v, bs, FALSE)
Inside(x, s, l) == l > 0 /\ s < 1000 /\ l < 1000 /\ s + l <= Len(x)
B(i) == IF i = 0 THEN <<>> ELSE bs[i]       \* 0: no buffer
Have(i) == i <= N
New(v) == IF v.b = <<>> THEN No(v) ELSE Put(v, v.b)
Zero(v) == IF v.n = 0 \/ v.n >= 1000 THEN No(v) ELSE Put(v, [i \in 1..v.n |-> 0])
Copy(v) == Have(v.i) /\ IF v.i = 0 THEN No(v) ELSE Put(v, bs[v.i])
Section(v) == Have(v.i) /\ IF v.i > 0 /\ Inside(bs[v.i], v.s, v.l) THEN Put(v, SubSeq(bs[v.i], v.s + 1, v.s + v.l)) ELSE No(v)
Concat(v) == Have(v.i) /\ Have(v.j) /\ IF v.i = 0 \/ v.j = 0 THEN No(v) ELSE Put(v, bs[v.i] \o bs[v.j])
Multi(v) == LET x == B(v.i) \o B(v.j) \o B(v.k) IN Have(v.i) /\ Have(v.j) /\ Have(v.k) /\ IF x = <<>> THEN No(v) ELSE Put(v, x)
\* overwrites part of a buffer with bytes of another
Modify(v) == Have(v.i) /\ Have(v.j) /\ v.i > 0 /\ v.j # v.i /\
    IF v.j = 0 \/ ~Inside(bs[v.i], v.s, v.l) THEN No(v)
    ELSE v.l <= Len(bs[v.j]) /\ Did(v, [bs EXCEPT ![v.i] = [k \in DOMAIN @ |-> IF k > v.s /\ k <= v.s + v.l THEN bs[v.j][k - v.s] ELSE @[k]]], TRUE)
Equal(v) == Have(v.i) /\ Have(v.j) /\ Did(v, bs, v.i > 0 /\ v.j > 0 /\ bs[v.i] = bs[v.j])
Drop(v) == Have(v.i) /\ v.i > 0 /\ Did(v, [k \in 1..(N - 1) |-> IF k < v.i THEN bs[k] ELSE bs[k + 1]], TRUE)
Seqs(n) == UNION {[1..k -> Bytes] : k \in 0..n}
I == 0..MaxB
Sets == <<
    [op : {"New"}, b : Seqs(2)],
    [op : {"Zero"}, n : Lens],
    [op : {"Copy"}, i : I],
    [op : {"Section"}, i : I, s : Offs, l : Lens],
    [op : {"Concat"}, i : I, j : I],
    [op : {"Multi"}, i : I, j : I, k : I],
    [op : {"Modify"}, i : I, j : I, s : Offs, l : Lens],
    [op : {"Equal"}, i : I, j : I, c : Cmps],
    [op : {"Drop"}, i : I, z : BOOLEAN] >>
Events == {v \in UNION {Sets[i] : i \in DOMAIN Sets} : v.op \in Kinds}
Pick(k, S) == IF Cardinality(S) <= k THEN S ELSE RandomSubset(k, S)
SimEvents == UNION {Pick(IF i < 7 THEN 6 ELSE 10 + (N - N), Sets[i]) : i \in 1..8} \cup Pick(1, Sets[9])
Step(v) == CASE v.op = "New" -> New(v) [] v.op = "Zero" -> Zero(v) [] v.op = "Copy" -> Copy(v) [] v.op = "Section" -> Section(v) [] v.op = "Concat" -> Concat(v)
    [] v.op = "Multi" -> Multi(v) [] v.op = "Modify" -> Modify(v) [] v.op = "Equal" -> Equal(v) [] v.op = "Drop" -> Drop(v)
Init == bs = <<>> /\ act = [ev |-> [op |-> "Init"], obs |-> NoNm, nm |-> NoNm]
View == bs
Next == \E v \in Events : Step(v)
----
Never0 == \A i \in DOMAIN bs : bs[i] # <<>>
\* whatever is refused leaves everything as it was, whatever succeeds changes at most the one buffer it names
Frame == [][(~act'.obs.r /\ act'.ev.op # "Equal" => bs' = bs) /\ (act'.ev.op = "Modify" => \A i \in DOMAIN bs : i # act'.ev.i => bs'[i] = bs[i])]_vars
================================================================================
