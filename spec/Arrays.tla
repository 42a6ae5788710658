--------------------------------- MODULE Arrays --------------------------------
(* Arrays of items with counted copies and releases.  An array owns its items *)
(* (stores copies, or takes over what is put into an empty place) or borrows  *)
(* them.  Every item is released exactly once.                                *)
EXTENDS Naturals, Sequences, FiniteSets, TLC, Randomization
CONSTANTS Bigs,            \* sizes of great arrays
          Sizes, Idx,      \* sizes; indices (1000 and above: far beyond)
          MaxA, MaxT, MaxV, Kinds
VARIABLES ar,      \* arrays: [own, dead, it] with it a sequence of item numbers, 0 for nothing
          st,      \* items: "mine" (the user's), "arr" (an array's), "gone"
          vl,      \* value of each item; a copy has the value of what it was copied from
          act
vars == <<ar, st, vl, act>>
NoNm == [x \in {} |-> 0]
N == Len(ar)  T == Len(st)
Live(s) == Cardinality({i \in DOMAIN s : s[i] # "gone"})
Obs(a, s, w, r) == r @@ [live |-> Live(s), twice |-> 0, lost |-> 0, vals |-> [x \in DOMAIN s |-> IF s[x] = "gone" THEN 0 ELSE w[x]], all |-> [i \in DOMAIN a |-> IF a[i].dead THEN <<0>> ELSE [k \in DOMAIN a[i].it |-> a[i].it[k]]]]
Did(v, a, s, w, r) == ar' = a /\ st' = s /\ vl' = w /\ act' = [ev |-> v, obs |-> Obs(a, s, w, r), nm |-> NoNm]
Did2(v, r) == UNCHANGED <<ar, st, vl>> /\ act' = [ev |-> v, obs |-> r, nm |-> NoNm]
No(v) == Did(v, ar, st, vl, [r |-> FALSE])
Is(i) == i <= N /\ ~ar[i].dead
Usable(x) == x > 0 /\ x <= T /\ st[x] # "gone"
Safe(i) == {k \in DOMAIN ar[i].it : IF ar[i].it[k] = 0 THEN FALSE ELSE st[ar[i].it[k]] = "gone"} = {}
Item(v) == T < MaxT /\ Did(v, ar, Append(st, "mine"), Append(vl, v.x), [r |-> TRUE])
NewA(v) == N < MaxA /\ IF v.n >= 1000 THEN No(v) ELSE Did(v, Append(ar, [own |-> v.own, dead |-> FALSE, it |-> [k \in 1..v.n |-> 0]]), st, vl, [r |-> TRUE, n |-> v.n])
\* item 0: nothing is stored; f: the copy fails
Set(v) == LET a == ar[v.i]  k == v.k + 1  old == a.it[k]  drop == IF old > 0 THEN [st EXCEPT ![old] = "gone"] ELSE st IN
    /\ Is(v.i) /\ (v.x = 0 \/ Usable(v.x)) /\ (v.f => a.own /\ v.x > 0)
    /\ IF v.k >= Len(a.it) THEN No(v)
       ELSE IF a.own /\ ~v.take THEN
            (IF v.f THEN No(v)
             ELSE IF v.x = 0 THEN Did(v, [ar EXCEPT ![v.i].it[k] = 0], drop, vl, [r |-> TRUE])
             ELSE T < MaxT /\ Did(v, [ar EXCEPT ![v.i].it[k] = T + 1], Append(drop, "arr"), Append(vl, vl[v.x]), [r |-> TRUE]))
       ELSE IF a.own THEN old = 0 /\ v.x > 0 /\ st[v.x] = "mine" /\ ~v.f /\ Did(v, [ar EXCEPT ![v.i].it[k] = v.x], [st EXCEPT ![v.x] = "arr"], vl, [r |-> TRUE])
       ELSE v.take /\ Did(v, [ar EXCEPT ![v.i].it[k] = v.x], st, vl, [r |-> TRUE])
Fetch(v) == LET a == ar[v.i]  x == IF v.k >= Len(a.it) THEN 0 ELSE a.it[v.k + 1] IN
    /\ Is(v.i) /\ (v.f => v.copy)
    /\ IF x = 0 THEN No(v) ELSE st[x] # "gone" /\
       IF ~v.copy THEN Did(v, ar, st, vl, [r |-> TRUE, x |-> x, v |-> vl[x]])
       ELSE IF v.f THEN No(v) ELSE T < MaxT /\ Did(v, ar, Append(st, "mine"), Append(vl, vl[x]), [r |-> TRUE, x |-> T + 1, v |-> vl[x]])
RECURSIVE Copies(_, _, _, _)
\* the k-th and further items of a deep copy: <<items, states, values>>
Copies(s, k, t, w) == IF k > Len(s) THEN <<<<>>, <<>>, <<>>>> ELSE
    LET z == Copies(s, k + 1, IF s[k] = 0 THEN t ELSE t + 1, w) IN
    IF s[k] = 0 THEN <<<<0>> \o z[1], z[2], z[3]>> ELSE <<<<t + 1>> \o z[1], <<"arr">> \o z[2], <<w[s[k]]>> \o z[3]>>
Count(s) == Cardinality({k \in DOMAIN s : s[k] # 0})
\* f > 0: the f-th copy of an item fails
CopyA(v) == LET a == ar[v.i]  z == Copies(a.it, 1, T, vl) IN
    /\ Is(v.i) /\ N < MaxA /\ (v.f > 0 => v.deep /\ v.f <= Count(a.it))
    /\ IF ~v.deep THEN Did(v, Append(ar, [own |-> FALSE, dead |-> FALSE, it |-> a.it]), st, vl, [r |-> TRUE, n |-> Len(a.it)])
       ELSE /\ Safe(v.i)
            /\ IF v.f > 0 THEN No(v)
               ELSE T + Count(a.it) <= MaxT /\ Did(v, Append(ar, [own |-> TRUE, dead |-> FALSE, it |-> z[1]]), st \o z[2], vl \o z[3], [r |-> TRUE, n |-> Len(a.it)])
Free(v) == Is(v.i) /\ Did(v, [ar EXCEPT ![v.i].dead = TRUE], IF ar[v.i].own THEN [x \in DOMAIN st |-> IF \E k \in DOMAIN ar[v.i].it : ar[v.i].it[k] = x THEN "gone" ELSE st[x]] ELSE st, vl, [r |-> TRUE])
Release(v) == v.x <= T /\ st[v.x] = "mine" /\ Did(v, ar, [st EXCEPT ![v.x] = "gone"], vl, [r |-> TRUE])
\* changing an item through one holder is seen by all who share it, and by nobody who has a copy
Change(v) == v.x <= T /\ st[v.x] # "gone" /\ v.y # vl[v.x] /\ Did(v, ar, st, [vl EXCEPT ![v.x] = v.y], [r |-> TRUE])
\* a great array with one filled place; what is beyond the end is never stored
Big(v) == LET in == v.k < v.n  f == IF in THEN 1 ELSE 0  y == IF in THEN 5 ELSE 0 IN
    Did2(v, [r |-> TRUE, set |-> in, past |-> FALSE, n |-> v.n, v |-> y, filled |-> f, beyond |-> 0, dn |-> v.n, dv |-> y, dfilled |-> f, own |-> TRUE, sn |-> v.n, shared |-> TRUE, sfilled |-> f, leftover |-> 0, again |-> 0])
A == 1..MaxA
X == 1..MaxT
Sets == <<
    [op : {"Item"}, x : 1..MaxV],
    [op : {"New"}, n : Sizes, own : BOOLEAN],
    [op : {"Set"}, i : A, k : Idx, x : 0..MaxT, take : BOOLEAN, f : BOOLEAN],
    [op : {"Fetch"}, i : A, k : Idx, copy : BOOLEAN, f : BOOLEAN],
    [op : {"Copy"}, i : A, deep : BOOLEAN, f : 0..2],
    [op : {"Free"}, i : A],
    [op : {"Release"}, x : X],
    [op : {"Change"}, x : X, y : 1..MaxV],
    [op : {"Big"}, n : Bigs, k : {0, 1, 255, 256, 65535, 65536} \cup {n - 1 : n \in Bigs} \cup Bigs] >>
Events == {v \in UNION {Sets[i] : i \in DOMAIN Sets} : v.op \in Kinds}
Pick(k, S) == IF Cardinality(S) <= k THEN S ELSE RandomSubset(k, S)
SimEvents == UNION {Pick(5 + (N - N), Sets[i]) : i \in {1, 2, 4, 5, 8}} \cup [op : {"Set"}, i : Pick(3 + (N - N), {i \in A : Is(i)}), k : Pick(3 + (N - N), Idx), x : Pick(4 + (N - N), {0} \cup {x \in X : Usable(x)}), take : BOOLEAN, f : BOOLEAN] \cup Pick(1 + (N - N), Sets[6]) \cup Pick(2 + (N - N), Sets[7])
Step(v) == CASE v.op = "Item" -> Item(v) [] v.op = "New" -> NewA(v) [] v.op = "Set" -> Set(v) [] v.op = "Fetch" -> Fetch(v) [] v.op = "Copy" -> CopyA(v) [] v.op = "Free" -> Free(v) [] v.op = "Release" -> Release(v) [] v.op = "Change" -> Change(v) [] v.op = "Big" -> Big(v)
Init == ar = <<>> /\ st = <<>> /\ vl = <<>> /\ act = [ev |-> [op |-> "Init"], obs |-> NoNm, nm |-> NoNm]
View == <<ar, st, vl>>
Next == \E v \in Events : Step(v)
----
Owners(x) == {<<i, k>> \in (DOMAIN ar) \X (0..20) : ~ar[i].dead /\ ar[i].own /\ k \in DOMAIN ar[i].it /\ ar[i].it[k] = x}
OneOwner == \A x \in DOMAIN st : Cardinality(Owners(x)) = (IF st[x] = "arr" THEN 1 ELSE 0)
Once == [][\A x \in DOMAIN st : st[x] = "gone" => st'[x] = "gone"]_vars
================================================================================
