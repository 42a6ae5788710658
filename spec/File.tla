---------------------------------- MODULE File ----------------------------------
(* File encryption and decryption in a directory.  Contents are terms: plain  *)
(* data, an encryption, a changed encryption, or what comes out of decrypting *)
(* something unauthenticated that is not what it claims to be ("junk").       *)
EXTENDS Naturals, Sequences, FiniteSets, TLC, Randomization
CONSTANTS Paths,       \* files in the directory
          Plains,      \* plain contents; 0 is the empty file
          Keys,        \* key identifiers; a key may be used with every cipher
          Ciphers,     \* "GCM", "CTR"
          Ways,        \* changes of an encrypted file
          Faults,      \* failures of the file system during an operation
          Points,      \* permilles of an operation at which the process dies
          Depth, MaxE, \* nesting; number of encryptions
          Kinds
VARIABLES fs, n, act
vars == <<fs, n, act>>
None == [k |-> "none"]  Dir == [k |-> "dir"]
Plain(p) == [k |-> "plain", p |-> p]
Enc(q, c, i, x) == [k |-> "enc", key |-> q, c |-> c, id |-> i, of |-> x]
Edit(w, x) == [k |-> "edit", w |-> w, of |-> x]
Junk(q, x) == [k |-> "junk", key |-> q, of |-> x]
IsFile(x) == x.k \notin {"none", "dir"}
RECURSIVE Deep(_)
Deep(x) == IF x.k \in {"none", "dir", "plain"} THEN 0 ELSE 1 + Deep(x.of)
Empty(x) == x = Plain(0)
NoNm == [x \in {} |-> 0]
\* what comes out of decrypting x with key q for cipher kc: None if it is refused
Apply(q, kc, x, only) ==
    LET e == IF x.k = "edit" THEN x.of ELSE x
        w == IF x.k = "edit" THEN x.w ELSE "-"
        c == IF w = "mode" THEN (IF e.c = "GCM" THEN "CTR" ELSE "GCM") ELSE e.c IN
    IF e.k # "enc" \/ w \in {"badmode", "cuthdr"} THEN None
    ELSE IF c # kc \/ (only /\ c = "CTR") THEN None
    ELSE IF c = "GCM" THEN IF w = "-" /\ e.key = q THEN e.of ELSE None
    \* unauthenticated: anything is accepted
    ELSE IF w = "cutall" THEN Plain(0)
    ELSE IF w = "-" /\ e.key = q THEN e.of
    ELSE IF Empty(e.of) /\ w \in {"-", "iv"} THEN Plain(0)
    ELSE Junk(q, x)
Obs(r, f) == [r |-> r, extra |-> 0, kept |-> TRUE, dirs |-> [p \in Paths |-> f[p].k = "dir"]]
Named(f) == {p \in Paths : f[p].k # "junk"}
Nm(f) == [p \in Named(f) |-> [s |-> "file", k |-> "b", n |-> f[p]]]
Did(v, f, m, r) == fs' = f /\ n' = m /\ act' = [ev |-> v, obs |-> Obs(r, f), nm |-> Nm(f)]
No(v) == Did(v, fs, n, FALSE)
\* whatever the environment does to a file
Write(v) == fs[v.p].k # "dir" /\ fs[v.p] # Plain(v.x) /\ Did(v, [fs EXCEPT ![v.p] = Plain(v.x)], n, TRUE)
MkDir(v) == fs[v.p].k = "none" /\ Did(v, [fs EXCEPT ![v.p] = Dir], n, TRUE)
Remove(v) == fs[v.p].k # "none" /\ Did(v, [fs EXCEPT ![v.p] = None], n, TRUE)
Change(v) == LET x == fs[v.p] IN
    /\ x.k = "enc" /\ Deep(x) < Depth + 1
    /\ (v.w \in {"ct", "cutall", "cutlast"} => ~Empty(x.of)) /\ (v.w \in {"tag", "zerotag"} => x.c = "GCM")
    /\ Did(v, [fs EXCEPT ![v.p] = IF v.w = "empty" THEN Plain(0) ELSE Edit(v.w, x)], n, TRUE)
\* what a key is: usable, absent, or of a wrong length
Usable(v) == v.q = "good"
EncFile(v) == LET x == fs[v.s] IN
    IF ~Usable(v) \/ ~IsFile(x) \/ fs[v.d].k = "dir" \/ v.f # "none" THEN No(v)
    ELSE n < MaxE /\ Deep(x) < Depth /\ Did(v, [fs EXCEPT ![v.d] = Enc(v.key, v.c, n + 1, x)], n + 1, TRUE)
DecFile(v) == LET x == fs[v.s]  y == IF IsFile(x) /\ x.k # "plain" /\ x.k # "junk" THEN Apply(v.key, v.c, x, v.only) ELSE None IN
    \* reading arbitrary data as an encryption is left open when nothing needs to be authentic
    /\ (x.k \in {"plain", "junk"} => v.only)
    /\ IF ~Usable(v) \/ y = None \/ fs[v.d].k = "dir" \/ v.f # "none" THEN No(v)
       ELSE Did(v, [fs EXCEPT ![v.d] = y], n, TRUE)
\* the same with the operations for buffers: both read what the other wrote
MemEnc(v) == IsFile(fs[v.s]) /\ ~Empty(fs[v.s]) /\ fs[v.d].k # "dir" /\ n < MaxE /\ Deep(fs[v.s]) < Depth
    /\ Did(v, [fs EXCEPT ![v.d] = Enc(v.key, v.c, n + 1, fs[v.s])], n + 1, TRUE)
MemDec(v) == LET x == fs[v.s]  y == IF x.k \in {"enc", "edit"} THEN Apply(v.key, v.c, x, v.only) ELSE None IN
    /\ x.k \in {"enc", "edit"} /\ y # Plain(0) /\ fs[v.d].k # "dir"
    /\ IF y = None THEN No(v) ELSE Did(v, [fs EXCEPT ![v.d] = y], n, TRUE)
\* no source or destination at all
NoPath(v) == No(v)
\* the process dies in the middle: afterwards the destination is as before or complete (then everything is put back)
Crash(v) == LET x == fs[v.s] IN
    /\ IsFile(x) /\ fs[v.d].k # "dir" /\ (v.op2 = "dec" => x.k = "enc" /\ x.key = v.key /\ x.c = v.c)
    /\ fs' = fs /\ n' = n /\ act' = [ev |-> v, obs |-> Obs(TRUE, fs) @@ [whole |-> TRUE, src |-> TRUE], nm |-> Nm(fs)]
\* the source has the name of the temporary file: nothing is lost
TempSource(v) == LET x == fs[v.s] IN
    /\ x.k = "plain"
    /\ fs' = fs /\ n' = n /\ act' = [ev |-> v, obs |-> Obs(TRUE, fs) @@ [whole |-> TRUE, src |-> TRUE], nm |-> Nm(fs)]
Sets == <<
    [op : {"Write"}, p : Paths, x : Plains],
    [op : {"MkDir"}, p : Paths],
    [op : {"Remove"}, p : Paths],
    [op : {"Change"}, p : Paths, w : Ways],
    [op : {"Enc"}, q : {"good", "none", "short"}, key : Keys, c : Ciphers, s : Paths, d : Paths, f : Faults],
    [op : {"Dec"}, q : {"good", "none", "short"}, key : Keys, c : Ciphers, s : Paths, d : Paths, only : BOOLEAN, f : Faults],
    [op : {"MemEnc"}, key : Keys, c : Ciphers, s : Paths, d : Paths],
    [op : {"MemDec"}, key : Keys, c : Ciphers, s : Paths, d : Paths, only : BOOLEAN],
    [op : {"NoPath"}, w : {"enc", "dec"}, key : Keys, s : {"-"} \cup Paths, d : {"-"}],
    [op : {"NoPath"}, w : {"enc", "dec"}, key : Keys, s : {"-"}, d : Paths],
    [op : {"Crash"}, op2 : {"enc", "dec"}, key : Keys, c : Ciphers, s : Paths, d : Paths, at : Points],
    [op : {"TempSource"}, key : Keys, c : Ciphers, s : Paths] >>
OneFault(v) == (v.op \in {"Enc", "Dec"}) => (v.q = "good" \/ v.f = "none")
Events == {v \in UNION {Sets[i] : i \in DOMAIN Sets} : v.op \in Kinds /\ OneFault(v)}
Pick(k, S) == IF Cardinality(S) <= k THEN S ELSE RandomSubset(k, S)
Have(K) == {p \in Paths : fs[p].k \in K}
One(S) == Pick(1 + (n - n), S)  Two(S) == Pick(2 + (n - n), S)
SimEvents ==
    [op : {"Write"}, p : One(Paths), x : Two(Plains)] \cup [op : {"MkDir"}, p : One({p \in Paths : n % 7 = 3 /\ p \in Paths})]
    \cup [op : {"Remove"}, p : One(Have({"dir"}))]
    \cup [op : {"Change"}, p : One(Have({"enc"})), w : Two(Ways)]
    \cup [op : {"Enc"}, q : {"good"}, key : Two(Keys), c : Ciphers, s : Two(Have({"plain", "enc", "edit", "junk"})), d : Two(Paths), f : {"none"}]
    \cup [op : {"Enc"}, q : {"good"}, key : One(Keys), c : One(Ciphers), s : One(Have({"plain", "enc"})), d : One(Paths), f : Two(Faults)]
    \cup [op : {"Dec"}, q : {"good"}, key : Keys, c : Ciphers, s : Two(Have({"enc", "edit"})), d : Two(Paths), only : BOOLEAN, f : {"none"}]
    \cup [op : {"Dec"}, q : {"good"}, key : One(Keys), c : Ciphers, s : One(Have({"enc"})), d : One(Paths), only : {FALSE}, f : Two(Faults)]
    \cup [op : {"MemEnc"}, key : One(Keys), c : One(Ciphers), s : One(Have({"plain", "enc"})), d : One(Paths)]
    \cup [op : {"MemDec"}, key : Keys, c : Ciphers, s : One(Have({"enc", "edit"})), d : One(Paths), only : {FALSE}]
    \cup [op : {"Crash"}, op2 : {"enc", "dec"}, key : Two(Keys), c : One(Ciphers), s : Two(Have({"plain", "enc"})), d : One(Paths), at : One(Points)]
Step(v) == CASE v.op = "Write" -> Write(v) [] v.op = "MkDir" -> MkDir(v) [] v.op = "Remove" -> Remove(v) [] v.op = "Change" -> Change(v)
    [] v.op = "Enc" -> EncFile(v) [] v.op = "Dec" -> DecFile(v) [] v.op = "MemEnc" -> MemEnc(v) [] v.op = "MemDec" -> MemDec(v) [] v.op = "NoPath" -> NoPath(v) [] v.op = "Crash" -> Crash(v) [] v.op = "TempSource" -> TempSource(v)
Init == fs = [p \in Paths |-> None] /\ n = 0 /\ act = [ev |-> [op |-> "Init"], obs |-> NoNm, nm |-> NoNm]
View == <<fs, n>>
Next == \E v \in Events : Step(v)
----
\* a reported failure leaves every file as it was; a success changes the destination only
Frame == [][(act'.ev.op \in {"Enc", "Dec", "NoPath", "Crash"}) => \A p \in Paths : (fs'[p] # fs[p] => act'.obs.r /\ act'.ev.op \in {"Enc", "Dec"} /\ p = act'.ev.d)]_vars
\* what comes out of an authenticated decryption went into an encryption with that key
Authentic == [][(act'.ev.op = "Dec" /\ act'.obs.r /\ act'.ev.only) => \E i \in 1..n : fs[act'.ev.s] = Enc(act'.ev.key, "GCM", i, fs'[act'.ev.d])]_vars
Failing == [][(act'.ev.op \in {"Enc", "Dec"} /\ act'.ev.f # "none") => ~act'.obs.r]_vars
================================================================================
