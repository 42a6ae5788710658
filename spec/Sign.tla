-------------------------------- MODULE Sign --------------------------------
(* Signatures and keyed digests: what was made by whom over what, the         *)
(* encodings they travel in, and which questions about them get a yes.        *)
EXTENDS Naturals, Sequences, TLC
CONSTANTS Keys,       \* signing keys; the adapter gives every one in several forms
          MacKeys, Data, Digests,
          Forms,      \* how the key is presented to verification
          Muts, Kinds,
          Shapes      \* how the two numbers of a signature fall out: "any", or one of them with leading zero bytes ("r", "s")
VARIABLES s, act
vars == <<s, act>>
NoNm == [z \in {} |-> 0]
None == [t |-> "none", k |-> "", d |-> "", g |-> "", mut |-> "none", enc |-> "obj", z |-> "any"]
Did(v, y, o) == s' = y /\ act' = [ev |-> v, obs |-> o, nm |-> NoNm]
Sign(v) == Did(v, [None EXCEPT !.t = "sig", !.k = v.k, !.d = v.d, !.g = v.g, !.z = v.z], [r |-> TRUE, dig |-> v.g])
SignPub(v) == Did(v, s, [r |-> FALSE])                    \* without a private key there is no signature
Mac(v) == Did(v, [None EXCEPT !.t = "mac", !.k = v.k, !.d = v.d, !.g = v.g, !.enc = "raw"], [r |-> TRUE, len |-> v.g])
\* the raw form does not say which digest was used; whoever reads it does
ToSer(v) == s.t = "sig" /\ s.enc = "obj" /\ s.mut \notin {"ext"} /\ Did(v, [s EXCEPT !.enc = "ser"], [r |-> TRUE, len |-> "fixed"])
ToRaw(v) == s.t = "sig" /\ s.enc = "obj" /\ s.mut = "none" /\ Did(v, [s EXCEPT !.enc = "raw"], [r |-> TRUE, len |-> "raw"])
FromSer(v) == /\ s.t = "sig" /\ s.enc = "ser"
              /\ IF s.mut \in {"curve", "unknown", "empty", "pad+"} THEN Did(v, None, [r |-> FALSE]) ELSE Did(v, [s EXCEPT !.enc = "obj"], [r |-> TRUE, dig |-> s.g])
FromRaw(v) == /\ s.t = "sig" /\ s.enc = "raw"
              /\ IF s.mut \in {"short", "long"} THEN Did(v, None, [r |-> FALSE]) ELSE Did(v, [s EXCEPT !.enc = "obj", !.g = v.g, !.mut = IF s.g # v.g /\ @ = "none" THEN "dig" ELSE @], [r |-> TRUE, dig |-> v.g])
CopySig(v) == s.t = "sig" /\ s.enc = "obj" /\ Did(v, s, [r |-> TRUE, dig |-> s.g])
\* what can be done to each form
Ways == IF s.t = "mac" THEN {"flip", "short", "long"}
        ELSE CASE s.enc = "obj" -> {"flip", "short", "ext"} [] s.enc = "ser" -> {"flip", "curve", "unknown", "empty", "pad+", "dig"}
               [] s.enc = "raw" -> {"flip", "short", "long", "zero"} [] OTHER -> {}
Mut(v) == /\ s.t # "none" /\ s.mut = "none" /\ v.m \in Ways
          /\ Did(v, [s EXCEPT !.mut = v.m, !.g = IF v.m = "dig" THEN v.g ELSE @], [r |-> TRUE])
          /\ (v.m = "dig" <=> v.g # s.g)
Verify(v) == /\ s.t = "sig" /\ s.enc = "obj"
             /\ Did(v, s, [r |-> s.mut = "none" /\ s.k = v.k /\ s.d = v.d /\ v.f # "junk"])
VerifyMac(v) == /\ s.t = "mac"
                /\ Did(v, s, [r |-> s.mut = "none" /\ s.k = v.k /\ s.d = v.d /\ s.g = v.g])
Events == {v \in
    [op : {"Sign"}, k : Keys, d : Data, g : Digests, z : Shapes] \cup [op : {"SignPub"}, k : Keys, d : Data, g : Digests] \cup [op : {"Mac"}, k : MacKeys, d : Data, g : Digests]
    \cup [op : {"ToSer", "ToRaw", "FromSer", "CopySig"}] \cup [op : {"FromRaw"}, g : Digests] \cup [op : {"Mut"}, m : Muts, g : Digests]
    \cup [op : {"Verify"}, k : Keys, d : Data, f : Forms] \cup [op : {"VerifyMac"}, k : MacKeys, d : Data, g : Digests] : v.op \in Kinds}
SimEvents == Events
Step(v) == CASE v.op = "Sign" -> Sign(v) [] v.op = "SignPub" -> SignPub(v) [] v.op = "Mac" -> Mac(v) [] v.op = "ToSer" -> ToSer(v) [] v.op = "ToRaw" -> ToRaw(v)
    [] v.op = "FromSer" -> FromSer(v) [] v.op = "FromRaw" -> FromRaw(v) [] v.op = "CopySig" -> CopySig(v) [] v.op = "Mut" -> Mut(v)
    [] v.op = "Verify" -> Verify(v) [] v.op = "VerifyMac" -> VerifyMac(v)
Init == s = None /\ act = [ev |-> [op |-> "Init"], obs |-> NoNm, nm |-> NoNm]
View == s
Next == \E v \in Events : Step(v)
--------------------------------------------------------------------------------
\* I04
OnlyGenuine == [][(act'.ev.op \in {"Verify", "VerifyMac"} /\ act'.obs.r) => (s.k = act'.ev.k /\ s.d = act'.ev.d /\ s.mut = "none")]_vars
Survives == [][act'.ev.op \in {"ToSer", "ToRaw", "FromSer", "CopySig"} /\ s.mut = "none" => (s'.k = s.k /\ s'.d = s.d /\ s'.g = s.g /\ s'.mut = "none")]_vars
================================================================================
