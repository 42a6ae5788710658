------------------------------ MODULE Identity ------------------------------
(* An identity chain inside a node: its parts are replaced, corrupted, copied *)
(* and serialised in any order, between questions about its validity.  The    *)
(* verdict is a function of the parts and of nothing else; `cm` and `nm`      *)
(* record what was answered last and what changed since, so that the state    *)
(* graph distinguishes the histories an implementation might remember.        *)
(* The published status `st` is the last verdict, and none after a change     *)
(* made through the library.                                                  *)
EXTENDS Naturals, Sequences, TLC
CONSTANTS Roots, NKeys,   \* keys; "junk" is not a key
          Sigs,           \* signatures over node keys: "<root>:<node key>", with suffix "!" corrupted, "?" another digest recorded; "none"
          EKeys, ESigs,   \* likewise for ephemeral keys, signed by node keys; "none" is no key pair
          Chains,         \* whole chains to put in: <<root, node key, signature>>
          Names,          \* lengths of the name given to a generated identity; 0: it gets one of its own
          Kinds
VARIABLES x, cm, nm, act
vars == <<x, cm, nm, act>>
NoNm == [z \in {} |-> 0]
ChainOk(y) == y.r # "junk" /\ y.s = y.r \o ":" \o y.k
NodeOk(y) == ChainOk(y) /\ y.e # "none" /\ y.es = y.k \o ":" \o y.e
NoC == [v |-> "-", r |-> FALSE, k |-> FALSE, s |-> FALSE]
NoN == [v |-> "-", c |-> FALSE, e |-> FALSE, s |-> FALSE]
V(b) == IF b THEN "yes" ELSE "no"
Did(v, y, c, n, o) == x' = y /\ cm' = c /\ nm' = n /\ act' = [ev |-> v, obs |-> o, nm |-> NoNm]
Mark(m, f) == IF m.v = "-" THEN m ELSE [m EXCEPT ![f] = TRUE]
Chg(v, y, f) == Did(v, y, Mark(cm, f), Mark(nm, "c"), [r |-> TRUE])
SetRoot(v) == Chg(v, [x EXCEPT !.r = v.r], "r")
SetKey(v) == Chg(v, [x EXCEPT !.k = v.k], "k")
SetSig(v) == Chg(v, [x EXCEPT !.s = v.s], "s")
SetNode(v) == Chg(v, [x EXCEPT !.k = v.k, !.s = v.s], "k")
\* another chain object, that has been asked about before or not
SetChain(v) == LET y == [x EXCEPT !.r = v.c[1], !.k = v.c[2], !.s = v.c[3]] IN
    Did(v, y, IF v.asked THEN [NoC EXCEPT !.v = V(ChainOk(y))] ELSE NoC, Mark(nm, "c"), [r |-> TRUE])
Rotate(v) == Did(v, [x EXCEPT !.e = v.e, !.es = v.es], cm, Mark(nm, "e"), [r |-> TRUE, st |-> "unknown"])
SetEKey(v) == x.e # "none" /\ Did(v, [x EXCEPT !.e = v.e], cm, Mark(nm, "e"), [r |-> TRUE])
SetESig(v) == x.e # "none" /\ Did(v, [x EXCEPT !.es = v.es], cm, Mark(nm, "s"), [r |-> TRUE])
DropPair(v) == Did(v, [x EXCEPT !.e = "none", !.es = "none"], cm, Mark(nm, "e"), [r |-> TRUE])
\* a fresh node key "g" certified by a root; only an identity of a root that can sign gives one
Grow(v) == IF v.how = "root" /\ v.named < 128 THEN Did(v, [x EXCEPT !.k = "g", !.s = v.r \o ":g"], Mark(cm, "k"), Mark(nm, "c"), [r |-> TRUE, id |-> TRUE, sig |-> TRUE, pri |-> TRUE])
           ELSE Did(v, x, cm, nm, [r |-> FALSE])
\* a fresh ephemeral pair "f" certified by a node identity that can sign
Fresh(v) == IF v.pri THEN Did(v, [x EXCEPT !.e = "f", !.es = v.k \o ":f"], cm, Mark(nm, "e"), [r |-> TRUE, id |-> TRUE, sig |-> TRUE, pri |-> TRUE])
            ELSE Did(v, x, cm, nm, [r |-> FALSE])
CheckChain(v) == Did(v, x, [NoC EXCEPT !.v = V(ChainOk(x))], nm, [r |-> ChainOk(x), st |-> V(ChainOk(x))])
CheckNode(v) == Did(v, x, [NoC EXCEPT !.v = V(ChainOk(x))], [NoN EXCEPT !.v = V(NodeOk(x))], [r |-> NodeOk(x), st |-> V(NodeOk(x))])
CheckOwner(v) == Did(v, x, cm, nm, [r |-> x.e # "none" /\ x.es = v.k \o ":" \o x.e])
\* writing the published status fields convinces nobody
Poke(v) == Did(v, x, Mark(cm, "s"), Mark(nm, "s"), [r |-> TRUE])
Copy(v) == Did(v, x, cm, nm, [r |-> TRUE, st |-> TRUE])
Round(v) == IF x.s = "none" \/ x.r = "junk" THEN Did(v, x, cm, nm, [r |-> FALSE])
            ELSE Did(v, x, NoC, NoN, [r |-> TRUE, pri |-> FALSE, st |-> TRUE])
Events == {v \in
    [op : {"SetRoot"}, r : Roots] \cup [op : {"SetKey"}, k : NKeys] \cup [op : {"SetSig"}, s : Sigs] \cup [op : {"SetNode"}, k : NKeys, s : Sigs]
    \cup [op : {"SetChain"}, c : Chains, asked : BOOLEAN]
    \cup [op : {"Rotate"}, e : EKeys, es : ESigs, copy : BOOLEAN] \cup [op : {"SetEKey"}, e : EKeys] \cup [op : {"SetESig"}, es : ESigs]
    \cup [op : {"DropPair", "CheckChain", "CheckNode", "Copy", "Round"}] \cup [op : {"CheckOwner"}, k : NKeys]
    \cup [op : {"Grow"}, r : Roots \ {"junk"}, how : {"root", "pubonly", "node"}, named : Names] \cup [op : {"Fresh"}, k : NKeys, pri : BOOLEAN]
    \cup [op : {"Poke"}, ok : BOOLEAN] : v.op \in Kinds}
SimEvents == Events
StatusIsVerdict == [][act'.ev.op \in {"CheckChain", "CheckNode"} => act'.obs.st = V(act'.obs.r)]_vars
Step(v) == CASE v.op = "SetRoot" -> SetRoot(v) [] v.op = "SetKey" -> SetKey(v) [] v.op = "SetSig" -> SetSig(v) [] v.op = "SetNode" -> SetNode(v)
    [] v.op = "SetChain" -> SetChain(v) [] v.op = "Rotate" -> Rotate(v) [] v.op = "SetEKey" -> SetEKey(v) [] v.op = "SetESig" -> SetESig(v)
    [] v.op = "DropPair" -> DropPair(v) [] v.op = "CheckChain" -> CheckChain(v) [] v.op = "CheckNode" -> CheckNode(v) [] v.op = "CheckOwner" -> CheckOwner(v)
    [] v.op = "Grow" -> Grow(v) [] v.op = "Fresh" -> Fresh(v) [] v.op = "Poke" -> Poke(v) [] v.op = "Copy" -> Copy(v) [] v.op = "Round" -> Round(v)
Init == /\ x = [r |-> "A", k |-> "n1", s |-> "A:n1", e |-> "e1", es |-> "n1:e1"] /\ cm = NoC /\ nm = NoN
        /\ act = [ev |-> [op |-> "Init"], obs |-> NoNm, nm |-> NoNm]
View == <<x, cm, nm>>
Next == \E v \in Events : Step(v)
--------------------------------------------------------------------------------
\* I01, I02: a verdict says who signed what, and asking changes nothing
Sound == [][(act'.ev.op = "CheckChain" /\ act'.obs.r) => x.s = x.r \o ":" \o x.k]_vars
Complete == [][(act'.ev.op = "CheckChain" /\ x.r # "junk" /\ x.s = x.r \o ":" \o x.k) => act'.obs.r]_vars
NodeSound == [][(act'.ev.op = "CheckNode" /\ act'.obs.r) => (ChainOk(x) /\ x.es = x.k \o ":" \o x.e)]_vars
AskingIsPure == [][act'.ev.op \in {"CheckChain", "CheckNode", "CheckOwner", "Copy", "Round", "Poke"} => x' = x]_vars
\* what has just been generated is what its maker certified
Grown == [][(act'.ev.op = "Grow" /\ act'.obs.r) => x'.s = act'.ev.r \o ":" \o x'.k]_vars
NodeImpliesChain == nm = [NoN EXCEPT !.v = "yes"] => ChainOk(x)
================================================================================
