------------------------------- MODULE History -------------------------------
(* Objects whose operations are functions of the parts they read, performed in any order on several     *)
(* objects.  A value is a number below K; an operation writes the same function of what it reads into    *)
(* each part it determines.  With Stale = TRUE discretisation forgets to clear what the boundary held,   *)
(* with Shared = TRUE reinitialisation hands out what it built for the object before: TLC shows both   *)
(* break Functional (negative controls).                                                               *)
EXTENDS HistOps, TLC
CONSTANTS K, MaxSteps, Ops, Stale, Shared
VARIABLES ls, bd, memo, n, kept, last
vars == <<ls, bd, memo, n, kept, last>>
Objs == 1..2
RECURSIVE Sum(_, _)
Sum(f, S) == IF S = {} THEN 0 ELSE LET x == CHOOSE y \in S : TRUE IN f[x] + Sum(f, S \ {x})
Parts(op, f, g) == Sum(f, Reads(op).l) + Sum(g, Reads(op).b)
True(op, i, j) == (1 + Parts(op, ls[i], bd[j])) % K
Value(op, i, j) == LET v == True(op, i, j) IN
    IF Stale /\ op = "discretise" THEN (v + bd[j]["P"]) % K
    ELSE IF Shared /\ op = "reinit" /\ kept >= 0 THEN kept ELSE v
Key(op, i, j) == <<op, [p \in Reads(op).l |-> ls[i][p]], [p \in Reads(op).b |-> bd[j][p]]>>
Init == /\ ls = [i \in Objs |-> [p \in LsParts |-> 0]] /\ bd = [i \in Objs |-> [p \in BdParts |-> 0]]
        /\ memo = [x \in {} |-> 0] /\ n = 0 /\ kept = -1 /\ last = <<>>
Do == \E op \in Ops, i \in Objs, j \in Objs :
    LET v == Value(op, i, j) k == Key(op, i, j) IN
    /\ n < MaxSteps /\ n' = n + 1
    /\ ls' = [ls EXCEPT ![i] = [p \in LsParts |-> IF p \in Writes(op).l THEN v ELSE @[p]]]
    /\ bd' = [bd EXCEPT ![j] = [p \in BdParts |-> IF p \in Writes(op).b THEN v ELSE @[p]]]
    /\ memo' = IF k \in DOMAIN memo THEN memo ELSE (k :> v) @@ memo
    /\ kept' = IF op = "reinit" THEN True(op, i, j) ELSE kept
    /\ last' = <<k, v>>
Change == \E i \in Objs : n < MaxSteps /\ n' = n + 1 /\ ls' = [ls EXCEPT ![i]["F"] = (@ + 1) % K] /\ last' = <<>> /\ UNCHANGED <<bd, memo, kept>>
Stop == n = MaxSteps /\ UNCHANGED vars
Spec == Init /\ [][Do \/ Change \/ Stop]_vars
\* Equal inputs, equal results, whatever happened before and on whichever object.
Functional == last # <<>> => memo[last[1]] = last[2]
\* An operation reaches one level set and one boundary.
OneObject == [][Cardinality({i \in Objs : ls'[i] # ls[i]}) <= 1 /\ Cardinality({i \in Objs : bd'[i] # bd[i]}) <= 1]_vars
\* The tables: nothing is read-only and written, parts written belong to what they should.
ASSUME Tables == /\ \A op \in ReadOnly : Writes(op) = R({}, {})
                 /\ \A op \in Operations : Writes(op).l \cup Reads(op).l \subseteq LsParts /\ Writes(op).b \cup Reads(op).b \subseteq BdParts
                 /\ \A op \in Operations : "X" \notin Writes(op).l /\ "T" \notin Writes(op).l
                 /\ \A op \in Operations \ {"reinit", "update", "mask"} : "F" \notin Writes(op).l \cup Disturbs(op).l
                 /\ \A op \in Operations \ {"mask"} : "M" \notin Writes(op).l \cup Disturbs(op).l
=============================================================================
