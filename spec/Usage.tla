-------------------------------- MODULE Usage --------------------------------
(* Which calls make sense after which, on two level sets and two boundaries, and every such history of a  *)
(* given length (a plan; the driver of C22 performs them on real objects).                               *)
(* from[j]: the level set boundary j was made from (0: none, or it changed since).  owner[i]: the boundary   *)
(* that the statuses and look-up tables in the mesh of i belong to.  tgt[j]: made from the target.           *)
(* Ghosts: ver[i] counts the changes of the field of i, made[j] and mark[i] tell what the points of j and  *)
(* the statuses of i were computed from.                                                                  *)
EXTENDS Integers, Sequences, TLC
CONSTANTS N, Ops, Emits
VARIABLES from, owner, tgt, ver, made, mark, plan
vars == <<from, owner, tgt, ver, made, mark, plan>>
Objs == 1..2
Changing == {"reinit", "update", "mask", "replace"}
OnBoth == {"discretise", "target", "normals", "areas", "velocities", "noisy", "itols"}
OnBd == {"sensitivity", "ito", "perimeter", "savebd"}
Init == /\ from = <<0, 0>> /\ owner = <<0, 0>> /\ tgt = <<FALSE, FALSE>> /\ ver = <<0, 0>> /\ plan = <<>>
        /\ made = <<<<>>, <<>>>> /\ mark = <<<<>>, <<>>>>
May(op, i, j) ==
    CASE op \in {"normals", "itols"} -> from[j] = i /\ owner[i] = j /\ ~tgt[j]
      [] op = "areas" -> from[j] = i /\ owner[i] = j
      [] op \in {"velocities", "noisy"} -> from[j] = i /\ ~tgt[j]
      [] op \in OnBd -> from[j] # 0 /\ i = from[j]
      [] op \in Changing \cup {"gradients", "transfer", "savels"} -> j = 1
      [] OTHER -> TRUE
Fresh(f, i) == [j \in Objs |-> IF f[j] = i THEN 0 ELSE f[j]]
Do(op, i, j) ==
    /\ Len(plan) < N /\ May(op, i, j)
    /\ plan = <<>> => i = 1 /\ j = 1
    /\ plan' = Append(plan, <<op, i, j>>)
    /\ IF op \in {"discretise", "target"}
       THEN /\ from' = [from EXCEPT ![j] = i] /\ owner' = [owner EXCEPT ![i] = j] /\ tgt' = [tgt EXCEPT ![j] = (op = "target")]
            /\ made' = [made EXCEPT ![j] = <<i, ver[i], op>>] /\ mark' = [mark EXCEPT ![i] = <<j, ver[i], op>>] /\ UNCHANGED ver
       ELSE IF op \in Changing \cup {"transfer"}
       THEN /\ from' = Fresh(from, i) /\ owner' = [owner EXCEPT ![i] = 0] /\ ver' = [ver EXCEPT ![i] = @ + 1]
            /\ UNCHANGED <<tgt, made>> /\ mark' = [mark EXCEPT ![i] = <<>>]
       ELSE UNCHANGED <<from, owner, tgt, ver, made, mark>>
Next == \E op \in Ops, i \in Objs, j \in Objs : Do(op, i, j)
Done == Len(plan) = N /\ UNCHANGED vars
Spec == Init /\ [][Next \/ Done]_vars
\* What may be called only reads what belongs together and is up to date.
Current(op, i, j) ==
    CASE op \in {"normals", "itols", "areas"} -> /\ made[j] # <<>> /\ made[j][1] = i /\ made[j][2] = ver[i]
                                                /\ mark[i] # <<>> /\ mark[i][1] = j /\ mark[i][2] = ver[i] /\ mark[i][3] = made[j][3]
                                                /\ (op # "areas" => made[j][3] = "discretise")
      [] op \in {"velocities", "noisy"} -> made[j] = <<i, ver[i], "discretise">>
      [] op \in OnBd -> made[j] # <<>> /\ made[j][2] = ver[made[j][1]]
      [] OTHER -> TRUE
ReadsCurrent == \A op \in Ops, i \in Objs, j \in Objs : May(op, i, j) => Current(op, i, j)
Emit == Emits /\ Len(plan) = N => PrintT("PLAN " \o ToString(plan))
=============================================================================
