------------------------------ MODULE RefuseOps ------------------------------
(* Requests to the library and when each is valid.  The state that matters: how many entries the heap  *)
(* holds and may hold, which signs the level set has, and how many whole records each file holds.       *)
EXTENDS Integers, Sequences, FiniteSets
\* round(n / 30) as the Swiss cheese counts holes along a side.
HolesAlong(n) == (2 * n + 30) \div 60
\* Constructor forms 1 (Swiss cheese), 2 holes, 3 points, 4..6 with a target.  Move limits in 10^-3; nan: not a number.
ValidLevelSet(q) == /\ q.band > 2
                    /\ ~q.nan /\ q.move > 0 /\ q.move < 1000
                    /\ (q.form = 1 => HolesAlong(q.w) > 2 /\ HolesAlong(q.h) > 2)
\* constraints: number of multipliers less one; distances: how many are given.
ValidOptimiser(q) == ~q.nan /\ q.move > 0 /\ q.move < 1000 /\ q.points > 0 /\ q.distances = q.constraints
\* A contour: a zero, or both signs.
HasContour(st) == st.zero \/ (st.neg /\ st.pos)
\* A load wants exactly one record per node in the same form.
ValidLoad(q) == q.place = "file" /\ q.form = q.want /\ q.records = q.nodes /\ q.ragged = 0
Valid(st, q) ==
    CASE q.k = "levelset"   -> ValidLevelSet(q)
      [] q.k = "optimiser"  -> ValidOptimiser(q)
      [] q.k = "field"      -> TRUE
      [] q.k = "reinit"     -> HasContour(st)
      [] q.k = "heap"       -> TRUE
      [] q.k = "push"       -> st.len < st.cap
      [] q.k \in {"pop", "peek"} -> st.len > 0
      [] q.k = "save"       -> q.place = "file"
      [] q.k = "load"       -> ValidLoad(q)
      [] OTHER -> FALSE
After(st, q) ==
    CASE q.k = "field"  -> [st EXCEPT !.pos = q.pos, !.neg = q.neg, !.zero = q.zero]
      [] q.k = "load"   -> [st EXCEPT !.pos = q.pos, !.neg = q.neg, !.zero = q.zero]
      [] q.k = "heap"   -> [st EXCEPT !.cap = q.cap, !.len = 0]
      [] q.k = "push"   -> [st EXCEPT !.len = @ + 1]
      [] q.k = "pop"    -> [st EXCEPT !.len = @ - 1]
      [] OTHER -> st
Fresh == [cap |-> 0, len |-> 0, pos |-> TRUE, neg |-> TRUE, zero |-> FALSE]
\* How many of a list of requests are served before the program ends.
RECURSIVE Served(_, _, _)
Served(st, q, n) == IF n > Len(q) THEN Len(q) ELSE IF Valid(st, q[n]) THEN Served(After(st, q[n]), q, n + 1) ELSE n - 1
=============================================================================
