------------------------------- MODULE HeapImpl -------------------------------
(* The binary heap with back pointers, structured like the code (sift loops as recursive          *)
(* operators, list that grows with every push), checked to refine PQueue: every history of up to  *)
(* MaxOps operations on capacities 1..MaxCap with values in Vals.                                  *)
EXTENDS Integers, Sequences, FiniteSets
CONSTANTS MaxCap, Vals, MaxPush
VARIABLES cap, heap,  \* positions 0..n-1 -> handle (a sequence, position p is heap[p+1])
          dist, back, \* handle -> value, handle -> position
          last        \* what the last operation returned
vars == <<cap, heap, dist, back, last>>

At(hp, p) == hp[p + 1]
PutAt(hp, p, x) == [hp EXCEPT ![p + 1] = x]
Parent(p) == (p - 1) \div 2

\* siftDown: move the entry at pos towards the root until its parent is not larger.
RECURSIVE Down(_, _, _, _, _)
Down(hp, bk, ds, start, pos) ==
    IF pos > start /\ ds[At(hp, pos)] < ds[At(hp, Parent(pos))]
    THEN LET x == At(hp, pos)  y == At(hp, Parent(pos)) IN
         Down(PutAt(PutAt(hp, pos, y), Parent(pos), x), [bk EXCEPT ![y] = pos, ![x] = Parent(pos)], ds, start, Parent(pos))
    ELSE [hp |-> hp, bk |-> [bk EXCEPT ![At(hp, pos)] = pos]]

\* siftUp: follow the smaller child to a leaf, put the entry there, then siftDown to start.
RECURSIVE Leaf(_, _, _, _, _)
Leaf(hp, bk, ds, pos, n) ==
    LET c == 2 * pos + 1 IN
    IF c < n
    THEN LET k == IF c + 1 < n /\ ds[At(hp, c + 1)] < ds[At(hp, c)] THEN c + 1 ELSE c
             x == At(hp, pos)  y == At(hp, k)
         IN Leaf(PutAt(PutAt(hp, pos, y), k, x), [bk EXCEPT ![y] = pos], ds, k, n)
    ELSE [hp |-> hp, bk |-> bk, pos |-> pos]
Up(hp, bk, ds, pos, n) == LET f == Leaf(hp, bk, ds, pos, n) IN Down(f.hp, f.bk, ds, pos, f.pos)

None == [op |-> "none", h |-> -1, v |-> 0]
Init == cap \in 1..MaxCap /\ heap = <<>> /\ dist = [h \in {} |-> 0] /\ back = [h \in {} |-> 0] /\ last = None

NPush == Cardinality(DOMAIN dist)
DoPush(v) ==
    /\ Len(heap) < cap /\ NPush < MaxPush
    /\ LET h == NPush
           ds == [g \in DOMAIN dist \cup {h} |-> IF g = h THEN v ELSE dist[g]]
           bk == [g \in DOMAIN back \cup {h} |-> IF g = h THEN Len(heap) ELSE back[g]]
           d == Down(Append(heap, h), bk, ds, 0, Len(heap))
       IN heap' = d.hp /\ back' = d.bk /\ dist' = ds /\ last' = [op |-> "push", h |-> h, v |-> v]
    /\ UNCHANGED cap
DoPop ==
    /\ heap # <<>>
    /\ LET top == heap[1]  n == Len(heap) - 1
           moved == PutAt(heap, 0, At(heap, n))
           short == SubSeq(moved, 1, n)
           bk == [back EXCEPT ![At(heap, n)] = 0]
           d == IF n = 0 THEN [hp |-> <<>>, bk |-> bk] ELSE Up(short, bk, dist, 0, n)
       IN heap' = d.hp /\ back' = d.bk /\ last' = [op |-> "pop", h |-> top, v |-> dist[top]]
    /\ UNCHANGED <<cap, dist>>
Live == {heap[p] : p \in DOMAIN heap}
DoSet(h, v) ==
    /\ h \in Live
    /\ LET ds == [dist EXCEPT ![h] = v]
           u == IF v > dist[h] THEN Up(heap, back, ds, back[h], Len(heap)) ELSE [hp |-> heap, bk |-> back]
           pos == back[h]
           d == IF ds[At(u.hp, pos)] # v THEN u ELSE Down(u.hp, u.bk, ds, 0, pos)
       IN heap' = d.hp /\ back' = d.bk /\ dist' = ds /\ last' = [op |-> "set", h |-> h, v |-> v]
    /\ UNCHANGED cap

Next == DoPop \/ \E v \in Vals : DoPush(v) \/ \E h \in DOMAIN dist : DoSet(h, v)
Spec == Init /\ [][Next]_vars
View == <<cap, heap, [h \in Live |-> dist[h]], [h \in Live |-> back[h]], NPush>>

\* Refinement: the live entries with their values are the abstract queue.
absq == [h \in Live |-> [a |-> h, v |-> dist[h]]]
PQ == INSTANCE PQueue WITH q <- absq, pushes <- NPush
RefinesPQ == [][ \/ \E v \in Vals : PQ!Push(cap, NPush, v)
                 \/ \E h \in Live : PQ!Pop(h) /\ last'.h = h
                 \/ \E h \in Live, v \in Vals : PQ!Set(h, v) ]_<<absq, NPush>>
HeapOrdered == \A p \in 1..Len(heap) - 1 : dist[At(heap, Parent(p))] <= dist[At(heap, p)]
BackRight == \A p \in 0..Len(heap) - 1 : back[At(heap, p)] = p
NoDuplicates == Cardinality(Live) = Len(heap)
=============================================================================
