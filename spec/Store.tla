---------------------------------- MODULE Store ----------------------------------
(* Design of saving and loading (C16): objects hold values; a save writes the current value under one *)
(* name, a load restores what that name holds, rounded for the text form.  Distinct (form, number,     *)
(* directory) never share a file.                                                                      *)
EXTENDS StoreOps, FiniteSets
CONSTANTS Objs, Vals, Names
VARIABLES obj, file, saved
vars == <<obj, file, saved>>
None == -1
Round(v) == v - (v % 2)
Init == obj = [o \in Objs |-> 0] /\ file = [n \in Names |-> None] /\ saved = [n \in Names |-> None]
Change == \E o \in Objs, v \in Vals : obj' = [obj EXCEPT ![o] = v] /\ UNCHANGED <<file, saved>>
Save == \E o \in Objs, n \in Names, txt \in BOOLEAN :
            /\ file' = [file EXCEPT ![n] = IF txt THEN Round(obj[o]) ELSE obj[o]]
            /\ saved' = [saved EXCEPT ![n] = obj[o]] /\ UNCHANGED obj
Load == \E o \in Objs, n \in Names : file[n] # None /\ obj' = [obj EXCEPT ![o] = file[n]] /\ UNCHANGED <<file, saved>>
Next == Change \/ Save \/ Load
Spec == Init /\ [][Next]_vars
LoadsWhatWasSaved == \A n \in Names : file[n] = saved[n] \/ file[n] = Round(saved[n])
SaveTouchesOneFile == [][Cardinality({n \in Names : file'[n] # file[n]}) <= 1 /\ Cardinality({o \in Objs : obj'[o] # obj[o]}) <= 1]_vars
NamesDistinct == \A n1, n2 \in {0, 7, 10, 99, 100, 1000, 12345}, f1, f2 \in {"lsvtk", "lstxt", "lsbin", "points", "segments", "areavtk", "areatxt"}, d1, d2 \in {"", "a", "a/b"} :
                    Numbered(f1, d1, n1) = Numbered(f2, d2, n2) => <<f1, d1, n1>> = <<f2, d2, n2>>
ASSUME NamesDistinct
=============================================================================
