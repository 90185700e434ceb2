-------------------------------- MODULE RngOps --------------------------------
(* A pseudo random generator as a deterministic machine.  The engine is a position in the stream of *)
(* its seed; the standard normal distribution produces values in pairs and keeps the second one.    *)
(* An output is symbolic: what it is made of.                                                       *)
EXTENDS Integers, Sequences
Kinds == {"u", "i", "n", "s"}      \* uniform, integer, standard normal, scaled normal
Fresh(s) == [seed |-> s, pos |-> 0, kept |-> 0]
\* One draw: <<state afterwards, output>>.
Draw(g, k) ==
    CASE k = "u" -> <<[g EXCEPT !.pos = @ + 2], <<"u", g.seed, g.pos>> >>
      [] k = "i" -> <<[g EXCEPT !.pos = @ + 1], <<"i", g.seed, g.pos>> >>
      [] k = "s" -> <<[g EXCEPT !.pos = @ + 4], <<"n", g.seed, g.pos>> >>           \* a distribution of its own
      [] OTHER -> IF g.kept > 0 THEN <<[g EXCEPT !.kept = 0], <<"m", g.seed, g.kept - 1>> >>
                  ELSE <<[g EXCEPT !.pos = @ + 4, !.kept = g.pos + 1], <<"n", g.seed, g.pos>> >>
\* State after a seed and a list of calls.
RECURSIVE After(_, _)
After(s, hist) == IF hist = <<>> THEN Fresh(s) ELSE Draw(After(s, SubSeq(hist, 1, Len(hist) - 1)), hist[Len(hist)])[1]
=============================================================================
