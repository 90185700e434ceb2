------------------------------- MODULE ImageOps -------------------------------
(* The maps of the grid onto itself and onto larger grids: mirror in x, mirror in y, transpose, in this *)
(* order, then move.  A map m has the size w x h of the original, the flags mx, my, tr and the offset   *)
(* ox, oy (cells of the image).  Places are in 1/u of a cell.                                           *)
EXTENDS Integers
Place(m, x, y, u) ==
    LET a == IF m.mx THEN m.w * u - x ELSE x
        b == IF m.my THEN m.h * u - y ELSE y
    IN IF m.tr THEN <<b + m.ox * u, a + m.oy * u>> ELSE <<a + m.ox * u, b + m.oy * u>>
Direction(m, x, y) ==
    LET a == IF m.mx THEN -x ELSE x
        b == IF m.my THEN -y ELSE y
    IN IF m.tr THEN <<b, a>> ELSE <<a, b>>
===============================================================================
