---------------------------------- MODULE Draw ----------------------------------
(***************************************************************************)
(* What a plot command has to draw.  A request names the kind of file and  *)
(* the plot; it is refused, or it leads to panels.                         *)
(***************************************************************************)
EXTENDS Sequences
Kinds == {"zdi", "pfss"}
FieldPlots == {"map", "radial", "polar", "azimuthal", "azimuth", "strength"}
EnergyPlots == {"energy-by-degree", "energy-matrix", "energy-summary"}
Refused(kind, plot) == kind \notin Kinds \/ plot \notin FieldPlots \cup EnergyPlots
(* quantities of the panels, in order *)
Panels(plot) == CASE plot = "map" -> <<"r", "p", "a">>
                  [] plot = "radial" -> <<"r">> [] plot = "polar" -> <<"p">>
                  [] plot \in {"azimuthal", "azimuth"} -> <<"a">>
                  [] plot = "strength" -> <<"strength">>
NameOf(q) == CASE q = "r" -> <<"B", "_", "r">>
               [] q = "p" -> <<"B", "_", "\\", "t", "h", "e", "t", "a">>
               [] q = "a" -> <<"B", "_", "\\", "p", "h", "i">>
               [] q = "strength" -> <<"|", "B", "|">>
WordOf(q) == CASE q = "r" -> <<"a", "d", "i", "a", "l">>
               [] q = "p" -> <<"o", "l", "a", "r">>
               [] q = "a" -> <<"z", "i", "m", "u", "t", "h", "a", "l">>
               [] q = "strength" -> <<"t", "r", "e", "n", "g", "t", "h">>
=============================================================================
