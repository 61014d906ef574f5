--------------------------------- MODULE DrawMC ---------------------------------
(* Sessions of plot commands over a directory of images: a refused command leaves it as *)
(* it was, any other replaces exactly the image it names.                                 *)
EXTENDS Draw, Integers, FiniteSets, TLC, Json
CONSTANTS Len0, Emit
VARIABLES images, hist
dvars == <<images, hist>>
Plots == FieldPlots \cup EnergyPlots \cup {"", "Map", "energy", "meridional"}
AllKinds == Kinds \cup {"PFSS", "wso"}
Targets == {"a.png", "b.png", "shown"}
Init == images = [n \in {} |-> ""] /\ hist = <<>>
Emitted(h) == IF Emit THEN PrintT("BEH " \o ToJson([h |-> h])) ELSE TRUE
Do(k, p, t) ==
  /\ Len(hist) < Len0
  /\ hist' = Append(hist, [kind |-> k, plot |-> p, to |-> t, ok |-> ~Refused(k, p)])
  /\ images' = IF Refused(k, p) \/ t = "shown" THEN images
               ELSE [n \in DOMAIN images \cup {t} |-> IF n = t THEN <<k, p>> ELSE images[n]]
  /\ Emitted(hist')
Next == \E k \in AllKinds, p \in Plots, t \in Targets : Do(k, p, t)
Spec == Init /\ [][Next]_dvars
NoImageOfRefused == \A n \in DOMAIN images : ~Refused(images[n][1], images[n][2])
OnlyNamed == DOMAIN images \subseteq {hist[k].to : k \in 1..Len(hist)}
Frame == [][\A n \in DOMAIN images : n \in DOMAIN images' /\ (images'[n] = images[n] \/ hist'[Len(hist')].to = n)]_dvars
=============================================================================
