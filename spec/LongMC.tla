-------------------------------- MODULE LongMC --------------------------------
(* The observer moves round the star: for uniform radial, uniform vertical and dipole   *)
(* fields on a grid the longitudinal field is what it should be; it is linear in the    *)
(* field and no facet with a normal away from the observer contributes.                 *)
EXTENDS Longitudinal
CONSTANTS NT, NP, Moves
VARIABLES pol, azi
lvars == <<pol, azi>>
Init == pol = 0 /\ azi = 0
Next == \/ pol < Moves /\ pol' = pol + 1 /\ UNCHANGED azi
        \/ azi < 2 * Moves /\ azi' = azi + 1 /\ UNCHANGED pol
Spec == Init /\ [][Next]_lvars
V == UnitOf(Direction(FDivInt(FMulInt(FPi, pol), Moves), FDivInt(FMulInt(FPi, azi), Moves)))
Fs == Facets(ByNumber(NT, NP))
FieldOf(h(_)) == FoldLeft(LAMBDA r, f : Append(r, h(f.n)), <<>>, Fs)
Vertical(n) == <<FZero, FZero, FOne>>
Outwards(n) == n
Dipole(n) == [i \in 1..3 |-> FSub(FMulInt(FMul(n[3], n[i]), 3), IF i = 3 THEN FOne ELSE FZero)]
Tol == FTiny(1, 18)
Uniform == FNear(LongField(Fs, FieldOf(Vertical), V), V[3], Tol)
Linearity == LET a == FieldOf(Outwards) b == FieldOf(Dipole)
                 sum == FoldLeft(LAMBDA r, k : Append(r, [i \in 1..3 |-> FAdd(FMulInt(a[k][i], 3), b[k][i])]), <<>>, Seq0(Len(Fs)))
             IN FNear(LongField(Fs, sum, V), FAdd(FMulInt(LongField(Fs, a, V), 3), LongField(Fs, b, V)), Tol)
(* the outward field seen: 2/3 on a fine grid; here within its coarseness *)
Outward == FNear(LongField(Fs, FieldOf(Outwards), V), FRat(2, 3), FRat(1, 12))
HalfSeen == FNear(FAdd(SeenArea(Fs, V), FZero), FPi, FRat(1, 3))
=============================================================================
