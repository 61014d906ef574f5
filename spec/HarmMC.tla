-------------------------------- MODULE HarmMC --------------------------------
(***************************************************************************)
(* Identities of the harmonics of Harm.tla, explored over a grid of        *)
(* directions: normalisation and derivative through the addition theorem,  *)
(* closed forms of low degree, Legendre's equation by way of the           *)
(* second derivative, and parity.                                          *)
(***************************************************************************)
EXTENDS Harm
CONSTANTS L, Steps
VARIABLES step, deg
Theta == FDivInt(FMulInt(FPi, step), Steps)
VARIABLE cs, tab          \* functions of i, kept in the state
hvars == <<step, deg, cs, tab>>
Init == step \in 1..(Steps - 1) /\ deg = 0 /\ cs = FCosSin(Theta) /\ tab = NTable(L, L, cs[1], cs[2])
Next == deg < L /\ deg' = deg + 1 /\ UNCHANGED <<step, cs, tab>>
Spec == Init /\ [][Next]_hvars
Tol == FTiny(1, 18)
SumM(f(_)) == FoldLeft(LAMBDA a, m : FAdd(a, FMulInt(f(m), 2)), f(0), Seq0(deg))
Cot == FDiv(cs[1], cs[2])
Addition == FNear(SumM(LAMBDA m : FSq(N(tab, deg, m))), FDiv(FInt(2 * deg + 1), FMulInt(FPi, 4)), Tol)
Gradient == FNear(SumM(LAMBDA m : FAdd(FSq(DN(tab, deg, m, Cot)), FSq(FDiv(FMulInt(N(tab, deg, m), m), cs[2])))),
                  FDiv(FInt(deg * (deg + 1) * (2 * deg + 1)), FMulInt(FPi, 4)), FTiny(1, 14))
K(p, q) == FSqrt(FDiv(FRat(p, q), FPi))
Low == /\ deg = 1 => /\ FNear(N(tab, 1, 0), FMul(K(3, 4), cs[1]), Tol)
                   /\ FNear(N(tab, 1, 1), FNeg(FMul(K(3, 8), cs[2])), Tol)
                   /\ FNear(DN(tab, 1, 0, Cot), FNeg(FMul(K(3, 4), cs[2])), Tol)
                   /\ FNear(DN(tab, 1, 1, Cot), FNeg(FMul(K(3, 8), cs[1])), Tol)
       /\ deg = 2 => /\ FNear(N(tab, 2, 0), FMul(K(5, 16), FSub(FMulInt(FSq(cs[1]), 3), FOne)), Tol)
                   /\ FNear(N(tab, 2, 1), FNeg(FMul(K(15, 8), FMul(cs[1], cs[2]))), Tol)
                   /\ FNear(N(tab, 2, 2), FMul(K(15, 32), FSq(cs[2])), Tol)
(* sin^2 N'' ... Legendre's equation: N' sin cos + sin^2 N'' + (deg(deg+1) sin^2 - m^2) N = 0,        *)
(* with N'' from the order-raising rule applied twice                                            *)
D2(m) == LET csc2 == FDiv(FOne, FSq(cs[2]))
         IN FAdd(IF m = 0 THEN FZero ELSE FSub(FMul(FMulInt(Cot, m), DN(tab, deg, m, Cot)), FMulInt(FMul(csc2, N(tab, deg, m)), m)),
                 IF m = deg THEN FZero ELSE FMul(TabD[deg][m + 1], DN(tab, deg, m + 1, Cot)))
Equation == \A m \in 0..deg :
  FNear(FAdd(FMul(FMul(cs[1], cs[2]), DN(tab, deg, m, Cot)),
             FAdd(FMul(FSq(cs[2]), D2(m)), FMul(FSub(FMulInt(FSq(cs[2]), deg * (deg + 1)), FInt(m * m)), N(tab, deg, m)))),
        FZero, FTiny(1, 13))
Mirror == LET T2 == NTable(L, L, FNeg(cs[1]), cs[2])
          IN \A m \in 0..deg : FNear(N(T2, deg, m), IF (deg + m) % 2 = 0 THEN N(tab, deg, m) ELSE FNeg(N(tab, deg, m)), Tol)
=============================================================================
