-------------------------------- MODULE SelfTest --------------------------------
(* The evaluation of the arithmetic modules in java/ against their definitions.     *)
(* RefLin and RefGeom are copies of Lin and Geom under names that have no override, *)
(* made by lib/selftest.py; results of Fx are printed and compared there.           *)
EXTENDS Geom, Json, IOUtils
RL == INSTANCE RefLin
RG == INSTANCE RefGeom
Cases == ndJsonDeserialize(IOEnv.LOG)
VARIABLES i
Fxs(c) == LET x == c.x y == c.y IN
  [add |-> Add(x, y), sub |-> Sub(x, y), opp |-> Opp(x), mul |-> Mul(x, y), div |-> Div(x, y), sqrt |-> Sqrt(x),
   lt |-> Lt(x, y), le |-> Le(x, y), floor |-> Floor(x), dot |-> Dot(c.u, c.v), sin |-> Sin(x), cos |-> Cos(x),
   rat |-> Rat(c.p, c.q), dec |-> Dec(c.p, c.e)]
SameBy(c) == LET x == c.x u == c.u v == c.v M == c.m N == c.n f == c.f a == c.a IN
  [VAdd |-> VAdd(u, v) = RL!VAdd(u, v), VSub |-> VSub(u, v) = RL!VSub(u, v), VScale |-> VScale(x, v) = RL!VScale(x, v),
   VOpp |-> VOpp(u) = RL!VOpp(u), VNorm |-> VNorm(u) = RL!VNorm(u), VUnit |-> VUnit(u) = RL!VUnit(u),
   VMax |-> VMax(u) = RL!VMax(u), At |-> At(u, v, x) = RL!At(u, v, x), MPt |-> MPt(M, u) = RL!MPt(M, u),
   MDir |-> MDir(M, u) = RL!MDir(M, u), MTDir |-> MTDir(M, u) = RL!MTDir(M, u), MMul |-> MMul(M, N) = RL!MMul(M, N),
   Det |-> Det(M) = RL!Det(M), Inv |-> Inv(M) = RL!Inv(M),
   FEval |-> FEval(f, u) = RG!FEval(f, u), FGrad |-> FGrad(f, u) = RG!FGrad(f, u), Along |-> Along(f, u, v) = RG!Along(f, u, v),
   PEval |-> PEval(a, x) = RG!PEval(a, x), Roots |-> Roots(a) = RG!Roots(a)]
Init == i = 0
Next == /\ i < Len(Cases) /\ i' = i + 1
        /\ PrintT("CASE " \o ToJson([fx |-> Fxs(Cases[i']), same |-> SameBy(Cases[i'])]))
Spec == Init /\ [][Next]_i
=================================================================================
