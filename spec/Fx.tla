---------------------------------- MODULE Fx ----------------------------------
(***************************************************************************)
(* Fixed point real arithmetic with 90 fractional bits.                    *)
(*                                                                         *)
(* A number is a tuple <<h, a, b, c>> of integers with 0 <= a,b,c < 2^30;  *)
(* its value is  h + a/2^30 + b/2^60 + c/2^90.  The definitions below are  *)
(* the meaning of the operators (TLA+ integers are unbounded).  TLC's      *)
(* integers are 32 bit wide, so TLC evaluates the operators marked         *)
(* "override" with java/Fx.java, which implements exactly these            *)
(* definitions with BigInteger; lib/selftest.py compares the two worlds.    *)
(* Results outside (-2^31, 2^31) saturate (see Clamp).                     *)
(***************************************************************************)
EXTENDS Integers, Sequences

LOCAL B30 == 1073741824
LOCAL One90 == B30 * B30 * B30
LOCAL Raw(x) == ((x[1] * B30 + x[2]) * B30 + x[3]) * B30 + x[4]
LOCAL Clamp(i) == LET M == (2147483647 * One90) IN
                  IF i > M THEN M ELSE IF i < -M THEN -M ELSE i
LOCAL Cook(j) == LET i == Clamp(j) IN
   << i \div One90, (i \div (B30*B30)) % B30, (i \div B30) % B30, i % B30 >>
LOCAL ISqrt(n) == CHOOSE r \in 0..n : r*r <= n /\ (r+1)*(r+1) > n

\* a rational number p/q as a fixed point number (rounded down)       override
Rat(p, q) == Cook(IF q > 0 THEN (p * One90) \div q ELSE ((-p) * One90) \div (-q))
\* p/q * 10^-e : convenient for tolerances                            override
Dec(p, e) == Cook((p * One90) \div (10^e))
Add(x, y) == Cook(Raw(x) + Raw(y))                                  \* override
Sub(x, y) == Cook(Raw(x) - Raw(y))                                  \* override
Opp(x)    == Cook(-Raw(x))                                          \* override
Mul(x, y) == Cook((Raw(x) * Raw(y)) \div One90)                     \* override
\* division rounds down; dividing by 0 saturates by the sign of x     override
Div(x, y) == LET p == Raw(x) q == Raw(y) IN
             Cook(IF q = 0 THEN (IF p >= 0 THEN 2147483647 * One90
                                           ELSE -2147483647 * One90)
                  ELSE IF q > 0 THEN (p * One90) \div q
                                ELSE ((-p) * One90) \div (-q))
\* square root of the positive part                                   override
Sqrt(x)   == LET p == Raw(x) IN IF p <= 0 THEN <<0,0,0,0>> ELSE Cook(ISqrt(p * One90))
Lt(x, y)  == Raw(x) < Raw(y)                                        \* override
Le(x, y)  == Raw(x) <= Raw(y)                                       \* override
\* the integer floor of x                                             override
Floor(x)  == x[1]
\* dot product of two sequences of numbers (exact sum, one rounding)  override
RECURSIVE LDot(_, _, _)
LOCAL LDot(x, y, n) == IF n = 0 THEN 0 ELSE LDot(x, y, n-1) + Raw(x[n]) * Raw(y[n])
Dot(x, y) == Cook(LDot(x, y, Len(x)) \div One90)                    \* override
\* the number closest to printing: an approximate decimal, for messages only
Show(x) == x                                                        \* override

Zero == <<0,0,0,0>>
One  == <<1,0,0,0>>
Two  == <<2,0,0,0>>
Int2Fx(i) == <<i,0,0,0>>
Half == Rat(1,2)
Gt(x, y) == Lt(y, x)
Ge(x, y) == Le(y, x)
Abs(x) == IF Lt(x, Zero) THEN Opp(x) ELSE x
Max2(x, y) == IF Lt(x, y) THEN y ELSE x
Min2(x, y) == IF Lt(x, y) THEN x ELSE y
Sq(x) == Mul(x, x)
\* |x-y| <= eps
Near(x, y, eps) == Le(Abs(Sub(x, y)), eps)
\* |x-y| <= eps * max(1,|y|)
RNear(x, y, eps) == Le(Abs(Sub(x, y)), Mul(eps, Max2(One, Abs(y))))

\* ------------------------------------------------------------ trigonometry
Pi == Add(Int2Fx(3), Add(Rat(141592653,1000000000),
          Add(Dec(589793238, 18), Dec(462643383, 27))))
RECURSIVE LSin(_, _, _, _)
\* term-by-term Taylor series; t is the current term, k its order
LOCAL LSin(x2, t, k, acc) ==
   IF k > 41 THEN Add(acc, t)
   ELSE LSin(x2, Opp(Div(Mul(t, x2), Int2Fx((k+1)*(k+2)))), k+2, Add(acc, t))
\* reduce to [-pi, pi]
LOCAL Reduce(x) == LET TwoPi == Mul(Two, Pi)
                       n == Floor(Add(Div(x, TwoPi), Half))
                   IN Sub(x, Mul(Int2Fx(n), TwoPi))
\* both                                                             override
Sin(x) == LET r == Reduce(x) IN LSin(Sq(r), r, 1, Zero)
Cos(x) == LET r == Reduce(x) IN LSin(Sq(r), One, 0, Zero)
Deg(d) == Div(Mul(d, Pi), Int2Fx(180))
===============================================================================
