------------------------------ MODULE DivideMC ------------------------------
(***************************************************************************)
(* Long division, one quotient digit at a time (C13, C15): the digit is    *)
(* estimated from the leading digits only, never too large, and what is    *)
(* left is divided again.  Shown for all operands up to Hi in each base:   *)
(* the product of quotient and divisor plus the rest is the dividend in    *)
(* every state, every estimate is a digit and removes something, and the   *)
(* machine ends with a rest less than the divisor.                         *)
(***************************************************************************)
EXTENDS Integers, TLC
CONSTANTS Bases, Hi

VARIABLES base, n, d,     \* what is divided by what
          rest, q, steps
vars == <<base, n, d, rest, q, steps>>

RECURSIVE Len0(_, _)
Len0(b, x) == IF x = 0 THEN 0 ELSE 1 + Len0(b, x \div b)      \* number of digits
Lead(b, x, k) == x \div b ^ (Len0(b, x) - k)                  \* the k leading digits

(* the estimate: a digit and its place *)
Estimate ==
  LET nl == Len0(base, rest)
      dl == Len0(base, d)
      nh == Lead(base, rest, 1)
      dh == Lead(base, d, 1)
  IN IF dh < nh THEN [at |-> nl - dl, digit |-> nh \div (dh + 1)]
     ELSE IF dh = nh /\ nl = dl THEN [at |-> 0, digit |-> 1]
     ELSE [at |-> nl - dl - 1, digit |-> Lead(base, rest, 2) \div (dh + 1)]

Init == /\ base \in Bases /\ n \in 0..Hi /\ d = 0
        /\ rest = n /\ q = 0 /\ steps = 0
Choose == d = 0 /\ d' \in 1..Hi /\ UNCHANGED <<base, n, rest, q, steps>>
Divide == /\ d # 0 /\ rest >= d
          /\ LET e == Estimate IN
             /\ q' = q + e.digit * base ^ e.at
             /\ rest' = rest - d * e.digit * base ^ e.at
          /\ steps' = steps + 1
          /\ UNCHANGED <<base, n, d>>
Next == Choose \/ Divide
Spec == Init /\ [][Next]_vars

Exact == d # 0 => n = q * d + rest
Digit == (d # 0 /\ rest >= d) => /\ Estimate.digit \in 1..(base - 1)
                                 /\ Estimate.at >= 0
                                 /\ d * Estimate.digit * base ^ Estimate.at <= rest
NotNegative == rest >= 0
Ended == (d # 0 /\ rest < d) => q = n \div d /\ rest = n % d
(* at most a few steps for every digit of the quotient and every bit of a digit *)
RECURSIVE Log2(_)
Log2(x) == IF x <= 1 THEN 0 ELSE 1 + Log2(x \div 2)
Fast == (d # 0 /\ n >= d) => steps <= (2 + Log2(base)) * (1 + Len0(base, n) - Len0(base, d)) + 1
=============================================================================
