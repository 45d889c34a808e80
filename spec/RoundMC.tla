------------------------------- MODULE RoundMC -------------------------------
(***************************************************************************)
(* From a decimal number to a float, one shift at a time (C02, C16): the   *)
(* number n * 10^x (with or without a remainder) becomes a binary one with *)
(* Prec bits, of which a cut-off flag says whether it is exact, and this   *)
(* one is cut to the bits of a float (fewer for a subnormal one) and       *)
(* rounded with the last bit and the flag.  In every state the number is   *)
(* between s * 2^e and (s + 1) * 2^e, and is s * 2^e when the flag is      *)
(* clear.  At the end the float is the nearest one, although the number    *)
(* has been cut three times.                                               *)
(***************************************************************************)
EXTENDS Decimal
CONSTANTS Hi, T, Prec
ToyInf == 7
ToyFrac == 2
ToyOne == 5

VARIABLES n, x, rem0,     \* the number
          pc, s, e, rem, keep,  \* the work
          bits            \* of a float
vars == <<n, x, rem0, pc, s, e, rem, keep, bits>>

Bias == ExpOfOne - FracBits
MinExp == 1 - Bias
MaxExp == ExpInf - 1 - Bias
Five0(k) == 5 ^ k

Init == /\ n \in 0..Hi /\ x = 0 /\ rem0 = FALSE
        /\ pc = "choose" /\ s = 0 /\ e = 0 /\ rem = FALSE /\ keep = 0 /\ bits = -1
Choose == /\ pc = "choose"
          /\ x' \in (-T)..T /\ rem0' \in (IF n = 0 THEN {FALSE} ELSE BOOLEAN)
          /\ s' = n /\ e' = 0 /\ rem' = rem0'
          /\ pc' = IF n = 0 THEN "end" ELSE "five"
          /\ bits' = IF n = 0 THEN 0 ELSE -1
          /\ UNCHANGED <<n, keep>>
(* 10^x = 5^x * 2^x *)
Multiply == /\ pc = "five" /\ x >= 0
            /\ s' = s * Five0(x) /\ e' = x /\ pc' = "binup"
            /\ UNCHANGED <<n, x, rem0, rem, keep, bits>>
Scale == /\ pc = "five" /\ x < 0
         /\ IF s < Five0(-x) * 2 ^ Prec
            THEN s' = 2 * s /\ e' = e - 1 /\ UNCHANGED <<pc, rem>>
            ELSE /\ s' = s \div Five0(-x) /\ e' = e + x
                 /\ rem' = (rem \/ s % Five0(-x) # 0)
                 /\ pc' = "bindown"
         /\ UNCHANGED <<n, x, rem0, keep, bits>>
Up(at, min, next) == /\ pc = at
                     /\ IF s < min THEN s' = 2 * s /\ e' = e - 1 /\ UNCHANGED pc
                        ELSE pc' = next /\ UNCHANGED <<s, e>>
                     /\ UNCHANGED <<n, x, rem0, rem, keep, bits>>
Down(at, max, next) == /\ pc = at
                       /\ IF s >= max THEN s' = s \div 2 /\ e' = e + 1 /\ rem' = (rem \/ s % 2 = 1) /\ UNCHANGED pc
                          ELSE pc' = next /\ UNCHANGED <<s, e, rem>>
                       /\ UNCHANGED <<n, x, rem0, keep, bits>>
(* 2^Top <= the number < 2^(Top + 1) *)
Top == e + FracBits + 1
Class == IF Top > MaxExp THEN "inf" ELSE IF Top >= MinExp THEN "normal"
         ELSE IF Top >= MinExp - FracBits - 1 THEN "sub" ELSE "zero"
Classify == /\ pc = "class"
            /\ pc' = IF Class \in {"normal", "sub"} THEN Class ELSE "end"
            /\ keep' = IF Class = "sub" THEN Top - MinExp + FracBits + 2 ELSE 0
            /\ bits' = CASE Class = "inf" -> ExpInf * 2 ^ FracBits [] Class = "zero" -> 0 [] OTHER -> -1
            /\ UNCHANGED <<n, x, rem0, s, e, rem>>
Rounded == LET half == s % 2 = 1
               f == s \div 2
           IN IF half /\ (rem \/ f % 2 = 1) THEN f + 1 ELSE f
Normal == /\ pc = "normal"
          /\ bits' = (Top + Bias) * 2 ^ FracBits + (Rounded - 2 ^ FracBits)   \* may carry into the exponent
          /\ pc' = "end" /\ UNCHANGED <<n, x, rem0, s, e, rem, keep>>
(* a subnormal number keeps fewer bits, one of them for rounding *)
Subnormal == /\ pc = "sub"
             /\ IF s >= 2 ^ keep
                THEN s' = s \div 2 /\ e' = e + 1 /\ rem' = (rem \/ s % 2 = 1) /\ UNCHANGED <<pc, bits>>
                ELSE bits' = Rounded /\ pc' = "end" /\ UNCHANGED <<s, e, rem>>
             /\ UNCHANGED <<n, x, rem0, keep>>
Next == \/ Choose \/ Multiply \/ Scale
        \/ Up("binup", 2 ^ Prec, "bindown") \/ Down("bindown", 2 ^ Prec, "fup")
        \/ Up("fup", 2 ^ (FracBits + 1), "fdown") \/ Down("fdown", 2 ^ (FracBits + 2), "class")
        \/ Classify \/ Normal \/ Subnormal
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)

N(k) == FromInt(k)
Bracketed == (n # 0 /\ pc \notin {"choose", "five"}) =>
  LET lo == CmpScaled(N(n), x, 0, N(s), e)
  IN /\ lo >= 0 /\ CmpScaled(N(n), x, 0, N(s + 1), e) = -1
     /\ rem = (rem0 \/ lo = 1)
EnoughBits == (n # 0 /\ pc = "fup") => s >= 2 ^ (Prec - 1)
Float == [s |-> 0, e |-> bits \div 2 ^ FracBits, m |-> N(bits % 2 ^ FracBits)]
IsNearest == pc = "end" => /\ bits \in 0..(ExpInf * 2 ^ FracBits)
                           /\ Nearest(N(n), x, 0, rem0, Float)
Ends == <>(pc = "end")
=============================================================================
