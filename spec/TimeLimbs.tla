----------------------------- MODULE TimeLimbs -----------------------------
(* Exact times for TLC, whose integers have 32 bits. A time (an instant since
   the origin, or a duration) is a tuple <<a, b, c, n>>: n nanoseconds
   (0..10^9-1) and the whole seconds in two-and-a-bit limbs of base 10^9,
   seconds = a*10^18 + b*10^9 + c. Every sum of two limbs plus a carry stays
   below 2^31. The whole range of Rust's Duration fits. *)
EXTENDS Integers, Sequences

B == 1000000000
TZero == <<0, 0, 0, 0>>
TMs(k) == <<0, 0, k \div 1000, (k % 1000) * 1000000>>
TUs(k) == <<0, 0, k \div 1000000, (k % 1000000) * 1000>>
TNs(k) == <<0, 0, 0, k>>
TSec(k) == <<0, 0, k, 0>>
\* the largest Duration: 2^64-1 seconds and 999999999 ns
TMax == <<18, 446744073, 709551615, 999999999>>
\* later than any instant
TInf == <<1000, 0, 0, 0>>

TLt(x, y) ==
  \/ x[1] < y[1]
  \/ x[1] = y[1] /\ ( \/ x[2] < y[2]
                      \/ x[2] = y[2] /\ ( \/ x[3] < y[3]
                                          \/ x[3] = y[3] /\ x[4] < y[4] ))
TLeq(x, y) == ~TLt(y, x)
TMaxOf(x, y) == IF TLt(x, y) THEN y ELSE x
TMinOf(x, y) == IF TLt(x, y) THEN x ELSE y

TAdd(x, y) ==
  LET n == x[4] + y[4]
      c == x[3] + y[3] + (IF n >= B THEN 1 ELSE 0)
      b == x[2] + y[2] + (IF c >= B THEN 1 ELSE 0)
      a == x[1] + y[1] + (IF b >= B THEN 1 ELSE 0)
  IN << a, IF b >= B THEN b - B ELSE b, IF c >= B THEN c - B ELSE c, IF n >= B THEN n - B ELSE n >>

\* x - y for y <= x
TSub(x, y) ==
  LET n == x[4] - y[4]
      c == x[3] - y[3] - (IF n < 0 THEN 1 ELSE 0)
      b == x[2] - y[2] - (IF c < 0 THEN 1 ELSE 0)
      a == x[1] - y[1] - (IF b < 0 THEN 1 ELSE 0)
  IN << a, IF b < 0 THEN b + B ELSE b, IF c < 0 THEN c + B ELSE c, IF n < 0 THEN n + B ELSE n >>

\* saturating
TDiff(x, y) == IF TLeq(y, x) THEN TSub(x, y) ELSE TZero
TFits(x) == TLeq(x, TMax)

\* up / down to a whole number of milliseconds
TCeilMs(x) ==
  LET r == x[4] % 1000000
  IN IF r = 0 THEN x ELSE TAdd(<<x[1], x[2], x[3], x[4] - r>>, TMs(1))
TFloorMs(x) == <<x[1], x[2], x[3], x[4] - (x[4] % 1000000)>>

\* k * x where bits is k in binary, most significant first
RECURSIVE TMulBits(_, _)
TMulBits(x, bits) ==
  IF bits = <<>> THEN TZero
  ELSE LET h == TMulBits(x, SubSeq(bits, 1, Len(bits) - 1))
           d == TAdd(h, h)
       IN IF bits[Len(bits)] = 1 THEN TAdd(d, x) ELSE d
=============================================================================
