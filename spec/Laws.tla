------------------------------- MODULE Laws --------------------------------
(* What the contract's numbers are worth: with limbs of base 3 instead of    *)
(* 10^9, every operation on every pair of times is compared with the         *)
(* integers they stand for. (Times beyond what fits occur as results only.)  *)
EXTENDS Values

Three == 3
Top == <<2, 1, 2, 2>>
Top3 == <<2, 1, 2>>

VARIABLES u, v, g

All == {<<a, b, c, n>> : a, b, c, n \in 0..2}
V(t) == ((t[1] * 3 + t[2]) * 3 + t[3]) * 3 + t[4]
V3(t) == (t[1] * 3 + t[2]) * 3 + t[3]
Well(t) == t[1] >= 0 /\ \A k \in 2..4 : t[k] \in 0..2
W(t) == IF t[1] = 1 THEN 0 - V(t[2]) ELSE V(t[2])
Signed == {<<0, t>> : t \in All} \cup {<<1, t>> : t \in All \ {TZero}}
Right(t) == Well(t[2]) /\ (t[2] = TZero => t[1] = 0)
Opt(r, ok, n) == IF ok THEN Len(r) = 1 /\ Well(r[1]) /\ V(r[1]) = n ELSE r = <<>>
Sig(a, b) == IF a < b THEN Cmp(TRUE, FALSE) ELSE Cmp(FALSE, a = b)

LInit == /\ u \in All /\ v \in All /\ g \in (0..1) \X (0..1)
         /\ case = 0 /\ plan = <<>> /\ i = 0 /\ s = 0 /\ h = 0 /\ dt = 0 /\ ck = 0 /\ bad = {}
LNext == FALSE /\ UNCHANGED <<u, v, g, case, plan, i, s, h, ck, dt, bad>>
LSpec == LInit /\ [][LNext]_<<u, v, g, case, plan, i, s, h, ck, dt, bad>>

Sums == /\ Well(TAdd(u, v)) /\ V(TAdd(u, v)) = V(u) + V(v)
        /\ V(v) <= V(u) => Well(TSub(u, v)) /\ V(TSub(u, v)) = V(u) - V(v)
        /\ V(TDiff(u, v)) = (IF V(v) <= V(u) THEN V(u) - V(v) ELSE 0)
Order == /\ TLt(u, v) = (V(u) < V(v)) /\ TLeq(u, v) = (V(u) <= V(v))
         /\ TMaxOf(u, v) = (IF V(u) < V(v) THEN v ELSE u) /\ TMinOf(u, v) = (IF V(u) < V(v) THEN u ELSE v)
         /\ TFits(u) = (V(u) <= V(TMax)) /\ TLt(u, TInf)
         /\ SLess(Sec(u), Sec(v)) = (V3(u) < V3(v))
Products == \A b \in {<<>>, <<1>>, <<1, 0>>, <<1, 1>>, <<1, 0, 1>>} :
  V(TMulBits(u, b)) = V(u) * (CASE b = <<>> -> 0 [] b = <<1>> -> 1 [] b = <<1, 0>> -> 2 [] b = <<1, 1>> -> 3 [] OTHER -> 5)
Parts == /\ V(u) <= V(TMax) /\ V(v) <= V(TMax) => /\ Opt(DAdd(u, v), V(u) + V(v) <= V(TMax), V(u) + V(v))
                                                 /\ Opt(XArith(0, u, v), V(u) + V(v) <= V(TMax), V(u) + V(v))
         /\ Opt(DSub(u, v), V(v) <= V(u), V(u) - V(v)) /\ Opt(XArith(1, u, v), V(v) <= V(u), V(u) - V(v))
         /\ DCmp(u, v) = Sig(V(u), V(v))
Signs == LET p == <<g[1], u>>
             q == <<g[2], v>>
         IN p \in Signed /\ q \in Signed =>
              /\ Right(SAdd(p, q)) /\ W(SAdd(p, q)) = W(p) + W(q)
              /\ Right(SDiff(p, q)) /\ W(SDiff(p, q)) = W(p) - W(q)
              /\ Right(SNeg(p)) /\ W(SNeg(p)) = 0 - W(p)
              /\ SLt(p, q) = (W(p) < W(q)) /\ (p = q) = (W(p) = W(q))
Hold == Sums /\ Order /\ Products /\ Parts /\ Signs
=============================================================================
