-------------------------------- MODULE U64 --------------------------------
(* 64 bit arithmetic: see Limbs.                                            *)
EXTENDS Integers, Sequences

Words64 == INSTANCE Limbs WITH Base <- 65536

U64Base == 65536
U64Zero == <<0, 0, 0, 0>>
U64Max == <<65535, 65535, 65535, 65535>>
IsU64(x) == Len(x) = 4 /\ \A i \in 1..4 : x[i] \in 0..65535

U64Of(n) == Words64!LOf(n)   \* of 0 <= n < 2^31
U64AddC(a, b) == Words64!LAddC(a, b)
U64Overflows(a, b) == Words64!LOverflows(a, b)
U64Add(a, b) == Words64!LAdd(a, b)
U64Lt(a, b) == Words64!LLt(a, b)
U64Le(a, b) == Words64!LLe(a, b)
U64Sub(a, b) == Words64!LSub(a, b)
U64MulAddC(a, m, d) == Words64!LMulAddC(a, m, d)
U64Seek(pos, size, org, neg, mag) == Words64!LSeek(pos, size, org, neg, mag)

U64Fits31(a) == a[3] = 0 /\ a[4] = 0 /\ a[2] < 32768
U64ToInt(a) == a[1] + a[2] * U64Base              \* if U64Fits31(a)
=============================================================================
