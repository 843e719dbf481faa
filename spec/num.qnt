// Unbounded-integer vocabulary shared by every other module.
//
// Quint's `/` and `%` are used only on a non-negative left and a positive
// right operand, where the simulator, Apalache and mathematics agree; every
// signed notion of division is defined here on top of that.
module num {
  pure def abs(x: int): int = if (x < 0) -x else x
  pure def min2(a: int, b: int): int = if (a <= b) a else b
  pure def max2(a: int, b: int): int = if (a >= b) a else b
  pure def sgn(x: int): int = if (x > 0) 1 else if (x < 0) -1 else 0

  // Remainder and quotient rounding towards minus infinity; m > 0.
  pure def fmod(x: int, m: int): int =
    if (x >= 0) x % m else { val r = (-x) % m if (r == 0) 0 else m - r }
  pure def fdiv(x: int, m: int): int = 
    if (x >= 0) x / m else -((-x + m - 1) / m)

  // Division truncating towards zero; b != 0.
  pure def tdiv(a: int, b: int): int = {
    val q = abs(a) / abs(b)
    if ((a < 0) != (b < 0)) -q else q
  }
  pure def trem(a: int, b: int): int = {
    val r = abs(a) % abs(b)
    if (a < 0) -r else r
  }
  // Euclidean division: 0 <= erem < |b| and a == ediv * b + erem; b != 0.
  pure def erem(a: int, b: int): int = fmod(a, abs(b))
  pure def ediv(a: int, b: int): int = {
    val q = (a - erem(a, b))
    tdiv(q, b)
  }

  // The powers of two 2^15 .. 2^0: enough to binary-search any length < 2^16.
  pure val STEPS: List[int] =
    [32768, 16384, 8192, 4096, 2048, 1024, 512, 256, 128, 64, 32, 16, 8, 4, 2, 1]

  // Number of binary digits of x >= 0; bitlen(0) == 0.
  pure def bitlen(x: int): int =
    STEPS.foldl({ v: x, n: 0 }, (s, k) => {
      val p = 2^k
      if (s.v >= p) { v: s.v / p, n: s.n + k } else s
    }).n + (if (x > 0) 1 else 0)

  // Largest n with 2^n dividing x; x > 0, x < 2^512.
  pure def twos(x: int): int =
    [256, 128, 64, 32, 16, 8, 4, 2, 1].foldl({ v: x, n: 0 }, (s, k) => {
      val p = 2^k
      if (s.v % p == 0) { v: s.v / p, n: s.n + k } else s
    }).n

  pure def isPow2(x: int): bool = x > 0 and x == 2^(bitlen(x) - 1)

  // Little-endian digits of x >= 0 in the given base, exactly n of them.
  pure def digitsLE(x: int, base: int, n: int): List[int] =
    1.to(n).fold({ v: x, ds: [] }, (s, _) =>
      { v: s.v / base, ds: s.ds.append(s.v % base) }).ds

  // Value of a big-endian digit list.
  pure def valueBE(ds: List[int], base: int): int =
    ds.foldl(0, (v, d) => v * base + d)

  pure def reverse(l: List[int]): List[int] =
    l.foldl([], (acc, x) => [x].concat(acc))

  pure def replicate(n: int, x: int): List[int] =
    if (n <= 0) [] else 1.to(n).fold([], (l, _) => l.append(x))
}
