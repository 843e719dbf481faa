// Model-level obligations: the two-word algorithms of limbs.qnt equal the
// mathematics of api.qnt, and api.qnt satisfies laws stated independently of
// its definitions. Each definition is checked on every point of its domain at
// LW = 8 bits (two 4-bit words of two 2-bit digits) by driver/model.js.
//
// `u...` laws take bit patterns in [0, 2^LW); a signed reading is applied where
// the law concerns I256.
module laws {
  import num.* from "./num"
  import api(W = 8) as A from "./api"
  import limbs(LH = 4) as L from "./limbs"

  pure val N = 256
  pure def S(u: int): int = A::asS(u)
  pure def U(x: int): int = A::asU(x)

  /* ------------------------------- the implementation shape is the function -- */

  pure def limbAdd(a: int, b: int): bool = {
    val u = L::uaddc(a, b)
    val i = L::iaddc(a, b)
    and {
      L::addW(a, b) == A::asU(a + b),
      (u.v, u.c) == (A::asU(a + b), not(A::inR(false, a + b))),
      (i.v, i.c) == (A::asU(a + b), not(A::inR(true, S(a) + S(b))))
    }
  }
  pure def limbSub(a: int, b: int): bool = {
    val u = L::usubc(a, b)
    val i = L::isubc(a, b)
    and {
      L::subW(a, b) == A::asU(a - b),
      (u.v, u.c) == (A::asU(a - b), not(A::inR(false, a - b))),
      (i.v, i.c) == (A::asU(a - b), not(A::inR(true, S(a) - S(b))))
    }
  }
  pure def limbMixed(a: int, b: int): bool = {
    val us = L::uAddSigned(a, b)
    val ia = L::iAddUnsigned(a, b)
    val is = L::iSubUnsigned(a, b)
    and {
      (us.v, us.c) == (A::asU(a + S(b)), not(A::inR(false, a + S(b)))),
      (ia.v, ia.c) == (A::asU(a + b), not(A::inR(true, S(a) + b))),
      (is.v, is.c) == (A::asU(a - b), not(A::inR(true, S(a) - b))),
      L::uSatAddSigned(a, b) == A::clamp(false, a + S(b)),
      L::iAbsDiff(a, b) == abs(S(a) - S(b)),
      L::sLt(a, b) == (S(a) < S(b))
    }
  }
  pure def limbMul(a: int, b: int): bool = {
    val u = L::umulc(a, b)
    val i = L::imulc(a, b)
    and {
      L::mulW(a, b) == A::asU(a * b),
      (u.v, u.c) == (A::asU(a * b), not(A::inR(false, a * b))),
      (i.v, i.c) == (A::asU(a * b), not(A::inR(true, S(a) * S(b))))
    }
  }
  // words only: b, a < 2^LH
  pure def limbWordMul(a: int, b: int): bool = {
    val m = L::umulddi3(a % 16, b % 16)
    val f = L::fullmul(a % 16, b % 16)
    m.ok and f.ok and m.v == (a % 16) * (b % 16) and f.hi * 16 + f.lo == m.v
  }
  // d.ok: at most two corrections per digit, no intermediate overflow, and the
  // states the code calls unreachable are not reached.
  pure def limbUDiv(a: int, b: int): bool =
    b == 0 or { val d = L::udivmod(a, b) d.ok and d.q == a / b and d.r == a % b }
  pure def limbIDiv(a: int, b: int): bool =
    b == 0 or {
      val d = L::idivmod(a, b)
      d.ok and d.q == U(tdiv(S(a), S(b))) and d.r == U(trem(S(a), S(b)))
    }
  pure def limbEuclid(a: int, b: int): bool =
    b == 0 or (S(a) == -128 and S(b) == -1) or {
      val d = L::idivEuclid(a, b)
      d.q == U(ediv(S(a), S(b))) and d.r == U(erem(S(a), S(b)))
    }
  // With two words the estimate is exact once corrected: the code's add-back
  // step and its saturated first guess are never needed.
  pure def limbNoAddBack(a: int, b: int): bool =
    b < 16 or b > a or {
      val d = L::knuth(a, b)
      d.p[1] == 1 and d.p[4] == 0
    }
  // n = b mod LW
  pure def limbShift(a: int, b: int): bool = {
    val n = b % 8
    and {
      L::shlW(a, n).v == U(A::shl(false, a, n)),
      L::shrW(a, n).v == A::shr(false, a, n),
      L::sarW(a, n).v == U(A::shr(true, S(a), n)),
      L::rolW(a, b) == A::rotl(false, a, b),
      L::rorW(a, b) == A::rotr(false, a, b)
    }
  }
  pure def limbBits(a: int): bool = and {
    L::ctlzW(a) == A::lzU(a), L::cttzW(a) == A::tzU(a),
    L::signum128(a) == sgn(S(a)),
    L::condNeg(a, L::isNeg(a)) == abs(S(a)),
    { val n = L::nextPow2(a)
      A::fPow2(false, a)[1] == ("next_power_of_two", if (n.f) A::OD(n.v) else A::OI(n.v)) }
  }
  pure def limbPow(a: int, b: int): bool = {
    val e = b % 21
    val u = L::uPowW(a, e)
    val i = L::sPowW(a, e)
    A::fPow(false, a, e)[1] == ("overflowing_pow", A::OIB((u.v, u.f)))
    and A::fPow(true, S(a), e)[1] == ("overflowing_pow", A::OIB((S(i.v), i.f)))
  }
  // one step of the literal evaluator, radix 2 and 3 and 4 (digits below 2^(LH/2))
  pure def limbLiteral(a: int, b: int): bool =
    [2, 3, 4].foldl(true, (ok, r) => {
      val d = b % r
      val t = L::litStep(a, r, d)
      ok and (t.f == (a * r + d >= N)) and (t.f or t.v == a * r + d)
    })
  // Scaling by 2^e is exact in the target format, so the cast is correctly
  // rounded iff rounding the significand part is the same as rounding the value:
  // here for every precision the sticky bit has to serve (p <= LH - 2).
  pure def limbFloat(a: int): bool = {
    val f = L::floatParts(a)
    A::toFloat(2, 6, a) == (if (a == 0) 0 else A::toFloat(2, 6, f.m) + f.e * 2)
  }

  /* ------------------------------------------------------- laws of api.qnt -- */

  // Ripple-carry addition over the binary digits, and what the carries say.
  pure def ripple(a: int, b: int): { v: int, c7: bool, c8: bool } = {
    val r = 1.to(8).fold({ a: a, b: b, c: 0, p: 1, v: 0, prev: 0 }, (t, _) => {
      val x = t.a % 2 + t.b % 2 + t.c
      { a: t.a / 2, b: t.b / 2, c: x / 2, p: t.p * 2, v: t.v + t.p * (x % 2), prev: t.c }
    })
    { v: r.v, c7: r.prev == 1, c8: r.c == 1 }
  }
  pure def lawAdd(a: int, b: int): bool = {
    val r = ripple(a, b)
    // a - b = a + ~b + 1
    val m = ripple(ripple(a, N - 1 - b).v, 1)
    and {
      A::wrapping(false, a + b) == A::OI(r.v),
      A::overflowing(false, a + b) == A::OIB((r.v, r.c8)),
      A::overflowing(true, S(a) + S(b)) == A::OIB((S(r.v), r.c7 != r.c8)),
      A::wrapping(false, a - b) == A::OI(m.v),
      A::overflowing(false, a - b) == A::OIB((m.v, a < b))
    }
  }
  // Multiplication as a sum of shifted copies.
  pure def lawMul(a: int, b: int): bool = {
    val s = 0.to(7).fold(0, (t, i) => if ((b / 2^i) % 2 == 1) t + a * 2^i else t)
    A::overflowing(false, a * b) == A::OIB((s % N, s >= N))
  }
  // checked, saturating and the operator restate the overflow flag
  pure def lawForms(a: int, b: int): bool =
    [(false, a + b), (false, a - b), (false, a * b),
     (true, S(a) + S(b)), (true, S(a) - S(b)), (true, S(a) * S(b)), (true, -S(a))].foldl(true, (ok, t) => {
      val s = t._1
      val x = t._2
      ok and match (A::overflowing(s, x)) {
        | OIB(vf) => and {
            A::checked(s, x) == (if (vf._2) A::ON else A::OI(vf._1)),
            A::operator(s, x) == (if (vf._2) A::OD(vf._1) else A::OI(vf._1)),
            A::wrapping(s, x) == A::OI(vf._1),
            // the clamp is the in-range value closest to x
            match (A::saturating(s, x)) {
              | OI(c) => A::inR(s, c) and (if (vf._2) c == A::lo(s) or c == A::hi(s) else c == x)
                         and abs(c - x) <= abs(A::lo(s) - x) and abs(c - x) <= abs(A::hi(s) - x)
              | _ => false
            }
          }
        | _ => false
      }
    })
  pure def lawDiv(a: int, b: int): bool =
    b == 0 or and {
      // unsigned
      a == (a / b) * b + a % b,
      // truncating, and its uniqueness: no other remainder of the right size and sign
      { val q = tdiv(S(a), S(b))
        val r = trem(S(a), S(b))
        and { S(a) == q * S(b) + r, abs(r) < abs(S(b)), r == 0 or sgn(r) == sgn(S(a)) } },
      { val q = ediv(S(a), S(b))
        val r = erem(S(a), S(b))
        and { S(a) == q * S(b) + r, 0 <= r, r < abs(S(b)) } },
      // only MIN / -1 leaves the range
      A::inR(true, tdiv(S(a), S(b))) == not(S(a) == -128 and S(b) == -1),
      A::inR(true, ediv(S(a), S(b))) == not(S(a) == -128 and S(b) == -1)
    }
  pure def bitAt(u: int, i: int): int = (u / 2^i) % 2
  pure def lawBits(a: int): bool = and {
    A::popcount(a) == 0.to(7).fold(0, (n, i) => n + bitAt(a, i)),
    A::revBits(a) == 0.to(7).fold(0, (n, i) => n + bitAt(a, i) * 2^(7 - i)),
    A::revBits(A::revBits(a)) == a,
    A::popcount(a) + A::popcount(N - 1 - a) == 8,
    // leading and trailing zeros delimit the ones
    a == 0 or (bitAt(a, 7 - A::lzU(a)) == 1 and a < 2^(8 - A::lzU(a))),
    a == 0 or (bitAt(a, A::tzU(a)) == 1 and a % 2^A::tzU(a) == 0),
    a != 0 or (A::lzU(a) == 8 and A::tzU(a) == 8),
    A::lzU(a) == A::tzU(A::revBits(a)),
    isPow2(a) == (A::popcount(a) == 1),
    A::bytesBE(a) == [a], A::asU(S(a)) == a, A::asS(a) == S(a)
  }
  pure def lawBitOps(a: int, b: int): bool = and {
    A::band(false, a, b) == 0.to(7).fold(0, (n, i) => n + bitAt(a, i) * bitAt(b, i) * 2^i),
    A::bor(false, a, b) == 0.to(7).fold(0, (n, i) => n + max2(bitAt(a, i), bitAt(b, i)) * 2^i),
    A::bxor(false, a, b) == 0.to(7).fold(0, (n, i) => n + ((bitAt(a, i) + bitAt(b, i)) % 2) * 2^i)
  }
  // Bit i of the result is bit i - n (shl), i + n (shr), cyclically for rotations.
  pure def lawShift(a: int, b: int): bool = {
    val n = b % 8
    val sign = bitAt(a, 7)
    0.to(7).forall(i => and {
      bitAt(U(A::shl(false, a, n)), i) == (if (i < n) 0 else bitAt(a, i - n)),
      bitAt(A::shr(false, a, n), i) == (if (i + n > 7) 0 else bitAt(a, i + n)),
      bitAt(U(A::shr(true, S(a), n)), i) == (if (i + n > 7) sign else bitAt(a, i + n)),
      bitAt(A::rotl(false, a, b), (i + b) % 8) == bitAt(a, i),
      bitAt(A::rotr(false, a, b), i) == bitAt(a, (i + b) % 8)
    })
  }
  // Powers are repeated multiplication; the flag remembers any partial overflow
  // and equals the overflow of the exact power.
  pure def lawPow(a: int, b: int): bool = {
    val e = b % 21
    val u = 1.to(20).fold({ v: 1, x: 1, o: false }, (t, i) =>
      if (i > e) t else { v: (t.v * a) % N, x: t.x * a, o: t.o or t.x * a >= N })
    val s = 1.to(20).fold({ x: 1 }, (t, i) => if (i > e) t else { x: t.x * S(a) })
    and {
      A::fPow(false, a, e)[1] == ("overflowing_pow", A::OIB((u.v, u.o))),
      A::fPow(true, S(a), e)[1] == ("overflowing_pow", A::OIB((A::asS(s.x), not(A::inR(true, s.x))))),
      A::fPow(true, S(a), e)[3] == ("saturating_pow", A::OI(A::clamp(true, s.x)))
    }
  }
  pure def lawPow2(a: int): bool = {
    val above = 0.to(7).map(i => 2^i).filter(p => p >= a)
    A::fPow2(false, a) == [
      ("is_power_of_two", A::OB(0.to(7).exists(i => a == 2^i))),
      ("next_power_of_two", if (above == Set()) A::OD(0) else A::OI(above.fold(N, (m, p) => min2(m, p)))),
      ("checked_next_power_of_two", if (above == Set()) A::ON else A::OI(above.fold(N, (m, p) => min2(m, p))))
    ]
  }
  // A miniature float format: 3 significand bits, 3 exponent bits. The rounded
  // value is a nearest representable one, ties go to the even significand.
  pure def fval(bits: int): int = {          // bits of a non-negative finite float, integers only
    val e = bits / 4
    val f = bits % 4
    // value * 2^5 (smallest exponent is 1 - 3 = -2, two fraction bits; subnormals as e = 1)
    if (e == 0) f * 2 else (4 + f) * 2^e
  }
  pure def lawFloat(a: int): bool = {
    val bits = A::toFloat(3, 3, a)
    // A float of this format overflows at 2^4 - 2^0 rounded: infinity is 7 * 4
    val x = a * 32
    val finite = 0.to(27)
    if (bits == 28) a >= 15      // half-way between 14 and 16 rounds to even, which is 16
    else and {
      a < 15,
      finite.forall(o => abs(fval(bits) - x) <= abs(fval(o) - x)),
      finite.forall(o => (o != bits and abs(fval(bits) - x) == abs(fval(o) - x)) implies bits % 2 == 0)
    }
  }
  // Truncation back: the float's value, cut off towards zero and clamped.
  pure def lawFromFloat(b: int): bool = {
    val mag = b % 32
    val neg = (b / 32) % 2 == 1
    val bits = mag + (if (neg) 32 else 0)
    val v = fval(mag) / 32
    val s = if (neg) -v else v
    if (mag >= 28) {
      // infinity and not-a-number
      A::fromFloat(3, 3, true, bits) == (if (mag > 28) 0 else if (neg) -128 else 127)
      and A::fromFloat(3, 3, false, bits) == (if (mag > 28 or neg) 0 else N - 1)
    } else
      A::fromFloat(3, 3, true, bits) == s and A::fromFloat(3, 3, false, bits) == max2(s, 0)
  }
  pure def lawCmp(a: int, b: int): bool = and {
    // exactly one of <, ==, >; the order is that of the flipped-sign patterns
    A::fCmp(true, S(a), S(b)).slice(0, 8) == A::fCmp(false, (a + 128) % N, (b + 128) % N).slice(0, 8),
    A::fClamp(false, a, b, (a + b) % N)[0] ==
      ("clamp", A::OI({ val c = (a + b) % N
                        val l = if (b <= c) b else c
                        val h = if (b <= c) c else b
                        if (a < l) l else if (a > h) h else a }))
  }

  /* --------------------------------------------------- routes through limbs -- */

  pure def pathAdd(a: int, b: int): List[int] = L::uaddc(a, b).p.concat(L::iaddc(a, b).p)
  pure def pathSub(a: int, b: int): List[int] = L::usubc(a, b).p.concat(L::isubc(a, b).p)
  pure def pathMul(a: int, b: int): List[int] = L::umulc(a, b).p.concat(L::imulc(a, b).p)
  pure def pathUDiv(a: int, b: int): List[int] = if (b == 0) [] else L::udivmod(a, b).p
  pure def pathIDiv(a: int, b: int): List[int] = if (b == 0) [] else L::idivEuclid(a, b).p
  pure def pathLit(a: int, b: int): List[int] = L::litStep(a, 3, b % 3).p
}
