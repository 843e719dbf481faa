'use strict'
// Numbers that random draws from larger ranges favour (driver/hints.js).
let SMALL = [], NUMBERS = []
function setHints(numbers) {
  NUMBERS = numbers
  const s = new Set()
  for (const v of numbers) for (const d of [-1n, 0n, 1n]) if (v + d >= 0n && v + d < 1n << 32n) s.add(Number(v + d))
  SMALL = [...s]
}
// xoshiro128** on 32-bit words, seeded through a string hash.
function make(seedText) {
  let h = 0x9e3779b9
  const next = () => {
    h = (h + 0x9e3779b9) | 0
    let z = h
    z = Math.imul(z ^ (z >>> 16), 0x85ebca6b)
    z = Math.imul(z ^ (z >>> 13), 0xc2b2ae35)
    return (z ^ (z >>> 16)) >>> 0
  }
  for (const c of String(seedText)) h = Math.imul(h ^ c.charCodeAt(0), 0x01000193) ^ (h >>> 13)
  let a = next(), b = next(), c = next(), d = next()
  const u32 = () => {
    const r = Math.imul(rot(Math.imul(b, 5), 7), 9)
    const t = b << 9
    c ^= a; d ^= b; b ^= c; a ^= d; c ^= t; d = rot(d, 11)
    return r >>> 0
  }
  const rot = (x, k) => (x << k) | (x >>> (32 - k))
  const plain = n => Math.floor(u32() / 4294967296 * n)
  const hinted = n => {
    const l = SMALL.filter(v => v < n)
    return l.length ? l[plain(l.length)] : plain(n)
  }
  const R = {
    u32: () => (SMALL.length && plain(16) === 0 ? hinted(4294967296) : u32()),
    plain,
    int: n => (SMALL.length && n >= 24 && plain(16) === 0 ? hinted(n) : plain(n)), // 0 <= . < n
    range: (lo, hi) => lo + R.int(hi - lo + 1),              // inclusive
    bool: () => (u32() & 1) === 1,
    chance: p => u32() < p * 4294967296,
    pick: l => l[plain(l.length)],
    bits: n => {                                             // n random bits
      let v = 0n
      if (NUMBERS.length && plain(24) === 0) return near(n)
      for (let i = 0; i < n; i += 32) v = (v << 32n) | BigInt(u32())
      return v & ((1n << BigInt(n)) - 1n)
    },
  }
  // n bits near one of the numbers: the number, shifted, as a count of bits, as
  // a divisor, in the upper or lower part.
  const near = n => {
    const N = BigInt(n), m = (1n << N) - 1n, raw = () => { let v = 0n; for (let i = 0; i < n; i += 32) v = (v << 32n) | BigInt(u32()); return v & m }
    const h = NUMBERS[plain(NUMBERS.length)], k = BigInt(plain(n)), j = h < 0n ? -h : h
    switch (plain(8)) {
      case 0: return h & m
      case 1: return (h + BigInt(plain(3) - 1)) & m
      case 2: return (h << k) & m
      case 3: return ((h << k) | (raw() & ((1n << k) - 1n))) & m
      case 4: return (raw() * j + (plain(2) ? 0n : NUMBERS[plain(NUMBERS.length)])) & m
      case 5: return j <= N ? [1n << j, (1n << j) - 1n, (raw() << j), raw() >> (N - j), m ^ (1n << j)][plain(5)] & m : h & m
      case 6: { const r = raw(), q = j > 0n ? r / j : r; return (q * j + (NUMBERS[plain(NUMBERS.length)])) & m }
      default: return ((raw() << (N / 2n)) | (h & ((1n << (N / 2n)) - 1n))) & m
    }
  }
  return R
}
module.exports = { make, setHints, hints: () => NUMBERS }
