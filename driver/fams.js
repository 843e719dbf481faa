// The families of the specification and how their arguments are written in a
// request. Parameter kinds:
//   b flag   w 256-bit word (of the signedness of the flag before)   o word of
//   the opposite signedness   d decimal integer   x bytes   *w list of words
// `spec` turns arguments into runtime values where the plain mapping does not do.
'use strict'
const S = require('./spec.js')
const M = 1n << 256n
const hexW = x => (x < 0n ? x + M : x).toString(16)
const bytesHex = l => (l.length ? Buffer.from(l).toString('hex') : '.')
const utf8 = t => Array.from(Buffer.from(t, 'utf8'))
const ALIGN = [[0, ''], [1, ''], [2, ''], [3, ''], [1, '*'], [2, '*'], [3, '*'], [2, 'é']]
  .map(([a, f]) => [a, utf8(f === '' ? ' ' : f)])
const PRIMS = {
  bool: [1, false, false], u8: [8, false, false], u16: [16, false, false], u32: [32, false, false],
  u64: [64, false, false], u128: [128, false, false], usize: [64, false, true],
  i8: [8, true, false], i16: [16, true, false], i32: [32, true, false],
  i64: [64, true, false], i128: [128, true, false], isize: [64, true, true],
}
const IN = (s, x) => (s ? -(M / 2n) <= x && x < M / 2n : 0n <= x && x < M)

const F = {}
function fam(bin, name, kinds, extra) { F[name] = Object.assign({ bin, name, kinds, def: 'f' + name }, extra) }

fam('arith', 'Wrap', 'bww'); fam('arith', 'WrapMixed', 'bwo')
fam('arith', 'Ovf', 'bww'); fam('arith', 'OvfMixed', 'bwo'); fam('arith', 'Neg', 'bw')
fam('arith', 'Div', 'bww'); fam('arith', 'DivEuclid', 'bww')
fam('arith', 'Shift', 'bwd'); fam('arith', 'Count', 'bw'); fam('arith', 'Swap', 'bw')
fam('arith', 'Pow', 'bwd'); fam('arith', 'Cmp', 'bww'); fam('arith', 'Clamp', 'bwww')
fam('arith', 'Sign', 'bw'); fam('arith', 'AbsDiff', 'bww'); fam('arith', 'Pow2', 'bw')
fam('arith', 'Bytes', 'bw'); fam('arith', 'FromBytes', 'bx'); fam('arith', 'Words', 'bww')
fam('arith', 'Consts', 'b'); fam('arith', 'Fold', 'b*')
fam('ops', 'Ops', 'bww'); fam('ops', 'BitOps', 'bww'); fam('ops', 'NegOp', 'bw')
fam('ops', 'ShiftOp', 'bwd', {
  req: ([s, a, n]) => [s ? 1 : 0, hexW(a), n, IN(false, n) ? hexW(n) : '-', IN(true, n) ? hexW(n) : '-'],
})
fam('conv', 'As', 'bw'); fam('conv', 'Try', 'bw'); fam('conv', 'ToFloat', 'bw')
fam('conv', 'FromF32', 'd'); fam('conv', 'FromF64', 'd')
fam('conv', 'From', 'td', {
  sig: 'n: int, sg: bool, ptr: bool, x: int', call: 'n, sg, ptr, x',
  spec: ([t, x]) => { const [n, sg, ptr] = PRIMS[t]; return [S.int(BigInt(n)), S.bool(sg), S.bool(ptr), S.int(x)] },
})
fam('text', 'ParseRadix', 'bdx'); fam('text', 'Parse', 'bx'); fam('text', 'Literal', 'bx')
fam('text', 'Text', 'bw'); fam('text', 'Round', 'bw')
fam('text', 'Fmt', 'bwdddddd', {
  sig: 's: bool, a: int, kind: int, sgf: int, alt: bool, zero: bool, align: int, fill: List[int], width: int',
  call: 's, a, kind, sgf, alt, zero, align, fill, width',
  // s a kind sgf alt zero align-variant width precision (-1: none)
  spec: ([s, a, k, g, alt, z, al, w]) => [S.bool(s), S.int(a), S.int(BigInt(k)), S.int(BigInt(g)), S.bool(!!alt), S.bool(!!z),
    S.int(BigInt(ALIGN[al][0])), S.ints(ALIGN[al][1]), S.int(BigInt(Math.max(w, 0)))],
  req: ([s, a, ...r]) => [s ? 1 : 0, hexW(a), ...r],
})
fam('text', 'Sink', 'bwdddddddd', {
  sig: 's: bool, a: int, kind: int, sgf: int, alt: bool, zero: bool, align: int, fill: List[int], width: int, cap: int',
  call: 's, a, kind, sgf, alt, zero, align, fill, width, cap',
  // as Fmt, then how many bytes the writer takes
  spec: l => [...F.Fmt.spec(l), S.int(BigInt(l[9]))],
  req: ([s, a, ...r]) => [s ? 1 : 0, hexW(a), ...r],
})
fam('text', 'Exp', 'bw', {
  // s a sgf alt zero align-variant width precision; the double is the specification's
  spec: ([s, a]) => [S.bool(s), S.int(a)],
  req: ([s, a, ...r], spec) => [s ? 1 : 0, hexW(a), spec.call('D_ExpBits', [S.bool(s), S.int(a)]).toList().get(0).toList().get(1).value.toInt(), ...r],
})
fam('ser', 'SerText', 'bw'); fam('ser', 'SerBytes', 'bw'); fam('ser', 'SerRound', 'bw'); fam('ser', 'ByteRound', 'bw'); fam('ser', 'DeText', 'bx')
fam('ser', 'DeInt', 'btd', {
  sig: 's: bool, n: int, sg: bool, x: int', call: 's, n, sg, x',
  spec: ([s, t, x]) => { const [n, sg] = PRIMS[t]; return [S.bool(s), S.int(BigInt(n)), S.bool(sg), S.int(x)] },
})
fam('ser', 'DeF32', 'bd'); fam('ser', 'DeF64', 'bd'); fam('ser', 'DeOther', 'b')
fam('ser', 'DeBytes', 'bX', {
  spec: ([s, l]) => [S.bool(s), S.ints(l)],
  req: ([s, l]) => [s ? 1 : 0, l.length ? l.map(x => x.toString(16).padStart(4, '0')).join('') : '.'],
})
fam('ser', 'DeSeq', 'bXd', {
  sig: 's: bool, els: List[int], hint: int', call: 's, els, hint',
  spec: ([s, l, h]) => [S.bool(s), S.ints(l), S.int(BigInt(h))],
  req: ([s, l, h]) => [s ? 1 : 0, l.length ? l.map(x => x.toString(16).padStart(4, '0')).join('') : '.', h],
})
fam('intr', 'Intr', 'bww'); fam('intr', 'IntrDiv', 'bww'); fam('intr', 'IntrShift', 'bwd'); fam('intr', 'IntrCount', 'bw')

const KIND = { b: ['s', 'bool'], w: ['', 'int'], o: ['', 'int'], d: ['', 'int'], x: ['', 'List[int]'], X: ['', 'List[int]'], '*': ['', 'List[int]'] }
function driverModule(names) {
  const defs = names.map(n => {
    const f = F[n]
    let sig = f.sig, call = f.call
    if (!sig) {
      const ps = f.kinds.split('').map((k, i) => [k === 'b' ? 's' : 'a' + i, KIND[k][1]])
      sig = ps.map(p => p.join(': ')).join(', ')
      call = ps.map(p => p[0]).join(', ')
    }
    return `  pure def D_${n}(${sig}): List[(str, Out)] = ${f.def}(${call})`
  })
  if (names.includes('Exp')) defs.push('  pure def D_ExpBits(s: bool, a: int): List[(str, Out)] = fExpBits(s, a)')
  // only what is needed: analysis time grows with the number of instances
  const bins = new Set(names.map(n => F[n].bin))
  const imports = ['  import api(W = 256).* from "./api"']
  if (bins.has('text')) imports.push('  import text(TW = 256).* from "./text"')
  if (bins.has('ser')) imports.push('  import serde(SW = 256).* from "./serde"')
  return `module drv {
${imports.join('\n')}
${defs.join('\n')}
}`
}
function specArgs(f, args) {
  if (f.spec) return f.spec(args)
  const k = f.kinds
  return args.map((a, i) => k[i] === 'b' ? S.bool(a) : (k[i] === 'x' || k[i] === '*') ? S.ints(a) : S.int(BigInt(a)))
}
function request(f, args, spec) {
  if (f.req) return f.name + ' ' + f.req(args, spec).join(' ')
  const k = f.kinds, out = [f.name]
  args.forEach((a, i) => {
    if (k[i] === 'b') out.push(a ? 1 : 0)
    else if (k[i] === 'w' || k[i] === 'o') out.push(hexW(a))
    else if (k[i] === 'x') out.push(bytesHex(a))
    else if (k[i] === '*') for (const x of a) out.push(hexW(x))
    else out.push(a)
  })
  return out.join(' ')
}
module.exports = { F, driverModule, specArgs, request, PRIMS, ALIGN, IN, M, utf8 }
