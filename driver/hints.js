// Constants that the code under test has and the code the specification was
// written against has not: inputs near them are tried more often. This only
// decides where to look; what is right is decided by the specification.
'use strict'
const fs = require('fs'), path = require('path')
const BASE = path.join(__dirname, 'hints-base.json')
const ROOTS = ['/repo/src', '/repo/intrinsics']

function files(d, out = []) {
  let l = []
  try { l = fs.readdirSync(d, { withFileTypes: true }) } catch (e) { return out }
  for (const e of l) {
    const p = path.join(d, e.name)
    if (e.isDirectory()) { if (e.name !== 'target') files(p, out) } else if (/\.(rs|c|h|ll)$/.test(e.name)) out.push(p)
  }
  return out
}

const LEX = /\/\/[^\n]*|\/\*[^]*?\*\/|b?"(?:[^"\\]|\\[^])*"|b?'(?:[^'\\]|\\(?:x..|u\{[^}]*\}|.))'|(?:0[xX][0-9a-fA-F_]+|0b[01_]+|0o[0-7_]+|[0-9][0-9_]*)|[A-Za-z_][A-Za-z0-9_]*|<<|>>|::|[^\s]/g
function tokens(text) {
  const out = []
  for (const [t] of text.matchAll(LEX)) if (!/^\/[/*]/.test(t)) out.push(t)
  return out
}
const unescape = s => s.replace(/\\(x(..)|u\{([^}]*)\}|n|r|t|0|\\|'|"|\n\s*)/g, (m, k, x, u) => (x ? String.fromCharCode(parseInt(x, 16)) : u ? String.fromCodePoint(parseInt(u, 16)) : { n: '\n', r: '\r', t: '\t', 0: '\0', '\\': '\\', "'": "'", '"': '"' }[k] || ''))

// Constant expressions: literals and limits of primitive types with operators.
function expression(ts, i) {
  const operand = () => {
    let t = ts[i]
    if (t === undefined) return null
    if (t === '(') { i++; const v = level(0); if (v === null || ts[i] !== ')') return null; i++; return v }
    if (t === '-' || t === '!') { i++; const v = operand(); return v === null ? null : t === '-' ? -v : ~v & ((1n << 128n) - 1n) }
    if (/^[0-9]/.test(t)) { i++; if (/^(u|i)(8|16|32|64|128|size)$/.test(ts[i] || '')) i++; else if (/^\.$/.test(ts[i] || '') && /^[0-9]/.test(ts[i + 1] || '')) return null; try { return BigInt(t.replace(/_/g, '')) } catch (e) { return null } }
    const m = /^(u|i)(8|16|32|64|128|size)$/.exec(t)
    if (m && ts[i + 1] === '::' && /^(MAX|MIN|BITS)$/.test(ts[i + 2] || '')) {
      const n = BigInt(m[2] === 'size' ? 64 : m[2]), k = ts[i + 2]
      i += 3
      return k === 'BITS' ? n : k === 'MAX' ? (1n << (m[1] === 'i' ? n - 1n : n)) - 1n : m[1] === 'i' ? -(1n << (n - 1n)) : 0n
    }
    return null
  }
  const power = () => { // literals may be raised to a power
    let v = operand()
    while (v !== null && ts[i] === '.' && ts[i + 1] === 'pow' && ts[i + 2] === '(') {
      const save = i
      i += 3
      const e = level(0)
      if (e === null || e < 0n || e > 300n || ts[i] !== ')') { i = save; break }
      i++; v = v ** e
    }
    return v
  }
  const OPS = [['|'], ['^'], ['&'], ['<<', '>>'], ['+', '-'], ['*', '/', '%']]
  const level = k => {
    if (k === OPS.length) { const v = power(); if (v !== null && ts[i] === 'as' && /^(u|i)/.test(ts[i + 1] || '')) i += 2; return v }
    let v = level(k + 1)
    while (v !== null && OPS[k].includes(ts[i])) {
      const save = i, op = ts[i++], w = level(k + 1)
      if (w === null) { i = save; return v }
      if ((op === '<<' || op === '>>') && (w < 0n || w > 300n)) { i = save; return v }
      if ((op === '/' || op === '%') && w === 0n) { i = save; return v }
      v = op === '|' ? v | w : op === '^' ? v ^ w : op === '&' ? v & w : op === '<<' ? v << w : op === '>>' ? v >> w : op === '+' ? v + w : op === '-' ? v - w : op === '*' ? v * w : op === '/' ? v / w : v % w
    }
    return v
  }
  const v = level(0)
  return [v, i]
}

function scan(roots = ROOTS) {
  const count = {}
  const add = k => { count[k] = (count[k] || 0) + 1 }
  for (const r of roots) for (const f of files(r)) {
    const ts = tokens(fs.readFileSync(f, 'utf8'))
    for (let i = 0; i < ts.length; i++) {
      const t = ts[i]
      if (/^[0-9]/.test(t)) { if (ts[i - 1] !== '.' || /^[0-9]/.test(ts[i - 2] || '')) try { add('n' + BigInt(t.replace(/_/g, ''))) } catch (e) { /* not a number */ } }
      if (/^b?"/.test(t)) add('t' + unescape(t.replace(/^b?"|"$/g, '')).slice(0, 80))
      if (/^b?'/.test(t) && t.length > 2) add('t' + unescape(t.replace(/^b?'|'$/g, '')))
      if (/^[0-9(]|^[ui](8|16|32|64|128|size)$/.test(t)) { const [v, j] = expression(ts, i); if (v !== null && j > i + 1) add('n' + v) }
    }
  }
  return count
}

// { numbers, texts } that are new.
function find() {
  try {
    const base = JSON.parse(fs.readFileSync(BASE, 'utf8')), now = scan(), numbers = new Set(), texts = new Set()
    for (const k in now) if (now[k] > (base[k] || 0)) {
      if (k[0] === 'n') { const v = BigInt(k.slice(1)); if (v > 1n || v < -1n) numbers.add(v) } else if (k.length > 1 && k.length < 12) texts.add(k.slice(1))
    }
    return { numbers: [...numbers].slice(0, 200), texts: [...texts].slice(0, 50) }
  } catch (e) { return { numbers: [], texts: [] } }
}
module.exports = { find, scan, BASE }
if (require.main === module) {
  if (process.argv[2] === 'write') { const c = scan(), o = {}; for (const k of Object.keys(c).sort()) o[k] = c[k]; fs.writeFileSync(BASE, JSON.stringify(o, null, 0).replace(/,"/g, ',\n"') + '\n') } else { const h = find(); console.log(h.numbers.map(String).join(' '), JSON.stringify(h.texts)) }
}
