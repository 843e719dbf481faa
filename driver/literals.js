// C14, the part the compiler decides: literals the specification evaluates must
// compile to that value, and those it rejects must be reported as errors.
'use strict'
const fs = require('fs'), path = require('path')
const { spawnSync } = require('child_process')
const C = require('./common.js'), S = require('./spec.js'), FA = require('./fams.js'), G = require('./gen.js'), RNG = require('./rng.js')

const quote = t => '"' + Array.from(t).map(c => /[0-9A-Za-z_ +\-.]/.test(c) ? c : '\\u{' + c.codePointAt(0).toString(16) + '}').join('') + '"'

function run(coverage) {
  C.build(['text'])
  const spec = S.load(FA.driverModule(['Literal'])), f = FA.F.Literal
  const rng = RNG.make('literals/' + C.SEED)
  const want = C.TIER === 'thorough' ? 3000 : 250
  const good = [], bad = [], seen = new Set()
  const add = ([, [s, bytes]]) => {
    const t = Buffer.from(bytes).toString('utf8')
    if (!Buffer.from(t, 'utf8').equals(Buffer.from(bytes))) return
    const key = s + t
    if (seen.has(key)) return
    seen.add(key)
    const tok = S.entries(spec.call('D_Literal', FA.specArgs(f, [s, bytes])))[0][1]
    if (tok === '*') return
    const l = { s, t, tok, request: FA.request(f, [s, bytes], spec) }
    if (tok === 'P') { if (bad.length < want) bad.push(l) } else if (good.length < want) good.push(l)
  }
  // the compiler limits how long it evaluates a constant
  const fixed = [...G.PLANS.C14.fixed()].filter(c => c[1][1].length < 5000)
  // numerals near the limits first, then a sample of the rest
  const near = fixed.filter(c => c[1][1].length > 20)
  for (let i = 0; i < want; i++) add(rng.pick(near))
  for (let i = 0; i < want; i++) add(['Literal', G.PLANS.C14.random[0][2](rng)])
  for (let i = 0; i < 20 * want && (good.length < want || bad.length < want); i++) add(rng.chance(0.5) ? rng.pick(fixed) : ['Literal', G.PLANS.C14.random[0][2](rng)])

  const dir = path.join(C.WORK, 'lit')
  fs.mkdirSync(dir, { recursive: true })
  const mac = l => `ethnum::${l.s ? 'int' : 'uint'}!(${quote(l.t)})`
  const G1 = path.join(dir, `good-${C.SEED}.rs`), B1 = path.join(dir, `bad-${C.SEED}.rs`)
  fs.writeFileSync(G1, 'fn lits() {\n' + good.map((l, i) => `show(${i}, ${mac(l)});`).join('\n') + '\n}\n')
  const mixed = bad.flatMap((l, i) => (i % 5 === 0 && good[i] ? [good[i], l] : [l]))
  fs.writeFileSync(B1, '#[allow(dead_code)] fn lits() {\n' + mixed.map(l => `let _ = ${mac(l)};`).join('\n') + '\n}\n')
  const bads = []
  const report = (l, expected, got) => bads.push({ property: 'C14', family: 'Literal', request: l.request, config: 'rustc', entry: (l.s ? 'int!' : 'uint!'), expected, got, case: [] })

  // Rejected at compile time, one error per line of the generated file. The
  // compiler stops before evaluating constants only for errors of other kinds.
  const cargo = (bin, json) => spawnSync('bash', ['-c', `. ${C.ROOT}/tools/env.sh; cd ${C.ROOT}/harness; GOOD_LITERALS=${G1} BAD_LITERALS=${B1} CARGO_TARGET_DIR=${C.WORK}/nd exec cargo build -q --locked --offline --bin ${bin} ${json ? '--message-format=json' : ''}`],
    { encoding: 'utf8', maxBuffer: 1 << 29 })
  const errorsOf = r => {
    const lines = new Map()
    for (const l of r.stdout.split('\n')) {
      if (!l.startsWith('{')) continue
      let m; try { m = JSON.parse(l).message } catch (e) { continue }
      if (!m || m.level !== 'error') continue
      const visit = o => {
        if (!o || typeof o !== 'object') return
        if (o.file_name && /\/lit\/(good|bad)-/.test(o.file_name)) lines.set(o.line_start, m.message)
        for (const k in o) visit(o[k])
      }
      visit(m)
    }
    return lines
  }
  const rb = cargo('badlit', true), eb = errorsOf(rb)
  if (rb.status !== 0 && eb.size === 0) throw new Error('badlit: ' + rb.stderr.slice(0, 3000) + rb.stdout.slice(0, 3000))
  mixed.forEach((l, i) => {
    const e = eb.get(i + 2)
    if (l.tok === 'P' && !e) report(l, 'a compile-time error', 'compiles')
    if (l.tok !== 'P' && e) report(l, l.tok, 'error: ' + e)
  })
  const rg = cargo('lit', true)
  if (rg.status !== 0) {
    const eg = errorsOf(rg)
    if (!eg.size) throw new Error('lit: ' + rg.stderr.slice(0, 3000))
    good.forEach((l, i) => { if (eg.get(i + 2)) report(l, l.tok, 'error: ' + eg.get(i + 2)) })
  } else {
    const out = spawnSync(path.join(C.WORK, 'nd/debug/lit'), { encoding: 'utf8' }).stdout.trim().split('\n')
    good.forEach((l, i) => { const got = (out[i] || '').split(' ')[1]; if (got !== l.tok) report(l, l.tok, got || '(missing)') })
  }
  Object.assign(coverage, { literals_compiled: good.length, literals_rejected_by_compiler: bad.length })
  return bads
}
module.exports = { run }
