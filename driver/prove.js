// Proofs of the lemmas of spec/proofs.qnt by Apalache, at full width.
//   node driver/prove.js [all | C01 ... | lemma ...]
// As a module of check.js (thorough tier). A lemma the solver does not decide in
// time is reported as undecided, not as a failure.
'use strict'
const fs = require('fs'), path = require('path'), os = require('os'), net = require('net'), { spawn } = require('child_process')
const S = require('./spec.js')

const SUMS = ['add', 'sub'], FLAGS = ['uaddc', 'usubc', 'iaddc', 'isubc', 'uAddSigned', 'iAddUnsigned', 'iSubUnsigned', 'uSatAddSigned']
const PRODUCTS = ['halves', 'prodHalves', 'words', 'prodWords']
const DIVISION = ['digit', 'digitRest', 'digitExample', 'twoDigits', 'scaling', 'twoWords', 'estimate', 'corrected', 'fullHalves', 'taken']
// Shift amounts are constants: sixteen at a time.
const SHIFTS = {}
for (const [name, args, from] of [['shl', 'c, d, e, f', 1], ['shlFar', 'a', 128], ['shr', 'a', 1], ['shrFar', 'a', 128], ['sar', 'a, b', 1], ['sarFar', 'a, b', 128]])
  for (let lo = from; lo < (from === 1 ? 128 : 256); lo += 16) {
    const ns = Array.from({ length: Math.min(16, (from === 1 ? 128 : 256) - lo) }, (_, i) => lo + i)
    SHIFTS[`${name}_${lo}`] = 'and { ' + ns.map(n => `${name}(${n}, ${args})`).join(', ') + ' }'
  }
const BY = {
  C01: [...SUMS, 'negation', ...PRODUCTS],
  C02: [...FLAGS, ...PRODUCTS, 'signedFlag', 'magnitude'],
  C03: [...SUMS, 'negation'],
  C04: [...DIVISION, 'magnitude'],
  C05: [...DIVISION, 'magnitude', ...SUMS],
  C06: Object.keys(SHIFTS),
  C09: ['signedLess'],
  C14: ['literal2', 'literal8', 'literal10', 'literal16'],
  C20: ['absDiff', 'signum', 'magnitude', 'negation'],
  C22: [...SUMS, ...FLAGS, ...PRODUCTS, ...DIVISION],
  C24: ['digit', 'estimate', 'corrected', 'taken', 'fullHalves'],
}
// An example of its domain: this one has to be refuted.
const EXAMPLES = ['digitExample']
const ALL = [...new Set(Object.values(BY).flat())]

const freePort = () => new Promise((res, rej) => {
  const s = net.createServer()
  s.on('error', rej); s.listen(0, '127.0.0.1', () => { const p = s.address().port; s.close(() => res(p)) })
})

async function one(name, seconds, dir) {
  const port = await freePort()
  const cwd = fs.mkdtempSync(path.join(dir, 'run-'))
  const t0 = Date.now()
  return new Promise(res => {
    const p = spawn('quint', ['verify', path.join(dir, 'lemmas.qnt'), '--main=lemmas', '--invariant=' + name, '--max-steps=0', '--server-endpoint=localhost:' + port],
      { cwd, detached: true, stdio: ['ignore', 'pipe', 'pipe'], env: Object.assign({}, process.env, { JVM_ARGS: '-Xmx2g' }) })
    let out = ''
    const kill = () => { try { process.kill(-p.pid, 'SIGKILL') } catch (e) { } }
    const timer = setTimeout(kill, seconds * 1000)
    p.stdout.on('data', x => { out += x }); p.stderr.on('data', x => { out += x })
    p.on('error', () => { clearTimeout(timer); res({ name, result: 'undecided', s: 0 }) })
    p.on('close', () => {
      clearTimeout(timer); kill()
      let result = /The outcome is: NoError/.test(out) ? 'proved' : /The outcome is: Error/.test(out) ? 'refuted' : 'undecided'
      if (EXAMPLES.includes(name)) result = result === 'refuted' ? 'proved' : result === 'proved' ? 'refuted' : result
      res({ name, result, s: Math.round((Date.now() - t0) / 1000), out: result === 'proved' ? '' : out.slice(-2000) })
    })
  })
}

// { lemma: 'proved' | 'refuted' | 'undecided' }
async function prove(names, { parallel = 6, seconds = 240, total = 1e6, say = () => { } } = {}) {
  const dir = fs.mkdtempSync(path.join(os.tmpdir(), 'prove-'))
  fs.cpSync(S.SPEC, dir, { recursive: true })
  fs.writeFileSync(path.join(dir, 'lemmas.qnt'), 'module lemmas {\n  import proofs.* from "./proofs"\n' +
    Object.entries(SHIFTS).map(([n, b]) => `  val ${n} = ${b}\n`).join('') + '}\n')
  const todo = [...names], out = {}, end = Date.now() + total * 1000
  for (const n of names) out[n] = 'undecided'
  await Promise.all(Array.from({ length: parallel }, async () => {
    for (let n; Date.now() < end && (n = todo.shift());) { const r = await one(n, Math.min(seconds, Math.max(5, (end - Date.now()) / 1000)), dir); out[n] = r.result; say(r) }
  }))
  fs.rmSync(dir, { recursive: true, force: true })
  return out
}

module.exports = { BY, ALL, prove }
if (require.main === module) {
  const ids = process.argv.slice(2)
  const names = !ids.length || ids[0] === 'all' ? ALL : [...new Set(ids.flatMap(i => BY[i] || [i]))]
  const t0 = Date.now()
  prove(names, { say: r => console.log(r.name.padEnd(14), r.result, r.s + ' s') }).then(out => {
    const l = Object.values(out)
    console.log(`${l.filter(x => x === 'proved').length} of ${l.length} proved, ${(Date.now() - t0) / 1000 | 0} s`)
    process.exit(l.includes('refuted') ? 1 : 0)
  })
}
