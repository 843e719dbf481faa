// One worker of a check: evaluates the specification on its share of the cases
// and compares it with what the executors of the four builds answered.
'use strict'
const { spawn } = require('child_process')
const S = require('./spec.js'), FA = require('./fams.js'), G = require('./gen.js'), RNG = require('./rng.js')

const CONFIGS = [['nd', 'nd/debug/', true], ['nr', 'nr/release/', false], ['ld', 'ld/debug/', true], ['lr', 'lr/release/', false]]

// C24: builds in which an undefined memory access ends the process.
const MEMORY = [['as', 'as/x86_64-unknown-linux-gnu/debug/', true], ['vn', 'vn/release/', false, 'valgrind'], ['vl', 'vl/release/', false, 'valgrind']]
const WRAP = { valgrind: ['valgrind', '-q', '--exit-on-first-error=yes', '--error-exitcode=99', '--leak-check=no'] }
const ENDED = { as: 'AddressSanitizer or a runtime check ended it: ', vn: 'valgrind ended it: ', vl: 'valgrind ended it: ' }

class Exec {
  constructor(work, cfg, bin) { this.path = work + '/' + cfg[1] + bin; this.cfg = cfg; this.start() }
  start() {
    const argv = (WRAP[this.cfg[3]] || []).concat(this.path)
    this.p = spawn(argv[0], argv.slice(1), { stdio: ['pipe', 'pipe', 'ignore'], env: Object.assign({}, process.env, { ASAN_OPTIONS: 'detect_leaks=0' }) })
    this.buf = ''; this.lines = []; this.want = 0; this.done = null; this.dead = null
    this.p.stdout.setEncoding('latin1')
    const p = this.p
    p.stdout.on('data', d => {
      if (p !== this.p) return
      const parts = (this.buf + d).split('\n')
      this.buf = parts.pop()
      for (const l of parts) this.lines.push(l)
      this.poke()
    })
    p.stdin.on('error', () => {})
    p.on('error', e => { if (p === this.p) { this.dead = this.dead || String(e); this.poke() } })
    p.on('close', (c, sig) => { if (p === this.p) { this.dead = this.dead || (ENDED[this.cfg[0]] || '') + (sig ? 'killed by ' + sig : 'exit status ' + c); this.poke() } })
  }
  poke() { if (this.done && (this.lines.length >= this.want || this.dead)) { const d = this.done; this.done = null; clearTimeout(this.timer); d() } }
  send(reqs) { this.lines = []; this.want = reqs.length; if (!this.dead) this.p.stdin.write(reqs.join('\n') + '\n\n', 'latin1') }
  // Resolves to the answers; fewer than asked for when the executor died.
  wait(ms) {
    return new Promise(res => {
      this.done = () => res(this.lines)
      this.timer = setTimeout(() => { this.dead = 'no answer within ' + ms / 1000 + ' s'; this.poke() }, ms)
      this.poke()
    })
  }
  async restart() { const p = this.p; this.p = null; try { p.kill('SIGKILL') } catch (e) { /* gone */ } this.start() }
  close() { try { this.p.stdin.end() } catch (e) { /* gone */ } try { this.p.kill('SIGKILL') } catch (e) { /* gone */ } }
}

// Answers for all requests; a crash or hang becomes the answer of its request.
async function ask(ex, reqs, ms) {
  if (ex.dead) await ex.restart()
  ex.send(reqs)
  const got = (await ex.wait(ms)).slice()
  if (got.length === reqs.length) return got
  // Outputs of a batch are buffered, so the request that failed is unknown.
  await ex.restart()
  const out = []
  for (const r of reqs) {
    ex.send([r])
    const l = await ex.wait(15000)
    if (l.length) out.push(l[0])
    else { out.push('!' + ex.dead); await ex.restart() }
    if (out.filter(x => x[0] === '!').length >= 5) break
  }
  while (out.length < reqs.length) out.push(null)
  return out
}

function parse(line) {
  const m = new Map()
  if (line === '') return m
  for (const e of line.split(' ')) { const i = e.indexOf('='); m.set(e.slice(0, i), e.slice(i + 1)) }
  return m
}
const fits = (want, got) => want === '*' || want === got || (want === 'E*' && got[0] === 'E') || (want[want.length - 1] === '?' && (got === want.slice(0, -1) || got[0] === 'E'))

// Mismatches of one answer: [[entry, expected, got]]. An answer may name several
// spellings of an entry as `entry.spelling`.
function compare(exp, line, dbg) {
  if (line === null) return []
  if (line[0] === '!') return [['(process)', 'an answer', line.slice(1).replace(/ /g, '_')]]
  const bad = [], seen = new Set()
  const want = new Map()
  for (const [n, d, r] of exp) want.set(n, dbg ? d : r)
  for (const [k, tok] of parse(line)) {
    const dot = k.indexOf('.')
    const name = want.has(k) ? k : dot < 0 ? k : k.slice(0, dot)
    const w = want.get(name)
    if (w === undefined) { bad.push([k, '(no such entry in the specification)', tok]); continue }
    seen.add(name)
    if (!fits(w, tok)) bad.push([k, w, tok])
  }
  for (const [n, w] of want) if (!seen.has(n) && w !== '*') bad.push([n, w, '(missing)'])
  return bad
}

function hash53(s) {
  let a = 0xdeadbeef, b = 0x41c6ce57
  for (let i = 0; i < s.length; i++) { const c = s.charCodeAt(i); a = Math.imul(a ^ c, 2654435761); b = Math.imul(b ^ c, 1597334677) }
  a = Math.imul(a ^ (a >>> 16), 2246822507) ^ Math.imul(b ^ (b >>> 13), 3266489909)
  b = Math.imul(b ^ (b >>> 16), 2246822507) ^ Math.imul(a ^ (a >>> 13), 3266489909)
  return 4294967296 * (2097151 & b) + (a >>> 0)
}
// A case is trivial when every numeric argument is 0 or 1 and every string empty.
const nontrivial = args => args.some(a => Array.isArray(a) ? a.length > 0 : typeof a === 'bigint' ? a !== 0n && a !== 1n : typeof a === 'number' ? a > 1 : false)

async function runCases(job, src, onBad) {
  const { id, work, soft } = job
  const fams = job.fams
  const spec = S.load(FA.driverModule(fams))
  const execs = {}
  const CONFS = job.memory ? MEMORY : CONFIGS
  for (const bin of new Set(fams.map(f => FA.F[f].bin))) execs[bin] = CONFS.map(c => new Exec(work, c, bin))
  const t0 = Date.now()
  const stat = { evaluations: 0, entries: 0, specCalls: 0, perFam: {}, outcomes: {}, hashes: new Set(), samples: [], cut: false }
  const expect = (f, args) => { stat.specCalls++; return S.entries(spec.call('D_' + f.name, FA.specArgs(f, args))) }
  let nbad = 0
  const SIZE = job.memory ? 60 : 250
  let batch = []
  // Answers are collected while the specification is evaluated.
  const flush = async () => {
    if (!batch.length) return
    const byBin = new Map()
    for (const c of batch) { const b = c.f.bin; if (!byBin.has(b)) byBin.set(b, []); byBin.get(b).push(c) }
    batch = []
    const work = [...byBin].map(([bin, cs]) => [cs, Promise.all(execs[bin].map(e => ask(e, cs.map(c => c.req), 90000)))])
    for (const [cs, asked] of work) {
      if (!job.pairs) for (const c of cs) c.exp = expect(c.f, c.args)
      const got = await asked
      cs.forEach((c, i) => {
        if (job.pairs) {
          nbad += pairs(c, got.map(g => g[i]), spec, stat, expect, onBad)
          return
        }
        for (const [n, d] of c.exp) {
          stat.entries++
          const k = d === '*' ? 'unspecified' : d === 'P' ? 'panic' : d === 'N' ? 'none' : d[0] === 'E' ? 'error' : d.endsWith(',T') ? 'flag set' : 'value'
          stat.outcomes[k] = (stat.outcomes[k] || 0) + 1
          void n
        }
        CONFS.forEach((cfg, k) => {
          for (const [entry, want, tok] of compare(c.exp, got[k][i], cfg[2])) {
            nbad++
            onBad({ property: id, family: c.f.name, request: c.req, config: cfg[0], entry, expected: want, got: tok, case: [c.f.name, c.args] })
          }
        })
      })
    }
  }
  for (const [name, args] of src) {
    const f = FA.F[name]
    const req = FA.request(f, args, spec)
    batch.push({ f, args, req })
    stat.evaluations++
    stat.perFam[name] = (stat.perFam[name] || 0) + 1
    if (nontrivial(args)) stat.hashes.add(hash53(req))
    if (stat.samples.length < 4 && stat.evaluations % 1009 === 17) stat.samples.push(req)
    if (batch.length >= SIZE) {
      await flush()
      if (nbad > 200) break
      if (Date.now() - t0 > soft * 1000) { stat.cut = true; break }
    }
  }
  await flush()
  for (const b in execs) for (const e of execs[b]) e.close()
  stat.hashes = Float64Array.from(stat.hashes)
  return stat
}

// C18: the four answers against each other; the specification is consulted
// only where the profiles differ.
function pairs(c, got, spec, stat, expect, onBad) {
  let n = 0
  const bad = (config, entry, want, tok) => { n++; onBad({ property: 'C18', family: c.f.name, request: c.req, config, entry, expected: want, got: tok, case: [c.f.name, c.args] }) }
  stat.entries += 1
  for (const [a, b, name] of [[0, 2, 'nd/ld'], [1, 3, 'nr/lr']]) {
    if (got[a] === null || got[b] === null || got[a] === got[b]) continue
    const A = parse(got[a]), B = parse(got[b])
    for (const k of new Set([...A.keys(), ...B.keys()])) if (A.get(k) !== B.get(k)) bad(name, k, A.get(k) || '(missing)', B.get(k) || '(missing)')
  }
  if (got[0] !== null && got[1] !== null && got[0] !== got[1]) {
    const A = parse(got[0]), B = parse(got[1])
    let exp
    for (const k of new Set([...A.keys(), ...B.keys()])) {
      if (A.get(k) === B.get(k)) continue
      exp = exp || new Map(expect(c.f, c.args).map(e => [e[0], e]))
      const e = exp.get(k) || exp.get(k.split('.')[0])
      if (e && e[1] !== e[2]) { stat.outcomes['differs as documented'] = (stat.outcomes['differs as documented'] || 0) + 1; continue }
      bad('nd/nr', k, A.get(k) || '(missing)', B.get(k) || '(missing)')
    }
  }
  return n
}

async function main(job) {
  G.setDict('/repo/src')
  const rng = RNG.make(`${job.id}/${job.seed}/${job.worker}`)
  const src = job.cases ? job.cases : job.pairs || job.memory ? allCases(job, rng) : G.cases(job.id, job.worker, job.workers, rng, job.unit)
  const bads = []
  const stat = await runCases(job, src, b => { if (bads.length < 400) bads.push(b) })
  process.send({ stat, bads }, () => process.exit(0))
}
// For memory accesses the families with raw buffers count most.
const PER = { C13: 40, C14: 20, C15: 60, C16: 60, C17: 80, C23: 30, C04: 60, C05: 60, C22: 60, C01: 15, C02: 20, C03: 20, C06: 20, C07: 10, C08: 10, C09: 10, C10: 20, C11: 20, C12: 20, C20: 10, C21: 10 }
// Every plan in turn, a slice of each, so that all families are compared.
function* allCases(job, rng) {
  // sizes at which a buffer may be filled, whatever the slice
  if (job.memory) { let i = 0; for (const c of G.widths()) if (c[1][4] === 0 && c[1][0] === (c[1][7] % 2 === 1 && c[1][2] !== 4) && i++ % job.workers === job.worker) yield c }
  const names = Object.keys(G.PLANS)
  const its = names.map(id => G.cases(id, job.worker * job.thin + job.seed % job.thin, job.workers * job.thin, rng, job.unit * job.thin / 8))
  const live = its.map(() => true)
  while (live.some(x => x)) for (let k = 0; k < its.length; k++) for (let j = 0; j < (job.memory && PER[names[k]] || 40) && live[k]; j++) {
    const n = its[k].next()
    if (n.done) live[k] = false
    else if (job.fams.includes(n.value[0])) yield n.value
  }
}
if (require.main === module) process.once('message', job => main(job).catch(e => { console.error(e); process.exit(2) }))
module.exports = { runCases, compare, CONFIGS, MEMORY, Exec, ask, parse, hash53 }
