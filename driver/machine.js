// C19: the register machine. node driver/machine.js C19
//  (a) traces simulated by `quint run` (its invariants checked on the way) are
//      replayed on the builds, state by state;
//  (b) longer seeded histories are executed by the builds and every step is
//      validated against the transition function of the specification.
'use strict'
const fs = require('fs'), path = require('path'), os = require('os')
const { fork, spawn } = require('child_process')
const S = require('./spec.js'), C = require('./common.js'), G = require('./gen.js'), RNG = require('./rng.js')
const { CONFIGS, MEMORY, Exec, ask, parse, hash53 } = require('./worker.js')
const M = 1n << 256n
const word = x => (x < 0n ? x + M : x).toString(16)
const t0 = Date.now()
const WORKERS = 8
const LIMIT = C.TIER === 'thorough'
  ? { procs: 8, samples: 400, steps: 100, soft: 420, sim: 330 } : { procs: 8, samples: 25, steps: 50, soft: 22, sim: 100 }

/* ------------------------------------------------------------ requests -- */

const opText = o => [o.fam, o.e, o.s ? 1 : 0, o.d, o.a, o.b, o.fam === 'Load' ? word(o.n) : o.n].join(':')
const request = h => 'Run ' + h.start.map(word).join(' ') + h.steps.map(s => ' ' + opText(s.op)).join('')

// Observation tokens of the machine: all errors are alike.
function obsToken(o, dbg) {
  const t = S.token(o, dbg)
  return t[0] === 'E' ? 'E' : t
}
// The same for a trace of ITF.
function itfToken(o, dbg) {
  const n = x => BigInt(x['#bigint'] === undefined ? x : x['#bigint'])
  const v = o.value
  switch (o.tag) {
    case 'OI': return n(v).toString(16)
    case 'OB': return v ? 'T' : 'F'
    case 'OIB': return n(v['#tup'][0]).toString(16) + ',' + (v['#tup'][1] ? 'T' : 'F')
    case 'OII': return v['#tup'].map(x => n(x).toString(16)).join(',')
    case 'OIIB': return v['#tup'].slice(0, 2).map(x => n(x).toString(16)).join(',') + ',' + (v['#tup'][2] ? 'T' : 'F')
    case 'ON': return 'N'
    case 'OP': return 'P'
    case 'OD': return dbg ? 'P' : n(v).toString(16)
    case 'OE': case 'OErr': return 'E'
    case 'OAny': return '*'
  }
  throw new Error('unknown outcome ' + o.tag)
}
const stateToken = (obs, r) => obs + ';' + r.map(x => x.toString(16)).join(';')

// The first step of the answer that the specification does not allow.
function diverges(h, line) {
  if (line === null) return null
  if (line[0] === '!') return { step: -1, entry: '(process)', expected: 'an answer', got: line.slice(1).replace(/ /g, '_') }
  const got = parse(line)
  for (let k = 0; k < h.steps.length; k++) {
    const g = got.get('s' + k)
    if (g === undefined) return { step: k, entry: opText(h.steps[k].op), expected: h.steps[k].tok, got: '(missing)' }
    const gl = g.split(';'), wl = h.steps[k].tok.split(';')
    for (let j = 0; j < 7; j++) {
      if (wl[j] === gl[j] || (j === 0 && wl[0] === '*')) continue
      return { step: k, entry: h.steps[k].op.fam + '/' + h.steps[k].op.e, expected: j ? `register ${j - 1} = ${wl[j]}` : wl[j], got: gl[j] }
    }
  }
  return null
}

/* -------------------------------------------------------------- worker -- */

function stat0() { return { histories: 0, states: 0, transitions: 0, hashes: [], outcomes: {}, ops: {}, samples: [] } }

async function judge(hs, execs, st, bads, id = 'C19') {
  for (const dbg of [true, false]) {
    const part = hs.filter(h => h.dbg === dbg)
    if (!part.length) continue
    const reqs = part.map(request)
    await Promise.all(execs.filter(e => e.cfg[2] === dbg).map(async e => {
      const got = await ask(e, reqs, 60000)
      part.forEach((h, i) => {
        const d = diverges(h, got[i])
        if (!d) return
        const upto = { start: h.start, steps: h.steps.slice(0, d.step < 0 ? undefined : d.step + 1) }
        bads.push({ property: id, family: 'Machine', config: e.cfg[0], entry: d.entry, expected: d.expected, got: d.got, request: request(upto),
          history: { dbg, request: request(upto), tokens: upto.steps.map(s => s.tok) } })
      })
    }))
  }
  for (const h of hs) {
    st.histories++
    st.states += h.steps.length + 1
    st.transitions += h.steps.length
    for (const s of h.steps) {
      const k = s.op.fam + '/' + s.op.e
      st.ops[k] = (st.ops[k] || 0) + 1
      const o = s.tok.slice(0, s.tok.indexOf(';'))
      const c = o === 'P' ? 'panic' : o === 'N' ? 'none' : o === 'E' ? 'error' : o === '*' ? 'silent' : o.endsWith(',T') ? 'flag set' : 'value'
      st.outcomes[c] = (st.outcomes[c] || 0) + 1
    }
    st.hashes.push(hash53(request(h)))
    if (st.samples.length < 2) st.samples.push(request(h).slice(0, 900))
  }
}

const INSTR_WEIGHT = { Load: 0.16 }
const AMOUNT = [0, 1, 2, 3, 31, 63, 64, 65, 127, 128, 129, 191, 192, 193, 254, 255, 256, 257, 384, 511, 65536, 2147483648, 4294967295]

// One history; the next instruction depends on nothing but the generator.
function history(r, spec, instr, len, dbg) {
  const start = []
  for (let i = 0; i < 6; i++) {
    const w = i % 3 && r.bool() ? G.partner(r, G.mod(start[i - 1])) : G.word(r)
    start.push(G.signed(i >= 3, w))
  }
  let regs = start
  const steps = []
  const favourite = r.chance(0.3) ? r.pick(instr) : null
  for (let k = 0; k < len; k++) {
    let op
    if (r.chance(INSTR_WEIGHT.Load)) {
      const s = r.bool(), d = r.int(3)
      const w = r.chance(0.5) ? G.word(r) : G.partner(r, G.mod(regs[(s ? 3 : 0) + r.int(3)]))
      op = { fam: 'Load', e: '', s, d, a: 0, b: 0, n: G.signed(s, w) }
    } else {
      const [s, [fam, e]] = favourite && r.chance(0.3) ? favourite : r.pick(instr)
      const n = BigInt(fam === 'Pow' ? (r.chance(0.8) ? r.int(12) : r.chance(0.5) ? r.int(300) : r.u32()) : r.chance(0.6) ? r.int(256) : r.chance(0.5) ? r.pick(AMOUNT) : r.u32())
      op = { fam, e, s, d: r.int(3), a: r.int(3), b: r.int(3), n }
    }
    let obs = '*'
    if (op.fam === 'Load') { regs = regs.slice(); regs[(op.s ? 3 : 0) + op.d] = op.n }
    else {
      const v = spec.call('D_apply', [S.bool(dbg), S.list(regs.map(S.int)), rec(op)]).toOrderedMap()
      regs = v.get('r').toList().toArray().map(x => x.toInt())
      obs = obsToken(v.get('obs'), dbg)
    }
    steps.push({ op, tok: stateToken(obs, regs) })
  }
  return { start, steps, dbg }
}
let rv, OM
function rec(o) {
  return rv.mkRecord(OM({ fam: S.str(o.fam), e: S.str(o.e), s: S.bool(o.s), d: S.int(BigInt(o.d)), a: S.int(BigInt(o.a)), b: S.int(BigInt(o.b)), n: S.int(o.n) }))
}
const DRV = `module drv {
  import machine(MW = 256).* from "./machine"
  pure def D_apply(p, regs, o) = apply(p, regs, o)
  pure val D_instr = INSTRUCTIONS
}`

async function work(job) {
  const Q = (process.env.QUINT_DIST || '/opt/veriftools/quint/node_modules/@informalsystems/quint/dist/src') + '/'
  rv = require(Q + 'runtime/impl/runtimeValue.js').rv
  OM = require(Q + '../../../../immutable').OrderedMap
  G.setDict('/repo/src')
  const spec = S.load(DRV)
  const instr = spec.call('D_instr').toList().toArray().map(x => {
    const l = x.toList(), p = l.get(1).toList()
    return [l.get(0).toBool(), [p.get(0).toStr(), p.get(1).toStr()]]
  })
  const execs = (job.memory ? MEMORY : CONFIGS).map(c => new Exec(job.work, c, 'machine'))
  const r = RNG.make(`C19/${job.seed}/${job.worker}`)
  const st = stat0(), bads = []
  const begin = Date.now()
  while (Date.now() - begin < job.soft * 1000 && bads.length < 40) {
    const hs = []
    for (let i = 0; i < (job.memory ? 8 : 24); i++) hs.push(history(r, spec, instr, r.pick([6, 20, 60, 60, 150]), r.bool()))
    await judge(hs, execs, st, bads, job.memory ? 'C24' : 'C19')
  }
  for (const e of execs) e.close()
  process.send({ st, bads }, () => process.exit(0))
}

/* ---------------------------------------------------------- simulation -- */

function simulate(dir, k) {
  return new Promise(res => {
    const args = ['run', '--backend', 'typescript', '--main=machine256', 'machine.qnt', '--invariant=safe', '--mbt', '--verbosity=1',
      `--max-steps=${LIMIT.steps}`, `--max-samples=${LIMIT.samples}`, `--n-traces=${LIMIT.samples}`, '--seed', String(1000003 * C.SEED + k + 1), '--out-itf', path.join(dir, `p${k}_{seq}.json`)]
    const p = spawn('quint', args, { cwd: S.SPEC, stdio: ['ignore', 'pipe', 'pipe'] })
    let out = ''
    p.stdout.on('data', d => { out += d }); p.stderr.on('data', d => { out += d })
    const t = setTimeout(() => p.kill('SIGKILL'), LIMIT.sim * 1000)
    p.on('error', e => res({ code: -1, out: String(e) }))
    p.on('close', code => { clearTimeout(t); res({ code, out }) })
  })
}
function readTrace(file) {
  const j = JSON.parse(fs.readFileSync(file, 'utf8'))
  const big = x => BigInt(x['#bigint'] === undefined ? x : x['#bigint'])
  const v = (s, n) => s['machine256::machine::' + n] !== undefined ? s['machine256::machine::' + n] : s[n]
  const st = j.states
  const dbg = v(st[0], 'dbg')
  const start = v(st[0], 'r').map(big)
  const steps = st.slice(1).map(s => {
    const o = v(s, 'op')
    return { op: { fam: o.fam, e: o.e, s: o.s, d: Number(big(o.d)), a: Number(big(o.a)), b: Number(big(o.b)), n: big(o.n) }, tok: stateToken(itfToken(v(s, 'obs'), dbg), v(s, 'r').map(big)) }
  })
  return { start, steps, dbg }
}

function workers(job) {
  return Promise.all(Array.from({ length: WORKERS }, (_, worker) => new Promise((res, rej) => {
    const p = fork(__filename, ['worker'], { serialization: 'advanced', execArgv: ['--max-old-space-size=2500', '--stack-size=4000'] })
    let out = null
    p.on('message', m => { out = m })
    p.on('exit', c => (out ? res(out) : rej(new Error('worker ended with ' + c))))
    p.send(Object.assign({ worker, seed: C.SEED, work: C.WORK }, job))
  })))
}

async function main() {
  setTimeout(() => { console.log('ERROR: time limit'); process.exit(2) }, 850000).unref()
  C.build(['machine'])
  const built = Date.now()
  const dir = fs.mkdtempSync(path.join(os.tmpdir(), 'c19-'))
  const st = stat0(), bads = []
  let sim = 0
  try {
    const runs = await Promise.all(Array.from({ length: LIMIT.procs }, (_, k) => simulate(dir, k)))
    // what is wrong with the model is no violation of the code
    for (const r of runs) if (r.code !== 0) { console.log('ERROR: quint run: ' + r.out.slice(-1500)); process.exit(2) }
    const execs = CONFIGS.map(c => new Exec(C.WORK, c, 'machine'))
    const files = fs.readdirSync(dir).sort()
    for (let i = 0; i < files.length; i += 40) await judge(files.slice(i, i + 40).map(f => readTrace(path.join(dir, f))), execs, st, bads)
    sim = st.histories
    for (const e of execs) e.close()
  } finally { fs.rmSync(dir, { recursive: true, force: true }) }
  const simStates = st.states
  const outs = await workers({ soft: LIMIT.soft })
  for (const o of outs) {
    bads.push(...o.bads)
    for (const k of ['histories', 'states', 'transitions']) st[k] += o.st[k]
    st.hashes.push(...o.st.hashes); st.samples.push(...o.st.samples)
    for (const m of ['ops', 'outcomes']) for (const k in o.st[m]) st[m][k] = (st[m][k] || 0) + o.st[m][k]
  }
  const coverage = {
    states: st.states, transitions: st.transitions, traces_validated_against_impl: st.histories,
    samples: st.samples.slice(0, 8), distinct_histories: new Set(st.hashes).size,
    simulated_traces: sim, simulated_states: simStates, builds_per_history: 2,
    instructions_executed: st.ops, outcomes: st.outcomes,
    explanation: 'states and transitions are those of the Quint state machine visited by simulated traces (invariant `safe` checked in each) and by seeded histories (transition function `apply`); every history was executed by the two builds of its profile and all six registers and the outcome compared after every step.',
    build_s: Math.round((built - t0) / 100) / 10,
  }
  const rc = C.verdict('C19', bads, { property: 'C19', tier: C.TIER, seed: C.SEED, level: 'model_checking', coverage,
    assumptions: ['rustc 1.90.0 and clang 20 build the four configurations', 'the Quint evaluator implements its integer semantics'] }, t0)
  console.log(`C19: ${st.histories} histories (${sim} simulated), ${st.transitions} transitions, ${bads.length} divergences, ${(Date.now() - t0) / 1000 | 0} s`)
  process.exit(rc)
}

// Replays recorded histories: [{dbg, request, tokens}]
async function replay(list) {
  C.build(['machine'])
  const execs = CONFIGS.map(c => new Exec(C.WORK, c, 'machine'))
  let n = 0
  for (const h of list) {
    const steps = h.request.split(' ').slice(7).map((t, i) => { const f = t.split(':'); return { op: { fam: f[0], e: f[1], s: f[2] === '1', d: f[3], a: f[4], b: f[5], n: f[0] === 'Load' ? BigInt('0x' + f[6]) : f[6] }, tok: h.tokens[i] } })
    for (const e of execs.filter(e => e.cfg[2] === h.dbg)) {
      const d = diverges({ steps }, (await ask(e, [h.request], 60000))[0])
      if (d) { n++; console.log(`${e.cfg[0]} step ${d.step} ${d.entry}: expected ${d.expected}, got ${d.got}; request: ${h.request}`) }
    }
  }
  for (const e of execs) e.close()
  return n
}

if (require.main === module) {
  if (process.argv[2] === 'worker') process.once('message', job => work(job).catch(e => { console.error(e); process.exit(2) }))
  else main().catch(e => { console.error(e); process.exit(2) })
}
module.exports = { replay, workers }
