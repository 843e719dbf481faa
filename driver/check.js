// Conformance check of one property: node driver/check.js C01
'use strict'
const path = require('path'), { fork } = require('child_process')
const C = require('./common.js'), FA = require('./fams.js'), G = require('./gen.js'), MO = require('./model.js'), PA = require('./paths.js'), PR = require('./prove.js')
const t0 = Date.now()
const id = process.argv[2]
const WORKERS = 8

// Random cases per unit are thousands; seconds are a soft limit on comparing.
const QUICK = { unit: 100000, soft: 90, stride: 4 }, THOROUGH = { unit: 3000000, soft: 350, stride: 1 }

function fan(job) {
  return Promise.all(Array.from({ length: WORKERS }, (_, worker) => new Promise((res, rej) => {
    const p = fork(path.join(__dirname, 'worker.js'), { serialization: 'advanced', execArgv: ['--max-old-space-size=3000', '--stack-size=4000'] })
    let out = null
    p.on('message', m => { out = m })
    p.on('exit', c => (out ? res(out) : rej(new Error('worker ended with ' + c))))
    p.send(Object.assign({ worker, workers: WORKERS }, job))
  })))
}

async function conformance(opt = {}) {
  const plan = opt.pairs || opt.memory ? null : G.PLANS[id]
  const fams = !plan ? [...new Set(Object.values(G.PLANS).flatMap(p => p.fams))] : plan.fams
  const lim = C.TIER === 'thorough' ? THOROUGH : QUICK
  const laws = MO.BY[id] || []
  const [model] = await Promise.all([
    MO.check(laws, { stride: lim.stride, offset: C.SEED, workers: C.TIER === 'thorough' ? 8 : 4 }),
    C.buildAsync([...new Set(fams.map(f => FA.F[f].bin)), ...(opt.memory ? ['machine'] : [])], opt.memory ? 'memory' : ''),
  ])
  for (const n in model) if (model[n].failures.length) {
    // the specification contradicts itself: an error of this check, not a violation
    console.log('ERROR: law ' + n + ' fails at ' + JSON.stringify(model[n].failures)); process.exit(2)
  }
  const proofs = C.TIER === 'thorough' && PR.BY[id] ? await PR.prove(PR.BY[id], { parallel: 7, total: 390 }) : undefined
  for (const n in proofs) if (proofs[n] === 'refuted') { console.log('ERROR: lemma ' + n + ' is refuted'); process.exit(2) }
  const built = Date.now()
  const outs = await fan({ id, fams, seed: C.SEED, work: C.WORK, unit: lim.unit, soft: opt.pairs ? Math.max(lim.soft, 200) : opt.memory ? Math.max(lim.soft, 140) : lim.soft, pairs: !!opt.pairs, memory: !!opt.memory, thin: C.TIER === 'thorough' || opt.pairs ? 1 : 8 })
  const hist = opt.memory ? await require('./machine.js').workers({ soft: lim.soft / 3, memory: true }) : []
  const bads = outs.concat(hist).flatMap(o => o.bads)
  const sum = {}, perFam = {}, outcomes = {}, all = new Set()
  let evaluations = 0, entries = 0, cut = false, specCalls = 0
  for (const { stat } of outs) {
    evaluations += stat.evaluations; entries += stat.entries; specCalls += stat.specCalls; cut = cut || stat.cut
    for (const k in stat.perFam) perFam[k] = (perFam[k] || 0) + stat.perFam[k]
    for (const k in stat.outcomes) outcomes[k] = (outcomes[k] || 0) + stat.outcomes[k]
    for (const h of stat.hashes) all.add(h)
  }
  Object.assign(sum, {
    evaluations, distinct_nontrivial: all.size,
    rule: 'A case is one request of a family of the specification (structured enumeration plus seeded random arguments, see driver/gen.js), executed by ' + (opt.memory ? 'three builds in which an undefined memory access or a reached unreachable hint ends the process (AddressSanitizer with run-time checks; native and LLVM under valgrind)' : 'the four builds (native/LLVM x debug/release)') +
      (opt.pairs ? ' and compared between them' : ' and compared with the outcomes the Quint definition gives for the same arguments') +
      '. Distinct by request; non-trivial when some argument is other than 0, 1 or empty.',
    samples: outs.flatMap(o => o.stat.samples).slice(0, 12),
    builds: opt.memory ? 3 : 4, specification_evaluations: specCalls, outcomes_compared_per_build: entries, cases_per_family: perFam, expected_outcomes: outcomes, cut_by_time_limit: cut,
    model_laws: Object.fromEntries(Object.keys(model).map(n => [n, model[n].points + ' points'])),
    lemmas_at_256_bits: proofs,
    histories: opt.memory ? hist.reduce((n, o) => n + o.st.histories, 0) : undefined, history_transitions: opt.memory ? hist.reduce((n, o) => n + o.st.transitions, 0) : undefined,
    limb_routes: plan && plan.routes ? PA.routes(plan.routes) : undefined,
    build_and_model_s: Math.round((built - t0) / 100) / 10,
  })
  return { bads, coverage: sum }
}

async function main() {
  setTimeout(() => { console.log('ERROR: time limit'); process.exit(2) }, 850000).unref()
  let bads = [], coverage = {}
  if (!G.PLANS[id] && id !== 'C18' && id !== 'C24') { console.log('no such check: ' + id); process.exit(2) }
  const extra = id === 'C14' ? require('./literals.js') : null
  if (extra) { bads = bads.concat(extra.run(coverage)) }
  const r = await conformance({ pairs: id === 'C18', memory: id === 'C24' })
  bads = bads.concat(r.bads)
  Object.assign(coverage, r.coverage)
  const rc = C.verdict(id, bads, {
    property: id, tier: C.TIER, seed: C.SEED, level: 'exploration', coverage,
    assumptions: ['rustc 1.90.0 and clang 20 build the four configurations', 'the Quint evaluator implements its integer semantics'],
  }, t0)
  console.log(`${id}: ${coverage.evaluations} cases x ${coverage.builds} builds, ${coverage.distinct_nontrivial} distinct, ${bads.length} mismatches, ${(Date.now() - t0) / 1000 | 0} s${coverage.cut_by_time_limit ? ' (cut)' : ''}`)
  process.exit(rc)
}
main().catch(e => { console.error(e); process.exit(2) })
