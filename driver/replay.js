// Replays the violations recorded by a check: node driver/replay.js FILE
'use strict'
const fs = require('fs'), { fork, spawnSync } = require('child_process'), path = require('path')
const C = require('./common.js'), FA = require('./fams.js')
const rec = JSON.parse(fs.readFileSync(process.argv[2], 'utf8'), (k, v) => (typeof v === 'string' && /^#-?\d+$/.test(v) ? BigInt(v.slice(1)) : v))
if (rec.property === 'C19') {
  const m = require('./machine.js')
  m.replay(rec.violations.map(v => v.history).filter(x => x)).then(n => {
    console.log(n ? `VIOLATION property=C19 replay=${process.argv[2]}` : 'no longer reproduced')
    process.exit(n ? 1 : 0)
  })
  return
}
const cases = [], seen = new Set()
for (const v of rec.violations) if (v.case && FA.F[v.case[0]] && !seen.has(v.request)) { seen.add(v.request); cases.push(v.case) }
if (!cases.length) { console.log('these violations are replayed by running the check again: node driver/check.js ' + rec.property); process.exit(0) }
const fams = [...new Set(cases.map(c => c[0]))]
C.build([...new Set(fams.map(f => FA.F[f].bin))])
void spawnSync
const p = fork(path.join(__dirname, 'worker.js'), { serialization: 'advanced', execArgv: ['--stack-size=4000'] })
p.on('message', ({ bads }) => {
  for (const b of bads) console.log(`${b.config} ${b.entry}: expected ${b.expected}, got ${b.got}; request: ${b.request}`)
  console.log(bads.length ? `VIOLATION property=${rec.property} replay=${process.argv[2]}` : 'no longer reproduced')
  process.exitCode = bads.length ? 1 : 0
})
p.send({ id: rec.property, fams, cases, worker: 0, workers: 1, seed: C.SEED, work: C.WORK, unit: 0, soft: 600, pairs: rec.property === 'C18', thin: 1 })
