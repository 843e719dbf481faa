// Evaluates definitions of the Quint specification inside this process, with
// Quint's own parser, type checker and evaluator.
'use strict'
const show = x => JSON.stringify(x, (k, v) => typeof v === 'bigint' ? String(v) : v)
const fs = require('fs'), path = require('path')
const Q = (process.env.QUINT_DIST || '/opt/veriftools/quint/node_modules/@informalsystems/quint/dist/src') + '/'
const { parse } = require(Q + 'parsing/quintParserFrontend.js')
const { fileSourceResolver } = require(Q + 'parsing/sourceResolver.js')
const { newIdGenerator } = require(Q + 'idGenerator.js')
const { analyzeModules } = require(Q + 'quintAnalyzer.js')
const { Evaluator } = require(Q + 'runtime/impl/evaluator.js')
const { buildDef } = require(Q + 'runtime/impl/builder.js')
const { rv } = require(Q + 'runtime/impl/runtimeValue.js')
const { newRng } = require(Q + 'rng.js')
const { newTraceRecorder } = require(Q + 'runtime/trace.js')
const { List } = require(Q + '../../../../immutable')

const SPEC = process.env.SPEC_DIR || path.resolve(__dirname, '../spec')

// text: the source of a module called `drv`, as if it lay in spec/.
function load(text) {
  const gen = newIdGenerator(), sources = new Map()
  const main = fileSourceResolver(sources).lookupPath(SPEC, 'drv.qnt')
  const p = parse(gen, main.toSourceName(), main, text, sources)
  if (p.errors.length) throw new Error('spec: ' + show(p.errors.slice(0, 3)))
  const [errs] = analyzeModules(p.table, p.modules)
  if (errs.length) throw new Error('spec: ' + show(errs.slice(0, 3)))
  const rng = newRng(1n)
  const ev = new Evaluator(p.table, newTraceRecorder(0, rng), rng, false)
  const mod = p.modules.find(m => m.name === 'drv')
  const cache = new Map()
  return {
    // Applies definition `name` to runtime values.
    call(name, args) {
      let f = cache.get(name)
      if (!f) {
        const d = mod.declarations.find(d => d.name === name)
        if (!d) throw new Error('no definition ' + name)
        f = buildDef(ev.builder, d)
        cache.set(name, f)
      }
      const v = f(ev.ctx)
      if (v.isLeft()) throw new Error('spec: ' + name + ': ' + show(v.value))
      if (args === undefined) return v.value
      const r = v.value.toArrow()(ev.ctx, args)
      if (r.isLeft()) throw new Error('spec: ' + name + ': ' + show(r.value))
      return r.value
    },
  }
}

const int = n => rv.mkInt(n)
const bool = b => rv.mkBool(b)
const str = s => rv.mkStr(s)
const list = l => rv.mkList(l)
const tuple = l => rv.mkTuple(l)
const ints = l => rv.mkList(l.map(x => rv.mkInt(BigInt(x))))

// JSON-like view of a runtime value.
function js(v) {
  const c = v.constructor.name
  if (c === 'RuntimeValueInt') return v.toInt()
  if (c === 'RuntimeValueBool') return v.toBool()
  if (c === 'RuntimeValueStr') return v.toStr()
  if (c === 'RuntimeValueTupleOrList') return v.toList().toArray().map(js)
  if (c === 'RuntimeValueRecord') return Object.fromEntries(v.toOrderedMap().entrySeq().map(([k, x]) => [k, js(x)]).toArray())
  if (c === 'RuntimeValueVariant') return { tag: v.label, value: js(v.value) }
  if (c === 'RuntimeValueSet' || c === 'RuntimeValueInterval') return v.toSet().toArray().map(js)
  throw new Error('cannot convert ' + c)
}

const hex = n => n.toString(16)
const tf = b => (b ? 'T' : 'F')
const hx = l => 'X' + l.map(b => b.toString(16).padStart(2, '0')).join('')

// The token an executor must print for an outcome; `dbg` selects the profile.
// '*' means unspecified, a trailing '*' any suffix, a trailing '?' also an error.
function token(o, dbg) {
  const v = o.value
  switch (o.label) {
    case 'OI': return hex(v.toInt())
    case 'OB': return tf(v.toBool())
    case 'OIB': { const l = v.toList(); return hex(l.get(0).toInt()) + ',' + tf(l.get(1).toBool()) }
    case 'OII': { const l = v.toList(); return hex(l.get(0).toInt()) + ',' + hex(l.get(1).toInt()) }
    case 'OIIB': { const l = v.toList(); return hex(l.get(0).toInt()) + ',' + hex(l.get(1).toInt()) + ',' + tf(l.get(2).toBool()) }
    case 'ON': return 'N'
    case 'OP': return 'P'
    case 'OD': return dbg ? 'P' : hex(v.toInt())
    case 'OE': return 'E:' + v.toStr()
    case 'OX': return hx(v.toList().toArray().map(x => Number(x.toInt())))
    case 'OErr': return 'E*'
    case 'OMay': return hex(v.toInt()) + '?'
    case 'OAny': return '*'
  }
  throw new Error('unknown outcome ' + o.label)
}
// [[name, token with debug assertions, token without]]
function entries(v) {
  return v.toList().toArray().map(e => {
    const t = e.toList(), o = t.get(1)
    const d = token(o, true)
    return [t.get(0).toStr(), d, o.label === 'OD' ? token(o, false) : d]
  })
}

module.exports = { load, int, bool, str, list, tuple, ints, js, entries, token, SPEC }
