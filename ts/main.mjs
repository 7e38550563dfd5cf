// usage: node main.mjs -repo DIR -verif DIR -property ID|all
import { Checker } from './frame.mjs'
import { props } from './rules.mjs'

const arg = (n, d) => {
  const i = process.argv.indexOf('-' + n)
  return i > 0 ? process.argv[i + 1] : d
}
const repo = arg('repo', '/repo')
const verif = arg('verif', '/verif')
const id = arg('property', 'all')
let rc = 0
for (const p of id === 'all' ? Object.keys(props) : [id]) {
  const start = Date.now()
  const c = new Checker(p, repo)
  try {
    if (!props[p]) throw new Error('unknown property ' + p)
    props[p](c)
  } catch (e) {
    c.viol.push({ rule: 'internal', construct: p, where: e.where ?? '', msg: 'the analysis failed: ' + (e.stack ?? e.message ?? e), trace: [] })
  }
  if (c.finish(verif, start) !== 0) rc = 1
}
process.exit(rc)
