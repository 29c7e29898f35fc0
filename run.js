#!/usr/bin/env node
'use strict';
// node run.js <PROPERTY> [--tier quick|thorough]
const fs = require('fs');
const path = require('path');
const id = process.argv[2];
const ti = process.argv.indexOf('--tier');
const tier = ti > 0 ? process.argv[ti + 1] : process.env.VERIF_TIER || 'quick';
const t0 = Date.now();
const { Check, Anchor, Budget, REPO } = require('./engine/lib');
const file = fs.readdirSync(path.join(__dirname, 'checks')).find((f) => f.startsWith(id + '-') || f === id + '.js');
if (!file) { console.error('no check for ' + id); process.exit(2); }
const mod = require('./checks/' + file);
const ck = new Check(id, tier);
try {
  mod.run(ck);
} catch (e) {
  if (e instanceof Anchor) ck.ob('anchor', false, { what: e.message, key: e.message });
  else if (e instanceof Budget && ck.violations.length) ck.notes.push('stopped early: ' + e.message);
  else if (e instanceof Budget) { console.error(`ERROR property=${id} ${e.message}`); console.error(e.stack); process.exit(2); }
  else { console.error(e.stack); process.exit(2); }
}
const known = JSON.parse(fs.readFileSync(path.join(__dirname, 'known_findings.json'), 'utf8')).findings.filter((k) => k.property === id && k.status === 'open');
const hit = [], fresh = [];
for (const v of ck.violations) (known.some((k) => k.key === v.key) ? hit : fresh).push(v);
const ev = process.env.EVDIR || path.join(__dirname, 'evidence');
fs.mkdirSync(ev, { recursive: true });
const fns = new Set(), sites = new Set(), opaque = new Map();
let steps = 0, events = 0, widened = 0, joined = 0;
for (const I of ck.interps) {
  for (const f of I.fnsSeen) fns.add(f);
  for (const c of I.callSites) sites.add(c);
  for (const [k, n] of I.opaqueCalls) opaque.set(k, (opaque.get(k) || 0) + n);
  steps += I.steps; events += I.log.length; widened += I.widened; joined += I.joined || 0;
}
const rules = {};
let obligations = 0;
for (const [k, r] of ck.rules) { rules[k] = { obligations: r.n, discharged: r.ok }; obligations += r.n; }
const evidence = {
  property: id, tier, seed: Number(process.env.VERIF_SEED || 1), level: mod.level || 'other',
  coverage: {
    explanation: mod.explanation || mod.title,
    repository_files: ck.p.files.length,
    entry_points: [...ck.entries],
    functions_analysed: [...fns].map((f) => ck.p.fnName(f)).filter((n) => !/^<anon/.test(n)).sort(),
    function_contexts: fns.size, call_sites: sites.size, abstract_steps: steps, recorded_effects: events,
    widened_loops: widened, forced_joins: joined,
    boundary_calls: Object.fromEntries([...opaque].sort().slice(0, 120)),
    obligations, rules, notes: ck.notes,
  },
  wall_s: (Date.now() - t0) / 1000,
  violations: fresh.length,
};
if (ck.effects) evidence.coverage.effect_summaries = ck.effects;
if (hit.length) evidence.coverage.known_findings = hit.map((v) => v.key);
if (fresh.length) evidence.coverage.violation_list = fresh.map(({ detail, ...v }) => v);
fs.writeFileSync(path.join(ev, id + '.json'), JSON.stringify(evidence, null, 1));
const rp0 = path.join(ev, id + '.violations.txt');
if (!fresh.length && fs.existsSync(rp0)) fs.unlinkSync(rp0);
for (const v of hit) console.log(`KNOWN-FINDING: property=${id} ${known.find((k) => k.key === v.key).what}`);
if (fresh.length) {
  const rp = path.join(ev, id + '.violations.txt');
  fs.writeFileSync(rp, fresh.map((v) => `${v.rule}\n  at ${v.at}\n  ${v.what}\n  key ${v.key}\n${v.detail ? '  ' + v.detail + '\n' : ''}`).join('\n'));
  for (const v of fresh.slice(0, 12)) console.log(`  ${v.rule}: ${v.what} (${v.at})`);
  console.log(`VIOLATION property=${id} replay=${rp}`);
  process.exit(1);
}
console.log(`OK property=${id} obligations=${obligations} functions=${fns.size} steps=${steps} ${(Date.now() - t0) / 1000}s`);
