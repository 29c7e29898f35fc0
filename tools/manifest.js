'use strict';
// Regenerates MANIFEST.json from checks/ and properties.jsonl:  node tools/manifest.js
const fs = require('fs');
const path = require('path');
const root = path.join(__dirname, '..');
const props = fs.readFileSync(path.join(root, 'properties.jsonl'), 'utf8').trim().split('\n').map((l) => JSON.parse(l));
const NA = {
  N01: 'A statement about 32-bit arithmetic results for all strings: no static rule over the source decides that a mixing function computes the reference values; only executing or solving it would.',
  N03: 'A real-time statement about timers on the host; static analysis sees no clock (the attempt bound and single-sequence rule are checked in B12).',
};
const files = fs.readdirSync(path.join(root, 'checks'));
const checks = [], na = [];
for (const p of props) {
  const f = files.find((x) => x === p.id + '.js' || x.startsWith(p.id + '-'));
  if (!f) { na.push({ property: p.id, reason: NA[p.id] || 'No static check has been built for it in this version.' }); continue; }
  const m = require('../checks/' + f);
  checks.push({
    property: p.id,
    quick_cmd: `node run.js ${p.id} --tier quick`,
    thorough_cmd: `node run.js ${p.id} --tier thorough`,
    technique: m.technique || 'interprocedural abstract interpretation of the type-checked source (path-partitioned dataflow with provenance)',
    level: 'other',
    level_note: m.level_note || 'Static, all paths of the analysed functions within the boundaries listed in the evidence; trusts the TypeScript type checker and the models of built-ins in engine/.',
  });
}
fs.writeFileSync(path.join(root, 'MANIFEST.json'), JSON.stringify({
  version: 1,
  setup_cmd: 'node -e "require(\'./engine/program\').getProgram()"',
  checks, not_applicable: na,
  notes: 'Every check parses and type-checks /repo/packages/*/src afresh on each run; nothing is cached and nothing in /repo is executed or written.',
}, null, 1) + '\n');
console.log(checks.length, 'claimed;', na.map((x) => x.property).join(' '));
