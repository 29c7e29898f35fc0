'use strict';
// DESIGN.md = tools/design-head.md + generated tables (checks, seeded changes, findings) + tools/design-tail.md:  node tools/design.js
const fs = require('fs'), path = require('path');
const R = path.join(__dirname, '..'), read = (f) => fs.readFileSync(path.join(R, f), 'utf8');
const props = read('properties.jsonl').trim().split('\n').map((l) => JSON.parse(l));
let out = read('tools/design-head.md');
out += '\n## How each property is decided\n(generated from `checks/*.js` by `tools/design.js`; statements in `properties.jsonl`; coverage of a run in `evidence/<id>.json`)\n\n';
for (const p of props) {
  const f = path.join(R, 'checks', p.id + '.js');
  if (!fs.existsSync(f)) continue;
  const m = require(f);
  out += `* **${p.id} ${p.title}** — ${m.technique}. ${m.explanation}\n`;
}
out += read('tools/design-tail.md');
out += '\n## Planted changes and the checks that catch them\n(`seeded/<id>`; every one compiles, passes the stable tests and is shown by its demo.sh; `tools/seedtest.sh` confirms it)\n\n| change | property | what it breaks | caught by |\n|---|---|---|---|\n';
const res = fs.existsSync(path.join(R, 'tools/seed-results.json')) ? JSON.parse(read('tools/seed-results.json')) : {};
for (const d of fs.readdirSync(path.join(R, 'seeded')).sort()) {
  const f = path.join(R, 'seeded', d, 'meta.json');
  if (!fs.existsSync(f)) continue;
  const m = JSON.parse(fs.readFileSync(f, 'utf8'));
  out += `| ${d} | ${m.property} | ${m.what_it_breaks.trim()} (needs ${m.needs.trim()}) | ${res[d] || '?'} |\n`;
}
const kf = JSON.parse(read('known_findings.json'));
const L = kf[Object.keys(kf).find((k) => Array.isArray(kf[k]))];
out += '\n## Genuine defects found by the checks\nRepaired (`fix:` commits in /repo):\n\n';
for (const x of L.filter((x) => x.status !== 'open')) out += `* ${x.line.replace(/^fixed: /, '')}\n`;
out += '\nKnown findings, not repaired (the checks print KNOWN-FINDING and pass):\n\n';
for (const x of L.filter((x) => x.status === 'open')) out += `* ${x.property}: ${x.what}\n`;
out += read('tools/design-end.md');
fs.writeFileSync(path.join(R, 'DESIGN.md'), out);
console.log(out.length, 'characters');
