'use strict';
const L = require('../engine/lib');
const { D, C, show, showFacts } = L;
const { S, Z, X } = D;
const { World } = require('./world');
exports.technique = 'abstract interpretation of version comparison over symbolic components; path facts evaluated against every ordering';
exports.explanation =
  'Two versions with symbolic number components and symbolic or absent pre-releases are constructed and compared abstractly. For every ordering of the four components (below, equal, above) and every path whose facts admit it, the sign of the result must be that of the first differing component, a release being above its pre-releases. Parsing is interpreted on every text up to a length over the character classes of the documented grammar and on a table of long numbers: the outcome must be no version, or the numbers of the text.';

exports.run = function (ck) {
  const W = new World(ck, 'SemanticVersion', 'experiment-core', { budget: ck.thorough ? 6e8 : 1e8 });
  const at = ck.loc(W.cls), NAMES = ['major', 'minor', 'patch', 'pre-release'];
  const s0 = W.start(), I = W.I;
  // ---- comparison
  for (const pre1 of [true, false]) for (const pre2 of [true, false]) {
    const H = [1, 2].map((i) => ['major', 'minor', 'patch'].map((n) => W.sym(n + i, X | Z)).concat((i === 1 ? pre1 : pre2) ? [W.sym('pre' + i, S)] : [L.UNDEF]));
    const side = new Map(H.flatMap((h, i) => h.map((v, j) => [v, [j, i]])));
    const outs = W.make(H[0], s0).flatMap((a) => W.make(H[1], a.s).flatMap((b) => W.invoke(b.s, a.v, 'compareTo', [b.v])));
    ck.ob('comparing never throws', outs.every((o) => o.kind === 'ret'), { at, what: 'comparing versions throws', key: 'throw' });
    const order = (t, ord) => { // undefined: not known; {n: sign}; {v: value}
      if (t.k === 'c') return { v: t.v };
      if (t.k !== 't') return undefined;
      if (t.op === 'not') { const x = order(t.args[0], ord); return x && { v: x.n !== undefined ? !x.n : !x.v }; }
      const rel = (a, b) => {
        const [p, q] = [side.get(a), side.get(b)];
        if (p && q) return p[0] !== q[0] ? undefined : p[1] === q[1] ? 0 : p[1] ? -ord[p[0]] : ord[p[0]];
        const num = (x) => { const r = side.has(x) ? undefined : order(x, ord); return r && (r.n !== undefined ? r.n : typeof r.v === 'number' ? r.v : undefined); };
        const [m, n] = [num(a), num(b)];
        return m === undefined || n === undefined || (m && n && a.k !== 'c' && Math.sign(m) === Math.sign(n)) ? undefined : Math.sign(m - n);
      };
      if (/^(lt|eq|looseeq)$/.test(t.op)) { const r = rel(...t.args); return r === undefined ? undefined : { v: t.op === 'lt' ? r < 0 : r === 0 }; }
      if (t.op === 'call' && /^Math.sign$/.test(t.args[0])) return order(t.args[1], ord);
      if (t.op === 'bin:-') { const r = rel(...t.args); return r === undefined ? undefined : { n: r }; }
      return undefined;
    };
    const free = (j) => (j < 3 || (pre1 && pre2) ? [-1, 0, 1] : [pre1 ? -1 : pre2 ? 1 : 0]);
    for (const a of free(0)) for (const b of free(1)) for (const c of free(2)) for (const d of free(3)) {
      const ord = [a, b, c, d], want = a || b || c || d;
      const name = ord.map((x, j) => `${NAMES[j]} ${['below', 'equal', 'above'][x + 1]}`).join(', ');
      let n = 0;
      for (const o of outs) {
        if (o.kind !== 'ret') continue;
        const zero = (v) => { const m = I.maskOf(o.s, v); return !(m & ~Z) ? 0 : !(m & Z) ? 1 : undefined; };
        if ([0, 1, 2].some((j) => { const [p, q] = [zero(H[0][j]), zero(H[1][j])]; return p !== undefined && q !== undefined && !(p && q) && Math.sign(p - q) !== ord[j]; })) continue;
        const bad = [...o.s.facts.values()].some((f) => {
          if (side.has(f.term)) return false;
          const r = order(f.term, ord);
          if (!r) return false;
          const truth = r.n !== undefined ? !!r.n : !!r.v;
          return truth ? !(f.mask & ~D.FALSY) : !(f.mask & D.FALSY);
        });
        if (bad) continue;
        n++;
        const r = order(o.v, ord), got = r && Math.sign(r.n !== undefined ? r.n : r.v);
        ck.ob('the first differing component decides', got === want, () => ({ at, what: `${name}: comparing gives ${show(o.v, o.s)} instead of ${want < 0 ? 'below' : want > 0 ? 'above' : 'equal'}`, key: name + pre1 + pre2, detail: showFacts(o.s) }));
      }
      ck.ob('every ordering is answered', n > 0, () => ({ at, what: `${name}: no path`, key: 'none' + name }));
    }
  }
  // ---- parsing
  const REF = /^(\d+)\.(\d+)(?:\.(\d+)(-(?:[-\w]+\.?)*)?)?$/;
  const texts = new Set([undefined, '', '9007199254740991.0.0', '1.2.3-rc.1', '1.2.3-rc.1+b', '10.20.30', '01.002.0003', 'v1.2.3', '1.2.3 ', ' 1.2.3', '1.2.3\n', '1.2.3-a..b', '1,2', '1.2.3.4', '1.2-a', '1e3.2', '0x1.2', '-1.2.3', '1.-2.3', '1.2.+3', '1.2.3-A_z-9.', '1.2.3-é', '١.٢.٣', '100.2.3-0', 'a.b.c', '1.2.', '.1.2', '1..2', '12.345.6789-alpha-beta.11']);
  const grow = (p, n) => { texts.add(p); if (n) for (const c of ['1', '0', '.', '-', 'b', ' ']) grow(p + c, n - 1); };
  grow('', ck.thorough ? 5 : 4);
  for (const p of ['1.0.', '1.0.2', '7.10.2-']) grow(p, ck.thorough ? 4 : 3);
  const self = D.CLS(W.cls), seen = new Set();
  for (const t of texts) {
    const m = t ? REF.exec(t) : null;
    const want = m && [Number(m[1]), Number(m[2]), Number(m[3] || 0), m[4] && m[4].replace(/^-(?=.)/, '')];
    for (const o of W.invoke(s0.clone(), self, 'parse', [C(t)])) {
      const got = o.kind !== 'ret' ? undefined : o.v === L.UNDEF ? null : ['major', 'minor', 'patch', 'preRelease'].map((k) => { const v = W.get(o.s, o.v, k), c = v && (v.k === 'c' ? v : I.constOf(o.s, v)); return c ? (k === 'preRelease' && typeof c.v === 'string' ? c.v.replace(/^-(?=.)/, '') : c.v) : '?'; });
      seen.add(!want ? 'none' : want[3] ? 'pre' : 'plain');
      ck.ob('a text is no version or its numbers', JSON.stringify(got) === JSON.stringify(want), () => ({ at, what: `${JSON.stringify(t)} is read as ${JSON.stringify(got)} instead of ${JSON.stringify(want)}`, key: 'parse' + t }));
    }
  }
  ck.ob('texts of every kind are read', seen.size === 3, { at, what: 'parsing', key: 'kinds' });
  ck.atLeast('the first differing component decides', 81);
};
