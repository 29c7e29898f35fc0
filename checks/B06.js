'use strict';
const { HttpWorld } = require('./client-world');
const { C, D, show } = require('../engine/lib');
exports.technique = 'abstract interpretation of histories of two clients over one modelled browser storage, for every pair of instance name, deployment and client kind';
exports.explanation =
  'For every pair of client identities: the first client fetches variants, loads flags and sets an option, the second is created over the same storage, shows nothing of the first, does the same with other data, and both are created again as after a reload. Each must show exactly its own data, every stored name must be used by one identity and one kind of data only, and clearing one must leave the other. Queued exposures and the session record are compared between instances.';
exports.run = function (ck) {
  pairs(ck); tracking(ck);
  ck.atLeast('a client shows only its own data', 100);
};
const DATA = { // what client n stores
  variants: (n) => ({ ['v' + n]: { key: 'on' + n, value: 'on' + n } }),
  flags: (n) => [{ key: 'f' + n, variants: { x: { key: 'x' + n, value: 'x' + n } }, segments: [{ variant: 'x' }], metadata: { evaluationMode: 'local' } }],
};
function pairs(ck) {
  const ids = [];
  for (const instanceName of ck.thorough ? [undefined, 'A', 'B', 'a'] : [undefined, 'A', 'a']) for (const key of ['client-aaaaaa', 'client-bbbbbb', 'client-xaaaaab']) for (const web of [false, true]) if (!(web && key === 'client-xaaaaab')) ids.push({ instanceName, key, web });
  const W = new HttpWorld(ck, { absent: ['location'], budget: ck.thorough ? 1e8 : 3e7 });
  const at = W.loc('start');
  const name = (i) => `${i.web ? 'web' : 'feature'} client ${i.key} of instance ${i.instanceName || 'default'}`;
  const make = (s, i) => { const cfg = { pollOnStart: false, automaticExposureTracking: false }; if (i.instanceName) cfg.instanceName = i.instanceName; if (i.web) cfg.internalInstanceNameSuffix = 'web'; return W.client(cfg, s, i.key); };
  const one = (list, what) => { ck.ob('every history has a single outcome', list.length === 1 && list[0].kind === 'ret', { at, what: `${what}: ${list.map((x) => x.kind)}`, key: 'one' }); return list.find((x) => x.kind === 'ret'); };
  const serve = (n) => { W.variants = () => [DATA.variants(n), 'ret']; W.flags = () => [[DATA.flags(n), 'ret']]; };
  const fill = (s, self, n) => {
    serve(n);
    const a = one(W.call(s, self, 'setTracksAssignment', [C(n === 1)]), 'setTracksAssignment');
    const r = a.s.clone();
    const b = a && one(W.call(r, self, 'start', [W.val(r, { user_id: 'u' + n })]), 'start');
    return b && b.s;
  };
  const shown = (s, self) => {
    const a = one(W.call(s, self, 'all', []), 'all');
    const o = a.v.k === 'o' ? a.s.heap.get(a.v.loc) : { entries: [] };
    const keys = [...new Set(o.entries.filter((e) => e.t === 'p').map((e) => e.k))].sort().join();
    // the remembered option shows in the next request
    const n = a.s.events().length;
    W.variants = () => [{}, 'throw'];
    const r = a.s.clone();
    const f = W.call(r, self, 'fetch', [W.val(r, { user_id: 'u' })])[0];
    const h = W.requests(f.s, n).filter((q) => q.kind === 'variants')[0];
    const t = h && W.get(f.s, h.headers, 'X-Amp-Exp-Track');
    return { keys, track: t && t.k === 'c' ? t.v : '?' };
  };
  const own = (n) => ({ keys: ['f' + n, 'v' + n].sort().join(), track: n === 1 ? 'track' : 'no-track' });
  const eq = (a, b) => a.keys === b.keys && a.track === b.track;
  const str = (x) => `variants [${x.keys}], tracking ${x.track}`;
  const rule = 'a client shows only its own data';
  ids.forEach((a, ai) => ids.forEach((b, bi) => {
    const what = `${name(a)}, then ${name(b)}`;
    const same = a === b;
    const c1 = one(make(W.start(), a), what);
    if (!c1) return;
    let s = fill(c1.s, c1.v, 1);
    const keys1 = new Map(['local', 'session'].map((x) => [x, W.storedKeys(s, x)]));
    ck.ob('a client persists its data', [...keys1.values()].flat().length >= 3, { at, what: `${name(a)} stores ${[...keys1.values()].flat()}`, key: 'persist' });
    ck.ob('web experiment data lives for the session, feature data in local storage', !keys1.get(a.web ? 'local' : 'session').some((k) => k.startsWith('amp-exp')), { at, what: `${name(a)} stores ${[...keys1].map(([x, k]) => x + ': ' + k)}`, key: 'area' });
    const c2 = one(make(s, b), what);
    if (!c2) return;
    const e2 = shown(c2.s, c2.v);
    const want2 = same ? own(1) : { keys: '', track: undefined };
    ck.ob(same ? 'a client finds its own data again' : rule, eq(e2, want2), { at, what: `${what}: the new client shows ${str(e2)}`, key: same ? 'reload' : 'see' });
    if (same) return;
    s = fill(c2.s, c2.v, 2);
    const mine = (x) => W.storedKeys(s, x).filter((k) => !keys1.get(x).includes(k));
    ck.ob('the second client persists under its own names', mine('local').length + mine('session').length >= 3, { at, what: `${what}: new names ${[...mine('local'), ...mine('session')]}`, key: 'names' });
    const re1 = one(make(s, a), what), re2 = one(make(s, b), what);
    for (const [c, n] of [[re1, 1], [re2, 2]]) { const e = shown(c.s, c.v); ck.ob('a client finds its own data again', eq(e, own(n)), { at, what: `${what}, reloaded: client ${n} shows ${str(e)}`, key: 'reload' }); }
    const live = shown(s, c1.v);
    ck.ob(rule, eq(live, own(1)), { at, what: `${what}: the first client then shows ${str(live)}`, key: 'live' });
    for (const q of W.call(s, c2.v, 'clear', [])) {
      const c = one(make(q.s, a), what);
      const e = shown(c.s, c.v);
      ck.ob('clearing one client leaves the other', eq(e, own(1)), { at: W.loc('clear'), what: `${what}, second cleared: client 1 shows ${str(e)}`, key: 'clear' });
    }
  }));
}
// queued exposures and the session record belong to an instance
function tracking(ck) {
  const W = new HttpWorld(ck, { absent: ['location'], callbacks: { plug1: () => true, plug2: () => true, gu: () => ({}) } });
  const at = W.loc('exposure');
  W.variants = () => [{ f: { key: 'on', value: 'on' } }, 'ret'];
  for (const u of [{ user_id: 'u' }, { device_id: 'd' }, {}]) for (const n1 of [undefined, 'A', 'B']) for (const n2 of [undefined, 'A', 'B', 'A-B']) {
    const cfg = (n) => ({ automaticExposureTracking: false, ...(n ? { instanceName: n } : {}) });
    for (const a of W.client(cfg(n1), W.start())) for (const f of W.call(a.s, a.v, 'fetch', [W.val(a.s, u)])) for (const x of W.call(f.s, a.v, 'exposure', [C('f')])) for (const b of W.client(cfg(n2), x.s, 'client-zzzzzz')) {
      const r = b.s.clone();
      const n = r.events().length;
      for (const p of W.call(r, b.v, 'addPlugin', [W.val(r, { type: 'integration', getUser: W.sym('gu', D.X), track: W.sym('plug2', D.X) })])) {
        const got = p.s.events().slice(n).filter((e) => e.name === 'callback:plug2').length;
        ck.ob('queued exposures belong to an instance', got === (n1 === n2 ? 1 : 0), { at, what: `queued by instance ${n1}, integration of instance ${n2}: ${got} delivered`, key: 'queue' });
        const q = p.s.clone();
        for (const g of W.call(q, b.v, 'fetch', [W.val(q, u)])) {
          const m = g.s.events().length;
          for (const y of W.call(g.s, b.v, 'exposure', [C('f')])) {
            const k = y.s.events().slice(m).filter((e) => e.name === 'callback:plug2').length;
            if (n1 !== n2) ck.ob('the session record belongs to an instance', k === 1, { at, what: `tracked by instance ${n1}, then by instance ${n2}: ${k} delivered`, key: 'dedupe' });
          }
        }
      }
    }
  }
}
