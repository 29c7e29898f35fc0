'use strict';
const { Lookups } = require('./lookup');
const { C, D, show } = require('../engine/lib');
exports.technique = 'abstract interpretation of all() on the constructed client for every content of the stores, flags and initial variants over a set of keys, with symbolic variant contents';
exports.explanation =
  'The client is constructed abstractly with one key per combination of flag kind, stored variant and initial variant (contents symbolic). The map returned by all() must hold, for each key, the evaluated variant of a local-evaluation flag, otherwise the variant of the primary source, otherwise the one of the secondary source, and no other key; calling it must change neither later lookups nor itself.';
const FLAG = ['none', 'local', 'localDefault', 'localNone', 'remote', 'plain', 'remoteDefault'];
exports.run = function (ck) {
  const W = new Lookups(ck, {});
  const at = W.loc('all');
  for (const source of ['localStorage', 'initialVariants', undefined]) for (const batch of [FLAG.slice(0, 4), FLAG.slice(4)]) {
    const keys = [];
    for (const flag of batch) for (const stored of [false, true]) for (const initial of [false, true]) keys.push({ k: `${flag}-${stored ? 's' : ''}${initial ? 'i' : ''}`, flag, stored, initial });
    const st = (k) => ({ key: W.sym('sk' + k, D.S), value: W.sym('sv' + k, D.S), metadata: { mark: W.sym('sm' + k, D.X) } });
    const iv = (k) => ({ key: W.sym('ik' + k, D.S), value: W.sym('iv' + k, D.S), metadata: { mark: W.sym('im' + k, D.X) } });
    const fl = (x) => { const f = W.flag(x.flag); return f && { ...f, key: x.k }; };
    let s = W.start();
    const flags = keys.map(fl).filter(Boolean);
    const j = W.stringify(s, W.val(s, flags));
    s = j[0];
    const cfg = { automaticExposureTracking: true, retryFetchOnFailure: false, initialFlags: j[1], initialVariants: Object.fromEntries(keys.filter((x) => x.initial).map((x) => [x.k, iv(x.k)])) };
    if (source) cfg.source = source;
    const want = {};
    for (const x of keys) {
      const ev = /^local/.test(x.flag) ? W.evaluated(x.flag) : undefined;
      const a = x.stored ? st(x.k) : undefined, b = x.initial ? iv(x.k) : undefined;
      const v = ev || (source === 'initialVariants' ? b || a : a || b);
      if (v) want[x.k] = v;
    }
    W.variants = () => [Object.fromEntries(keys.filter((x) => x.stored).map((x) => [x.k, st(x.k)])), 'ret'];
    for (const o of W.client(cfg, s)) for (const w of W.each([{ s: o.s, self: o.v }], 'fetch', (x) => [W.val(x, { user_id: 'u' })])) {
      const n = w.s.events().length;
      const check = (q, what) => {
        if (!ck.ob('listing never throws', q.kind === 'ret', { at: ck.loc(q.node) || at, what, key: 'throw' })) return;
        for (const x of keys) {
          const v = W.get(q.s, q.v, x.k);
          const r = x.flag.startsWith('local') && want[x.k] && !x.flag.endsWith('None') ? 'a local-evaluation flag lists its evaluated variant' : /^(remote|plain)/.test(x.flag) ? 'flags not evaluated locally never shadow other sources' : 'the primary source goes before the secondary one';
          ck.ob(r, (want[x.k] === undefined ? !v || W.is(q.s, v, undefined) === true : W.is(q.s, v, want[x.k]) === true), { at, what: `${what}: ${x.k} is ${v ? show(v, q.s).slice(0, 140) : 'missing'}; flag ${x.flag}, ${x.stored ? 'stored' : 'not stored'}, ${x.initial ? 'initial variant' : 'no initial variant'}`, key: `${source}:${x.flag}:${x.stored}:${x.initial}` });
        }
        ck.ob('exactly the known keys are listed', W.is(q.s, q.v, want) === true, { at, what: `${what}: keys differ`, key: 'keys' });
        ck.ob('listing emits nothing', q.s.events().length === n, { at: q.s.events()[n] && q.s.events()[n].loc, what: what + ': listing tracks or writes', key: 'effects' });
      };
      for (const q of W.call(w.s, w.self, 'all')) {
        check(q, `source=${source}`);
        // the returned map belongs to the caller
        let t = q.s.clone();
        for (const x of keys) t = W.set(t, q.v, x.k, 'overwritten');
        for (const q2 of W.call(t, w.self, 'all')) check(q2, `source=${source}, after the caller edited an earlier list`);
      }
    }
    // without a deployment key nothing is listed
    for (const o of W.client(cfg, s, '')) for (const q of W.call(o.s, o.v, 'all')) ck.ob('no variants without a deployment key', q.kind === 'ret' && W.is(q.s, q.v, {}) === true, { at, what: 'all() without deployment key lists something', key: 'nokey' });
  }
  ck.atLeast('a local-evaluation flag lists its evaluated variant', 20);
  ck.atLeast('flags not evaluated locally never shadow other sources', 20);
};
