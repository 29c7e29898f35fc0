'use strict';
const L = require('../engine/lib');
const { ClientWorld } = require('./client-world');
const { C, D, show } = L;
exports.technique = 'typestate analysis: abstract histories of fetches with every kind of response over the constructed client and a modelled storage';
exports.explanation =
  'The client is constructed abstractly over a modelled storage. Every sequence up to the bound of full fetches, keyed fetches and failing fetches, with symbolic variant values, is interpreted; after each step and while each request is in flight, the variants the client returns and the persisted copy must be exactly those the cache rules prescribe.';
const KEYS = ['a', 'b', 'c'];
exports.run = function (ck) {
  for (const source of ['localStorage', 'initialVariants'])
    for (const retry of source === 'localStorage' ? [false, true] : [false]) histories(ck, source, retry);
  storageFull(ck);
  ck.atLeast('cached variants are exactly those the history prescribes', 60);
};
const ops = (i, W) => {
  const v = (k, extra) => ({ key: W.sym('k' + k + i, D.S), value: W.sym('v' + k + i, D.S), payload: W.sym('p' + k + i, D.X), metadata: { deployed: W.sym('m' + k + i, D.T) }, ...extra });
  const out = (x) => ({ key: x.key, value: x.value, payload: x.payload, metadata: x.metadata });
  const a = v('a'), b = v('b'), c = v('c');
  const mk = (name, flagKeys, res, map) => ({ name, flagKeys, res, map });
  const o = (x) => Object.fromEntries(Object.entries(x).map(([k, y]) => [k, out(y)]));
  return [
    mk('full fetch of a,b', undefined, { a, b }, () => o({ a, b })),
    mk('full fetch of nothing', undefined, {}, () => ({})),
    mk('full fetch of c with empty options', null, { c }, () => o({ c })),
    mk('fetch with an empty key list of b', [], { b }, () => o({ b })),
    mk('fetch for key a returning a', ['a'], { a }, (m) => ({ ...m, ...o({ a }) })),
    mk('fetch for key a returning nothing', ['a'], {}, (m) => { const { a: _, ...r } = m; return r; }),
    mk('fetch for keys a,b returning b', ['a', 'b'], { b }, (m) => { const { a: _, ...r } = m; return { ...r, ...o({ b }) }; }),
    mk('fetch failing with a timeout', undefined, 'TimeoutError', (m) => m),
    mk('fetch failing with status 500', undefined, [500], (m) => m),
    mk('fetch for key a failing with status 400', ['a'], [400], (m) => m),
    mk('fetch failing with an unknown error', undefined, 'sym', (m) => m),
  ];
};
function histories(ck, source, retry) {
  const W = new ClientWorld(ck, {});
  const at = W.loc('fetch');
  const look = (w, what, map, key) => {
    for (const k of KEYS) for (const o of W.call(w.s, w.self, 'variant', [C(k)])) {
      const want = map[k] || {};
      ck.ob('cached variants are exactly those the history prescribes', o.kind === 'ret' && W.is(o.s, o.v, want) === true, { at, what: `${what}: variant ${k} is ${show(o.v, o.s).slice(0, 120)} ${map[k] ? 'instead of the cached one' : 'although none is cached'}`, key });
    }
  };
  const bound = retry ? 2 : ck.thorough ? 3 : 2;
  let work = W.client({ source, automaticExposureTracking: false, retryFetchOnFailure: retry, fetchTimeoutMillis: 1000 }).map((o) => ({ s: o.s, self: o.v, map: {}, seq: [] }));
  for (let d = 1; d <= bound; d++) {
    const next = [];
    for (const w of work) for (const op of ops(d, W)) {
      const seq = [...w.seq, op.name];
      const what = `${source}${retry ? ', retrying' : ''}: ${seq.join(', then ')}`;
      W.variants = (s) => {
        if (op.res === 'sym') return [W.sym('error', D.X), 'throw'];
        if (op.res === 'TimeoutError') { const [x, v] = W.err(s, 'TimeoutError', ['t']); Object.assign(s, x.clone()); return [v, 'throw']; }
        if (Array.isArray(op.res)) { const [x, v] = W.err(s, 'FetchError', [...op.res, 'm']); Object.assign(s, x.clone()); return [v, 'throw']; }
        return [op.res, 'ret'];
      };
      let seen = 0;
      W.during = (s) => { seen++; look({ s, self: w.self }, what + ' (request in flight)', w.map, 'inflight'); return [s]; };
      const map = op.map(w.map);
      const n = w.s.events().length;
      const fails = typeof op.res === 'string' || Array.isArray(op.res);
      for (const o of W.each([w], 'fetch', (s) => [W.val(s, { user_id: 'u' }), ...(op.flagKeys === undefined ? [] : [op.flagKeys === null ? W.val(s, {}) : W.val(s, { flagKeys: op.flagKeys })])])) {
        ck.ob('a fetch performs one request', seen > 0, { at, what: what + ': no request was sent', key: 'request' });
        look(o, what, map, fails ? 'failed' : op.flagKeys && op.flagKeys.length ? 'keyed' : 'full');
        const sets = o.s.events().slice(n).filter((e) => e.name === 'Storage.setItem');
        if (fails) ck.ob('a failed fetch writes nothing', !sets.length, { at: sets[0] ? sets[0].loc : at, what: `${what}: storage is written although the fetch failed`, key: 'write' });
        else {
          const last = sets[sets.length - 1];
          const p = last && W.parse(o.s, W.ctx(), last.args[1], W.cls);
          const okk = p && p.length && W.is(p[0][0], p[0][1], map) === true;
          ck.ob('the persisted variants equal the cached ones', okk, { at: last ? last.loc : at, what: `${what}: the persisted copy ${last ? 'is ' + show(p && p[0] ? p[0][1] : last.args[1], p && p[0] ? p[0][0] : o.s).slice(0, 160) : 'is not written'}`, key: 'persist' });
        }
        next.push({ s: o.s, self: w.self, map, seq });
      }
    }
    work = next;
  }
  ck.notes.push(`${source}${retry ? '/retry' : ''}: ${work.length} histories of length ${bound}`);
}
function storageFull(ck) {
  // the in-memory cache is updated even when nothing can be persisted
  const W = new ClientWorld(ck, { storage: (op, area, key) => (op === 'setItem' && /^amp-exp/.test(key) ? 'throw' : undefined) });
  const [o] = W.client({ automaticExposureTracking: false });
  const [op] = ops(1, W);
  W.variants = () => [op.res, 'ret'];
  for (const r of W.each([{ s: o.s, self: o.v }], 'fetch', (s) => [W.val(s, { user_id: 'u' })]))
    for (const k of ['a', 'b']) for (const q of W.call(r.s, o.v, 'variant', [C(k)])) ck.ob('cached variants are exactly those the history prescribes', q.kind === 'ret' && W.is(q.s, q.v, op.map({})[k]) === true, { at: W.loc('fetch'), what: `fetch with full storage: variant ${k} is not the fetched one`, key: 'full-storage' });
}
