'use strict';
const { HttpWorld } = require('./client-world');
const { C, D, show } = require('../engine/lib');
exports.technique = 'abstract interpretation of every operation that sends something, for every source of cookies and client mode; every request, exposure and event at the boundary is searched for cookie data';
exports.explanation =
  'Cookie data, marked by a symbolic value, is given to the client by the explicit user, the provider, the integration and the page. Start, fetch, lookups, exposures, flag polls and retries are interpreted in feature and web mode with and without failures. No request and no tracked exposure may contain the marked data or the field, flag requests carry a user only in web mode and then only the two identifiers, while evaluation and the client itself keep the cookies and the rest of the user arrives complete.';
exports.run = function (ck) {
  clients(ck); provider(ck);
  ck.atLeast('no request contains cookie data', 200);
  ck.atLeast('evaluation sees the cookies', 20);
};
// does the value, looked through objects and encodings, contain the marker?
function contains(W, s, v, mark, seen = new Set()) {
  if (!v || !v.k || seen.has(v.id)) return false;
  seen.add(v.id);
  if (v === mark) return true;
  if (v.k === 'c') return typeof v.v === 'string' && v.v.includes('COOKIE');
  if (v.k === 't') return v.args.some((a) => (a && a.k ? contains(W, s, a, mark, seen) : typeof a === 'string' && a.includes('COOKIE')));
  if (v.k === 'o') {
    const o = s.heap.get(v.loc);
    return !!o && [...o.entries.flatMap((e) => (e.t === 'x' ? [] : [e.v, e.k && e.k.k ? e.k : undefined])), ...(o.elems || []), ...(o.dyn || [])].some((e) => contains(W, s, e, mark, seen));
  }
  return false;
}
const keysOf = (s, v) => { const o = v && v.k === 'o' && s.heap.get(v.loc); return o ? [...new Set(o.entries.filter((e) => e.t === 'p').map((e) => e.k))].sort() : []; };
function requests(ck, W, s, n, mark, web, what, full) {
  for (const { e, kind, headers } of W.requests(s, n)) {
    const at = e.loc;
    ck.ob('no request contains cookie data', !e.args.some((a) => contains(W, s, a, mark)), { at, what: `${what}: a ${kind} request contains cookie data: ${show(headers, s).slice(0, 300)}`, key: kind });
    const u = W.headerObject(s, e, 'X-Amp-Exp-User');
    if (kind === 'variants') {
      if (!ck.ob('the user of a fetch is sent', !!u, { at, what, key: 'user' })) continue;
      const ks = keysOf(u[0], u[1]);
      ck.ob('the cookie field is not sent', !ks.includes('cookie'), { at, what: `${what}: fields ${ks}`, key: 'field' });
      ck.ob('the other fields of the user are sent', full.every((k) => ks.includes(k)), { at, what: `${what}: fields ${ks} instead of ${full}`, key: 'rest' });
    } else {
      const ks = u ? keysOf(u[0], u[1]) : [];
      ck.ob('flag requests carry identifiers only, in web mode only', web ? ks.every((k) => ['user_id', 'device_id'].includes(k)) : !ks.length, { at, what: `${what}: fields ${ks}`, key: 'flags' });
    }
  }
}
function clients(ck) {
  const MARK = new Map();
  for (const web of [false, true]) for (const from of ['explicit', 'provider', 'integration', 'explicit and provider']) for (const bad of [undefined, 'fetch fails', 'flags fail']) for (const shape of ['object', 'empty', 'symbolic']) {
    let evaluated = 0, W, mark;
    const cookie = () => (shape === 'object' ? { session: mark, k: 'COOKIE' } : shape === 'empty' ? {} : mark);
    const gives = (n) => (from.includes(n) ? { cookie: cookie() } : {});
    W = new HttpWorld(ck, {
      callbacks: { provider: () => ({ device_id: 'd', ...gives('provider') }), integration: () => ({ os: 'o', ...gives('integration') }), plug: () => true, track: () => undefined },
      model: (I, s, ctx, info) => {
        if (info.name !== 'EvaluationEngine.evaluate' || !info.args[0]) return;
        evaluated++;
        const u = W.get(s, info.args[0], 'user');
        ck.ob('evaluation sees the cookies', W.is(s, W.get(s, u, 'cookie'), cookie()) === true, { at: ck.loc(info.node), what: `cookies from ${from}: evaluation has ${show(W.get(s, u, 'cookie'), s).slice(0, 80)}`, key: 'eval' });
      },
    });
    mark = W.sym('cookie', shape === 'symbolic' ? D.X : D.S);
    W.variants = () => (bad === 'fetch fails' ? [{}, 'throw'] : [{ f: { key: 'on', value: 'on' } }, 'ret']);
    W.flags = () => (bad === 'flags fail' ? [[{}, 'throw']] : [[[{ key: 'l', variants: {}, segments: [], metadata: { evaluationMode: 'local' } }], 'ret']]);
    const at = W.loc('fetch');
    const s0 = W.start();
    const cfg = { userProvider: { getUser: W.sym('provider', D.X) }, exposureTrackingProvider: { track: W.sym('track', D.X) }, ...(web ? { internalInstanceNameSuffix: 'web' } : {}) };
    for (const o of W.client(cfg, s0)) {
      const r = o.s.clone();
      for (const p of W.call(r, o.v, 'addPlugin', [W.val(r, { type: 'integration', getUser: W.sym('integration', D.X), track: W.sym('plug', D.X) })])) for (const op of ['start', 'fetch', 'setUser']) {
        const q = p.s.clone();
        const user = { user_id: 'u', user_properties: { a: 'b' }, ...gives('explicit') };
        for (const a of W.call(q, o.v, op, [W.val(q, user)])) {
          const what0 = `${web ? 'web' : 'feature'} client, cookies from ${from} (${shape}), ${bad || 'healthy'}, ${op}`;
          const done = (x, what) => {
            requests(ck, W, x, 0, mark, web, what, ['user_id', 'device_id', 'os', 'user_properties', 'library']);
            for (const e of x.events()) if (/^callback:(track|plug)$/.test(e.name)) ck.ob('no tracked exposure contains cookie data', !e.args.some((v) => contains(W, x, v, mark)), { at: e.loc, what: `${what}: ${show(e.args[0], x).slice(0, 200)}`, key: e.name });
            for (const g of W.call(x, o.v, 'getUser', [])) if (from.includes('explicit')) ck.ob('sending leaves the cookies of the user in place', W.is(g.s, W.get(g.s, g.v, 'cookie'), cookie()) === true, { at, what: `${what}: the user has ${show(W.get(g.s, g.v, 'cookie'), g.s).slice(0, 80)}`, key: 'kept' });
          };
          for (const b of W.call(a.s, o.v, 'exposure', [C('f')])) for (const d of W.call(b.s, o.v, 'all', [])) {
            done(d.s, what0);
            for (const t of W.timersOf(d.s)) for (const f of W.fire(d.s, t)) done(f.s, `${what0}, after a timer`);
            for (const f of W.call(d.s, o.v, 'fetch', [])) done(f.s, `${what0}, fetching again`);
          }
        }
      }
    }
    ck.ob('evaluation happens', evaluated > 0, { at, what: from, key: 'evaluated' });
  }
}
// the default provider collects the cookies of the page
function provider(ck) {
  const W = new HttpWorld(ck, {
    absent: ['navigator', 'location'], globals: ['document'],
    model: (I, s, ctx, info) => { if (/getResult$/.test(info.name)) { const r = s.clone(); return [[r, W.val(r, { browser: {}, os: {}, device: {} })]]; } },
  });
  W.variants = () => [{}, 'ret'];
  let s = W.start();
  const g = W.globalObject();
  s = W.set(s, g, 'document', { cookie: 'a=COOKIE; b=COOKIE2', referrer: 'https://ref.example/' });
  s = W.set(s, g, 'analyticsConnectorInstances', {});
  for (const x of W.load(s, 'experiment-browser/src/factory.ts')) for (const [y, f] of W.exported(x, 'initialize', 'experiment-browser/src/factory')) for (const web of [false, true]) {
    const r = y.clone();
    for (const c of W.callValue(r, f, [C('client-abcdef'), W.val(r, { httpClient: { request: W.sym('request', D.X) }, ...(web ? { internalInstanceNameSuffix: 'web' } : {}) })])) {
      const q = c.s.clone();
      for (const o of W.call(q, c.v, 'start', [W.val(q, { user_id: 'u' })])) {
        requests(ck, W, o.s, 0, C('COOKIE'), web, `page cookies, ${web ? 'web' : 'feature'} client`, ['user_id', 'platform', 'referring_url']);
        for (const p of W.call(o.s, c.v, 'getUserProvider', [])) for (const u of W.invoke(p.s, p.v, 'getUser')) ck.ob('the page cookies are available for targeting', W.is(u.s, W.get(u.s, u.v, 'cookie'), { a: 'COOKIE', b: 'COOKIE2' }) !== false && W.get(u.s, u.v, 'cookie') !== C(undefined), { at: W.loc('fetch'), what: `the provider has cookies ${show(W.get(u.s, u.v, 'cookie'), u.s).slice(0, 100)}`, key: 'provider' });
      }
    }
  }
}
