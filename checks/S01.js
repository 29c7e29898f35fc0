'use strict';
const { World } = require('./world');
const { C, D, UNDEF, show } = require('../engine/lib');
exports.technique = 'abstract interpretation of bounded histories of the plugin against a modelled analytics library, compared with a reference model';
exports.explanation =
  'The plugin is created for an instance, a page key and the default key, with and without set-up. Every sequence up to the bound of set-up, readiness, polling, tracking, reading the user and identity changes is interpreted. After every step: tracking succeeds exactly once the library is ready and then hands over the very event, and the user is the current one of the library or, before, of its storage.';
const ID = [{ id: 'u1', anonymousId: 'a1', traits: { p: 1 } }, { id: null, anonymousId: 'a2', traits: {} }];
const EVENTS = [
  { eventType: '$exposure', eventProperties: { flag_key: 'f', variant: 'on' } },
  { eventType: '$impression', eventProperties: { flag_key: 'g', metadata: { deliveryMethod: 'web', a: { b: [1] } } } },
  { eventType: 'custom', eventProperties: { flag_key: '', variant: '', experiment_key: null } },
  { eventType: '', eventProperties: {} },
];
const STORES = {
  empty: [{}, { user_id: undefined, device_id: undefined, user_properties: undefined }],
  full: [{ ajs_user_id: '"su"', ajs_anonymous_id: '"sa"', ajs_user_traits: '{"t":1}' }, { user_id: 'su', device_id: 'sa', user_properties: { t: 1 } }],
  nulls: [{ ajs_user_id: 'null', ajs_anonymous_id: '"sa"' }, { user_id: undefined, device_id: 'sa', user_properties: undefined }],
  malformed: [{ ajs_user_id: 'su', ajs_anonymous_id: '"sa"', ajs_user_traits: '{' }, { user_id: undefined, device_id: 'sa', user_properties: undefined }],
  'user only': [{ ajs_user_id: '"su"' }, { user_id: 'su', device_id: undefined, user_properties: undefined }],
  failing: [{}, { user_id: undefined, device_id: undefined, user_properties: undefined }],
};
exports.run = function (ck) {
  const mod = ck.p.sources.find((f) => /plugin-segment[/\\]src[/\\]plugin\.ts$/.test(f.fileName));
  if (!mod) throw new (require('../engine/lib').Anchor)('the segment plugin');
  let total = 0;
  for (const how of ['instance', 'key', 'default']) for (const skip of [false, true]) for (const page of how === 'instance' ? ['real'] : ['empty', 'snippet', 'real', 'nested']) for (const store of Object.keys(STORES)) {
    if (!ck.thorough && store !== 'full' && (page === 'nested' || (how !== 'default' && skip))) continue;
    let ident = ID[0];
    const fns = { ready: () => undefined, strack: () => undefined, suser: (w, s) => ({ id: w.sym('sid', D.X), anonymousId: w.sym('said', D.X), traits: w.sym('straits', D.X) }), sid: () => ident.id, said: () => ident.anonymousId, straits: () => ident.traits, init: () => undefined, done: () => undefined };
    const W = new World(ck, mod, '', { budget: ck.thorough ? 2e8 : 4e7, callbacks: fns, absent: ['experimentIntegration'], storage: () => (store === 'failing' ? 'throw' : undefined) });
    const at = ck.loc(mod);
    const key = how === 'key' ? 'asdf' : 'analytics';
    const g = W.globalObject();
    const lib = (s, initialized) => W.val(s, { initialized, initialize: W.sym('init', D.X), ready: W.sym('ready', D.X), user: W.sym('suser', D.X), track: W.sym('strack', D.X) });
    let s0 = W.start();
    for (const k of ['analytics', 'asdf']) s0 = W.set(s0, g, k, UNDEF);
    let real = lib(s0, false);
    if (page === 'snippet') s0 = W.set(s0, g, key, []);
    if (page === 'real' && how !== 'instance') s0 = W.set(s0, g, key, real);
    if (page === 'nested') s0 = W.set(s0, g, key, { instance: real });
    for (const [k, v] of Object.entries(STORES[store][0])) s0 = W.setStored(s0, 'local', k, C(v));
    const opts = { ...(how === 'instance' ? { instance: real } : how === 'key' ? { instanceKey: 'asdf' } : {}), ...(skip ? { skipSetup: true } : {}) };
    const isLib = page === 'real' || page === 'nested';
    const setting = `${how}${skip ? ', set-up skipped' : ''}, page ${page}, storage ${store}`;
    // functions the plugin registered for readiness: given to the library, or queued on the page stub
    const waiting = (s) => {
      const l = s.events().filter((e) => e.name === 'callback:ready').map((e) => e.args[0]);
      const t = W.get(s, g, key);
      const o = t && t.k === 'o' && s.heap.get(t.loc);
      if (o && o.kind === 'arr') for (const e of o.elems) { const q = e.k === 'o' && s.heap.get(e.loc); if (q && q.kind === 'arr' && W.is(s, q.elems[0], 'ready') === true) l.push(q.elems[1]); }
      return l;
    };
    const STEPS = {
      setup: (w) => (skip || w.m.setup ? null : W.invoke(w.s, w.self, 'setup', [W.val(w.s, {}), W.val(w.s, {})]).map((o) => ({ ...o, m: { ...w.m, setup: true, promise: o.v } }))),
      ready: (w) => {
        const l = waiting(w.s);
        if (!l.length || w.m.fired) return null;
        // the library replaces its stub before it plays the queue
        let s = w.s;
        if (!isLib) { const r = s.clone(); s = W.set(r, g, key, lib(r, true)); }
        return W.callValue(s, l[0], []).map((o) => ({ ...o, m: { ...w.m, ready: true, fired: true, init: w.m.init || !isLib } }));
      },
      // the library finishes loading without playing the queue of the stub (npm installation)
      init: (w) => {
        if (w.m.init) return null;
        const r = w.s.clone();
        const list = isLib ? [W.set(r, real, 'initialized', true)] : [W.set(r, g, key, lib(r, true))];
        return list.map((s) => ({ s, kind: 'ret', m: { ...w.m, init: true } }));
      },
      poll: (w) => { const l = W.timersOf(w.s).filter((t) => t.kind === 'setInterval'); return !l.length ? null : W.fire(w.s, l[0]).map((o) => ({ ...o, m: { ...w.m, ready: w.m.ready || w.m.init } })); },
      track: (w) => { const r = w.s.clone(); const e = EVENTS[w.hist.length % EVENTS.length]; const n = r.events().length; return W.invoke(r, w.self, 'track', [W.val(r, e)]).map((o) => ({ ...o, m: w.m, judge: (what) => {
        const ev = o.s.events().slice(n).filter((e) => e.name === 'callback:strack');
        if (!w.m.ready) {
          ck.ob('tracking is refused until the library is ready', !ev.length && W.is(o.s, o.v, false) === true, { at, what: `${what}: ${show(o.v, o.s)}, ${ev.length} handed over`, key: 'early' });
        } else {
          ck.ob('once ready, every event is handed over and reported as such', ev.length === 1 && W.is(o.s, o.v, true) === true, { at, what: `${what}: ${show(o.v, o.s)}, ${ev.length} handed over`, key: 'late' });
          for (const x of ev) ck.ob('the event is handed over with its type and properties unchanged', W.is(o.s, x.args[0], e.eventType) === true && W.is(o.s, x.args[1], e.eventProperties) === true, { at: x.loc || at, what: `${what}: ${x.args.map((a) => show(a, o.s).slice(0, 80))}`, key: 'event' });
        }
      } })); },
      user: (w) => W.invoke(w.s, w.self, 'getUser', []).map((o) => ({ ...o, m: w.m, judge: (what) => {
        const i = ID[w.m.id];
        const want = w.m.ready ? { user_id: i.id, device_id: i.anonymousId, user_properties: i.traits } : STORES[store][1];
        ck.ob('the user is the current one of the library', W.is(o.s, o.v, want) === true, { at, what: `${what}: ${show(o.v, o.s).slice(0, 140)} instead of ${JSON.stringify(want)}`, key: w.m.ready ? 'user' : 'stored-user' });
      } })),
      identify: (w) => (w.m.id ? null : [{ s: w.s, kind: 'ret', m: { ...w.m, id: 1 } }]),
    };
    const depth = ck.thorough ? 6 : store === 'full' ? 5 : 4;
    let work = [];
    for (const [s, f] of W.exported(s0, 'segmentIntegrationPlugin', 'plugin-segment')) {
      const r = s.clone();
      for (const o of W.callValue(r, f, how === 'default' && !skip ? [] : [W.val(r, opts)])) {
        if (!ck.ob('the plugin never fails', o.kind === 'ret', { at: ck.loc(o.node) || at, what: `${setting}: creating it fails`, key: 'throw' })) continue;
        const st = W.get(o.s, o.v, 'setup');
        ck.ob('set-up is offered unless skipped', skip ? !st || !(W.I.maskOf(o.s, st) & D.TRUTHY) : !!st && !(W.I.maskOf(o.s, st) & D.FALSY), { at, what: setting, key: 'setup' });
        if (skip) ck.ob('a plugin without set-up asks the library for readiness', waiting(o.s).length > 0, { at, what: `${setting}: nothing is registered with the library, so tracking stays refused for ever`, key: 'asks' });
        work.push({ s: o.s, self: o.v, m: { ready: false, init: false, id: 0 }, hist: [] });
      }
    }
    ck.ob('the plugin can be created', work.length === 1, { at, what: `${setting}: ${work.length} outcomes`, key: 'create' });
    for (let d = 0; d < depth; d++) {
      const next = [];
      for (const w of work) for (const [name, f] of Object.entries(STEPS)) {
        const last = w.hist[w.hist.length - 1];
        if (last === name && name !== 'track') continue;
        ident = ID[w.m.id];
        const res = f(w);
        if (!res) continue;
        const hist = [...w.hist, name];
        const what = `${setting}: ${hist.join(', ')}`;
        total++;
        ck.ob('every history has a single outcome', res.length === 1, { at, what: `${what}: ${res.length} outcomes`, key: 'one' });
        for (const o of res) {
          if (!ck.ob('the plugin never fails', o.kind === 'ret', { at: ck.loc(o.node) || at, what: `${what} fails`, key: 'throw' })) continue;
          if (o.judge) o.judge(what);
          // waiting for the set-up ends exactly when the library is ready
          if (o.m.promise) {
            const n = o.s.events().length;
            for (const q of W.invoke(o.s, o.m.promise, 'then', [W.sym('done', D.X)])) {
              const done = q.s.events().slice(n).some((e) => e.name === 'callback:done');
              ck.ob('set-up completes exactly when the library is ready', done === o.m.ready, { at, what: `${what}: ${done ? 'complete' : 'waiting'} while ${o.m.ready ? '' : 'not '}ready`, key: 'wait' });
            }
          }
          next.push({ s: o.s, self: w.self, m: o.m, hist });
        }
      }
      work = next;
    }
  }
  ck.notes.push(`${total} steps of plugin histories`);
  ck.atLeast('once ready, every event is handed over and reported as such', 20);
};
