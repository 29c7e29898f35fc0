'use strict';
const { World } = require('./world');
const { HttpWorld } = require('./client-world');
const { C, D, UNDEF, term, show } = require('../engine/lib');
exports.technique = 'bounded enumeration of abstract histories of the exposure queue, the session records and the integration manager against a reference model';
exports.explanation =
  'Every sequence up to the bound of tracking, connecting, integration answers (accept, refuse, accept some, fail), timers and reloads is interpreted on the exposure queue and compared after each step with a reference queue: what was delivered, in which order, and what is persisted. The session records are interpreted for every sequence of exposures, variants and users. The manager and the client are interpreted with integrations that set up at once, later or fail.';
exports.run = function (ck) {
  queue(ck); bound(ck); dedupe(ck); tracker(ck); legacy(ck); manager(ck);
};
const NAME = 'inst';
// ---- the persistent queue ---------------------------------------------------------------
function queue(ck) {
  const MAX = 2;
  const MODES = ['all', 'none', 'one', 'throw'];
  for (const storage of ['healthy', 'unavailable']) {
    let mode = 'all', base = 0;
    const W = new World(ck, 'PersistentTrackingQueue', 'experiment-browser', {
      budget: ck.thorough ? 2e8 : 4e7,
      storage: () => (storage === 'healthy' ? undefined : 'throw'),
      callbacks: { tr: (w, s) => { const k = s.events().slice(base).filter((e) => e.name === 'callback:tr').length; return mode === 'throw' ? { throws: 'broken' } : mode === 'all' || (mode === 'one' && k <= 1); } },
    });
    const at = W.loc('push');
    const make = (s) => W.make([C(NAME), C(MAX)], s);
    const tr = W.sym('tr', D.X);
    // reference: {q, stored, ready}
    const flush = (m) => {
      if (!m.ready) return [];
      const d = [];
      if (m.mode === 'throw' && m.q.length) d.push(m.q[0]);
      else if (m.mode === 'none' && m.q.length) d.push(m.q[0]);
      else if (m.mode === 'one') { d.push(...m.q.slice(0, 2)); m.q = m.q.slice(1); }
      else if (m.mode === 'all') { d.push(...m.q); m.q = []; }
      return d;
    };
    const trim = (m) => { m.q = m.q.slice(Math.max(0, m.q.length - MAX)); };
    const STEPS = [
      ['push', (w) => { const r = w.s.clone(); const id = 'e' + (++w.m.n); w.m.q.push(id); const d = flush(w.m); trim(w.m); return [W.call(r, w.self, 'push', [W.val(r, { eventType: id, eventProperties: { flag_key: id } })]), d]; }],
      ['connect', (w) => { w.m.ready = true; const d = flush(w.m); trim(w.m); return [W.call(w.s, w.self, 'setTracker', [tr]), d]; }],
      ['timer', (w) => { const t = W.timersOf(w.s); if (!t.length || w.m.noTimers) return null; const d = flush(w.m); trim(w.m); return [W.fire(w.s, t[t.length - 1]), d]; }],
      ['reload', (w) => { w.m.ready = false; w.m.noTimers = true; if (storage !== 'healthy') w.m.q = []; return [make(w.s).map((o) => ({ ...o, self: o.v })), []]; }],
      ['another page queues one', (w) => {
        if (storage !== 'healthy' || w.m.other) return null;
        const id = 'o' + (++w.m.n);
        w.m.other = true;
        w.m.q.push(id); trim(w.m);
        const r = W.setStored(w.s, 'local', 'EXP_unsent_' + NAME, C(JSON.stringify(w.m.q.map((x) => ({ eventType: x, eventProperties: { flag_key: x } })))));
        return [[{ s: r, kind: 'ret' }], []];
      }],
      ...MODES.map((x) => ['integration: ' + x, (w) => { if (w.m.mode === x) return null; w.m.mode = x; return [[{ s: w.s, kind: 'ret' }], []]; }]),
    ];
    const depth = ck.thorough ? 6 : 5;
    let work = make(W.start()).map((o) => ({ s: o.s, self: o.v, m: { q: [], ready: false, n: 0, mode: 'all', noTimers: false }, hist: [] }));
    let total = 0;
    for (let d = 0; d < depth; d++) {
      const next = [];
      for (const w of work) for (const [name, f] of STEPS) {
        const isMode = name.startsWith('integration');
        if (isMode && (w.hist[w.hist.length - 1] || '').startsWith('integration')) continue;
        const m = { ...w.m, q: [...w.m.q] };
        const hist = [...w.hist, name];
        mode = m.mode;
        base = w.s.events().length;
        if (name === 'connect') m.noTimers = false;
        const res = f({ ...w, m });
        if (!res) continue;
        total++;
        const [outs, deliv] = res;
        const what = `${storage} storage, bound ${MAX}: ${hist.join(', ')}`;
        for (const o of outs) {
          if (!ck.ob('the queue never fails', o.kind === 'ret', { at: ck.loc(o.node) || at, what, key: name })) continue;
          const got = o.s.events().slice(base).filter((e) => e.name === 'callback:tr').map((e) => { const t = W.get(o.s, e.args[0], 'eventType'); return t && t.k === 'c' ? t.v : '?'; });
          ck.ob('events are offered to the integration in order, once, until it refuses', got.join() === deliv.join(), { at, what: `${what}: offered [${got}] instead of [${deliv}]`, key: 'deliver' });
          if (storage === 'healthy' && !isMode) {
            const st = W.stored(o.s, 'local', 'EXP_unsent_' + NAME);
            let ids;
            const p = st && W.parse(o.s, W.ctx(), st, W.cls);
            if (!st) ids = [];
            else if (p && p[0]) { const t = W.tree(p[0][0], p[0][1]); ids = t && t.a ? t.a.map((x) => x.p && x.p.eventType && x.p.eventType.c) : undefined; }
            ck.ob('exactly the undelivered events, at most the bound, are persisted', !!ids && ids.join() === m.q.join(), { at, what: `${what}: persisted [${ids}] instead of [${m.q}]`, key: 'persist' });
          }
          next.push({ s: o.s, self: o.self || w.self, m, hist });
        }
      }
      work = next;
    }
    ck.notes.push(`queue, ${storage} storage: ${total} steps, histories of length ${depth}`);
  }
  ck.atLeast('exactly the undelivered events, at most the bound, are persisted', 500);
}
// the default bound
function bound(ck) {
  const W = new World(ck, 'PersistentTrackingQueue', 'experiment-browser', {});
  const at = W.loc('push');
  for (const n of [511, 512, 513]) {
    const s0 = W.setStored(W.start(), 'local', 'EXP_unsent_' + NAME, C(JSON.stringify(Array.from({ length: n }, (_, i) => ({ eventType: 'e' + i })))));
    for (const o of W.make([C(NAME)], s0)) { const r = o.s.clone(); for (const p of W.call(r, o.v, 'push', [W.val(r, { eventType: 'last' })])) {
      const st = W.stored(p.s, 'local', 'EXP_unsent_' + NAME);
      const ps = st && W.parse(p.s, W.ctx(), st, W.cls);
      const t = ps && ps[0] && W.tree(ps[0][0], ps[0][1]);
      const ids = t && t.a ? t.a.map((x) => x.p && x.p.eventType && x.p.eventType.c) : [];
      ck.ob('the queue keeps the newest 512 events by default', ids.length === Math.min(512, n + 1) && ids[ids.length - 1] === 'last' && ids[0] === 'e' + Math.max(0, n + 1 - 512), { at, what: `${n} stored, one more: ${ids.length} kept, from ${ids[0]} to ${ids[ids.length - 1]}`, key: 'bound' });
    } }
  }
}
// ---- the record of the session ------------------------------------------------------------
const EXPOSURES = [['a', 'on'], ['a', 'off'], ['a', undefined], ['a', null], ['b', 'on'], ['toString', 'on'], ['w', 'on', 'web']];
const expo = ([flag_key, variant, dm]) => ({ flag_key, ...(variant === undefined ? {} : { variant }), ...(dm ? { metadata: { deliveryMethod: dm } } : {}) });
function dedupe(ck) {
  const USERS = [undefined, {}, { user_id: 'u1' }, { user_id: 'u2' }, { device_id: 'd1' }, { device_id: 'd2' }, { user_id: 'u1', device_id: 'd1' }, { user_id: 'u1', device_id: 'd2' }];
  const same = (a, b) => { a = a || {}; b = b || {}; return a.user_id && b.user_id ? a.user_id === b.user_id : !a.user_id && !b.user_id && a.device_id === b.device_id; };
  for (const storage of ['healthy', 'unavailable', 'full']) {
    const W = new World(ck, 'SessionDedupeCache', 'experiment-browser', { budget: ck.thorough ? 2e8 : 4e7, storage: (op, a, k) => (storage === 'unavailable' || (storage === 'full' && op === 'setItem' && k !== 'EXP_test') ? 'throw' : undefined) });
    const at = W.loc('shouldTrack');
    const exps = EXPOSURES.filter((e) => ck.thorough || !['b', 'toString'].includes(e[0]) || e[0] === 'b');
    const run = (hist, depth, w) => {
      if (!depth) return;
      const steps = [];
      for (const u of USERS) for (const e of exps) steps.push({ e, u });
      if (hist.length) steps.push({ reload: true });
      for (const st of steps) {
        // beyond two steps vary one thing at a time
        if (hist.length >= 2 && !st.reload && !hist[0].reload) { const p = hist[hist.length - 1]; if (!p.reload && p.e !== st.e && p.u !== st.u) continue; if (hist.length >= 3 && st.e[0] !== hist[0].e[0]) continue; }
        const text = [...hist, st].map((x) => (x.reload ? 'reload' : `${x.e[0]}=${x.e[1]}${x.e[2] ? ' (web)' : ''} for ${JSON.stringify(x.u)}`)).join(', ');
        if (st.reload) {
          if (hist[hist.length - 1].reload) continue;
          for (const o of W.make([C(NAME)], w.s)) run([...hist, st], depth - 1, { s: o.s, self: o.v, m: { ...w.m, tracked: storage === 'healthy' ? w.m.tracked : new Map(), fresh: true } });
          continue;
        }
        const web = st.e[2] === 'web';
        const m = { tracked: new Map(w.m.tracked), user: w.m.user, fresh: w.m.fresh };
        if (!web) { if (!same(m.user, st.u)) m.tracked = new Map(); m.user = st.u; }
        const v = st.e[1] ?? null;
        const want = web || m.tracked.get(st.e[0]) !== v;
        if (!web) { m.tracked.set(st.e[0], v); m.fresh = false; }
        const r = w.s.clone();
        const args = [W.val(r, expo(st.e)), ...(st.u ? [W.val(r, st.u)] : [])];
        const seen = W.call(r, w.self, 'shouldTrack', args);
        for (const o of seen) {
          const first = w.m.fresh && !web && st.u && (st.u.user_id || st.u.device_id);
          const ok = o.kind === 'ret' && W.is(o.s, o.v, want) === true;
          ck.ob('an exposure is tracked exactly when it changes the variant or the user', ok, { at, what: `${storage} storage: ${text}: ${o.kind === 'ret' ? show(o.v, o.s) : 'fails'} instead of ${want}`, key: first && !want ? 'after-reload:identified' : w.m.fresh && !web && !first && want && w.m.tracked.get(st.e[0]) === v ? 'after-reload:unidentified' : 'dedupe' });
          // continue from the specified record only where the code agrees
          if (ok) run([...hist, st], depth - 1, { s: o.s, self: w.self, m });
        }
      }
    };
    for (const o of W.make([C(NAME)], W.start())) run([], storage === 'healthy' ? (ck.thorough ? 4 : 3) : 2, { s: o.s, self: o.v, m: { tracked: new Map(), user: undefined, fresh: false } });
  }
  ck.atLeast('an exposure is tracked exactly when it changes the variant or the user', 1000);
}
// ---- exposure tracking providers ----------------------------------------------------------
function tracker(ck) {
  const USERS = [undefined, {}, { user_id: 'u1' }, { user_id: 'u2' }, { user_id: 'u1', device_id: 'd1' }, { device_id: 'd1' }];
  const W = new World(ck, 'UserSessionExposureTracker', 'experiment-browser', { budget: ck.thorough ? 2e8 : 4e7, callbacks: { track: () => undefined } });
  const at = W.loc('track');
  const id = (u) => JSON.stringify([u && u.user_id, u && u.device_id]);
  const run = (hist, depth, w) => {
    if (!depth) return;
    for (const u of USERS) for (const e of EXPOSURES) {
      if (hist.length >= 2 && hist[hist.length - 1].e !== e && hist[hist.length - 1].u !== u) continue;
      const m = { tracked: id(w.m.user) === id(u) ? new Map(w.m.tracked) : new Map(), user: u };
      const want = !(m.tracked.has(e[0]) && m.tracked.get(e[0]) === e[1]);
      m.tracked.set(e[0], e[1]);
      const r = w.s.clone();
      const n = r.events().length;
      const x = W.val(r, expo(e));
      const next = [...hist, { e, u }];
      for (const o of W.call(r, w.self, 'track', [x, ...(u ? [W.val(r, u)] : [])])) {
        const ev = o.s.events().slice(n).filter((q) => q.name === 'callback:track');
        const what = next.map((y) => `${y.e[0]}=${y.e[1]} for ${JSON.stringify(y.u)}`).join(', ');
        ck.ob('the exposure tracking provider is told once per flag, variant and user', o.kind === 'ret' && ev.length === (want ? 1 : 0) && ev.every((q) => q.args[0] === x || W.is(o.s, q.args[0], expo(e)) === true), { at, what: `${what}: ${ev.length} calls instead of ${want ? 1 : 0}`, key: 'tracker' });
        run(next, depth - 1, { s: o.s, self: w.self, m });
      }
    }
  };
  for (const o of W.make([W.val(W.start(), { track: W.sym('track', D.X) })].slice(0, 0), W.start())) void o;
  const s0 = W.start();
  for (const o of W.make([W.val(s0, { track: W.sym('track', D.X) })], s0)) run([], ck.thorough ? 4 : 3, { s: o.s, self: o.v, m: { tracked: new Map(), user: undefined } });
}
// the deprecated analytics provider, driven as the client does
function legacy(ck) {
  const W = new World(ck, 'SessionAnalyticsProvider', 'experiment-browser', { callbacks: { track: () => undefined, set: () => undefined, unset: () => undefined } });
  const at = W.loc('track');
  const STEPS = [['a', 'on'], ['a', 'off'], ['b', 'on'], ['a', null], ['b', null]];
  const run = (hist, depth, w) => {
    if (!depth) return;
    for (const st of STEPS) {
      const m = new Map(w.m);
      const want = m.get(st[0]) === st[1] ? [] : st[1] === null ? ['unset'] : ['set', 'track'];
      m.set(st[0], st[1]);
      const next = [...hist, st];
      let ws = [{ s: w.s, kind: 'ret' }];
      const n = w.s.events().length;
      for (const call of st[1] === null ? ['unsetUserProperty'] : ['setUserProperty', 'track'])
        ws = ws.flatMap((x) => { const r = x.s.clone(); return W.call(r, w.self, call, [W.val(r, { key: st[0], variant: st[1] === null ? {} : { value: st[1] } })]); });
      for (const o of ws) {
        const got = o.s.events().slice(n).filter((e) => /^callback:/.test(e.name)).map((e) => e.name.slice(9));
        ck.ob('the analytics provider is told once per flag and variant', o.kind === 'ret' && got.join() === want.join(), { at, what: `${next.map((x) => x.join('=')).join(', ')}: [${got}] instead of [${want}]`, key: 'legacy' });
        run(next, depth - 1, { s: o.s, self: w.self, m });
      }
    }
  };
  const s0 = W.start();
  for (const o of W.make([W.val(s0, { track: W.sym('track', D.X), setUserProperty: W.sym('set', D.X), unsetUserProperty: W.sym('unset', D.X) })], s0)) run([], ck.thorough ? 5 : 4, { s: o.s, self: o.v, m: new Map() });
}
// ---- the manager, through the client ------------------------------------------------------
function manager(ck) {
  for (const setup of ['none', 'done', 'failed', 'pending']) for (const before of [0, 1, 2]) for (const reload of [false, true]) {
    let answer = true;
    const W = new HttpWorld(ck, {
      absent: ['location'],
      callbacks: {
        plug: () => answer, gu: () => ({}), down: () => undefined,
        setup: (w, s) => ({ states: [[s, setup === 'done' ? term('resolved', [UNDEF], { mask: D.X }) : setup === 'failed' ? term('rejected', [C('no')], { mask: D.X, node: w.cls }) : W.pending]] }),
      },
    });
    const at = W.loc('addPlugin');
    W.variants = () => [{ f: { key: 'on', value: 'on', metadata: {} }, g: { key: 'on', metadata: { exposureEvent: 'custom' } }, h: { key: 'on', metadata: { deliveryMethod: 'web' } }, k: { key: 'on' } }, 'ret'];
    const what = `setup ${setup}, ${before} exposures before${reload ? ', reload between' : ''}`;
    const cfg = { automaticExposureTracking: false, pollOnStart: false };
    const one = (list, m) => { ck.ob('every history has a single outcome', list.length === 1 && list[0].kind === 'ret', { at, what: `${what}: ${m}: ${list.map((x) => x.kind)}`, key: 'one' }); return list[0]; };
    let o = one(W.client(cfg, W.start()), 'create');
    let self = o.v;
    let s = one(W.call(o.s, self, 'fetch', [W.val(o.s, {})]), 'fetch').s;
    const flags = ['f', 'g', 'h', 'k'];
    const types = { f: '$exposure', g: 'custom', h: '$impression', k: '$exposure' };
    const want = [];
    for (const k of flags.slice(0, before * 2)) { s = one(W.call(s, self, 'exposure', [C(k)]), 'exposure').s; want.push(k); }
    if (reload) { o = one(W.client(cfg, s), 'create'); self = o.v; s = one(W.call(o.s, self, 'fetch', [W.val(o.s, {})]), 'fetch').s; }
    const plugin = (r) => W.val(r, { type: 'integration', getUser: W.sym('gu', D.X), track: W.sym('plug', D.X), teardown: W.sym('down', D.X), ...(setup === 'none' ? {} : { setup: W.sym('setup', D.X) }) });
    // a pending set-up: the promise of a constructor of the modelled host
    if (setup === 'pending') W.pending = term('promise', ['host', 'p:host'], { mask: D.X });
    if (setup === 'pending') { const r = s.clone(); r.wHeap().set('p:host', { kind: 'promise', entries: [] }); s = r; }
    const got = (x) => x.events().filter((e) => e.name === 'callback:plug').map((e) => { const t = W.tree(x, e.args[0]); return t && t.p ? `${t.p.eventType && t.p.eventType.c}:${t.p.eventProperties && t.p.eventProperties.p && t.p.eventProperties.p.flag_key.c}` : '?'; });
    const str = (l) => l.map((k) => types[k] + ':' + k).join();
    const r = s.clone();
    if (setup === 'pending') {
      // not settled yet: nothing may be offered
      const c = W.call(r, self, 'addPlugin', [plugin(r)]);
      ck.ob('connecting never fails', c.every((x) => x.kind === 'ret'), { at, what, key: 'connect' });
      continue;
    }
    s = one(W.call(r, self, 'addPlugin', [plugin(r)]), 'addPlugin').s;
    ck.ob('waiting exposures are delivered when the integration is ready', got(s).join() === str(want), { at, what: `${what}: offered [${got(s)}] instead of [${str(want)}]`, key: 'ready' });
    for (const k of ['k', 'f', 'k']) {
      s = one(W.call(s, self, 'exposure', [C(k)]), 'exposure').s;
      if (!want.includes(k)) want.push(k);
    }
    ck.ob('a ready integration gets each exposure once', got(s).join() === str(want), { at, what: `${what}: offered [${got(s)}] instead of [${str(want)}]`, key: 'each' });
    // a fetch waits for the integration only until it is ready
    const f = one(W.call(s, self, 'fetch', [W.val(s, {})]), 'fetch');
    ck.ob('a fetch goes through once the integration is ready', W.requests(f.s, s.events().length).length === 1, { at, what, key: 'fetch' });
    const q = f.s.clone();
    const t = one(W.call(q, self, 'addPlugin', [plugin(q)]), 'addPlugin again');
    ck.ob('a replaced integration is torn down', t.s.events().filter((e) => e.name === 'callback:down').length === 1, { at, what, key: 'down' });
  }
}
