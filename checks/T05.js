'use strict';
const { TagWorld } = require('./tag-world');
const { C, D, UNDEF, show } = require('../engine/lib');
exports.technique = 'exhaustive abstract histories of the behavioural event store over modelled storage, clock, page lifecycle and consent, compared with a reference store';
exports.explanation =
  'Every sequence up to the bound of recorded events, elapsed debounce time, page hiding and unloading, consent decisions, clearing and clean-up is interpreted on the event store, starting from every kind of stored value, with and without required consent and with failing storage. The events visible to targeting and the stored value are compared with the reference after every step; the bound is interpreted with more events than fit.';
const KEY = 'EXP_apikey-lon_rtbt_events', MAX = 500;
exports.run = function (ck) {
  let failing = false;
  const W = new TagWorld(ck, 'EventStorageManager', 'experiment-tag', {
    budget: ck.thorough ? 8e8 : 2e8,
    storage: (op) => (failing === 'all' || (failing === 'write' && op === 'setItem') ? 'throw' : undefined),
  });
  const at = W.loc('addEvent');
  const T0 = W.now;
  const SM = ck.cls('SessionManager', 'experiment-tag');
  const rec = (uuid, type, timestamp, id) => ({ uuid, id, event_type: type, timestamp, session_id: 's', properties: { p: 1 } });
  const J = (o) => (typeof o === 'string' ? o : JSON.stringify(o));
  const two = { events: [rec('u1', 'A', T0 - 2000, 1), rec('u2', 'B', T0 - 1000, 2)], nextId: 3 };
  const STORED = {
    nothing: undefined, 'two events': two,
    'a newer event': { events: [rec('u9', 'A', T0 + 3600e3, 7)], nextId: 8 },
    'without uuid': { events: [{ ...rec('', 'A', T0 - 2000, 1) }, { ...rec('x', 'B', T0 - 1000, 2), uuid: undefined }, rec('u3', 'A', T0 - 500, 3)], nextId: 4 },
    'not JSON': '{x', null: 'null', text: '"x"', list: '[]', 'no events': { nextId: 3 }, 'bad events': { events: 'x', nextId: 3 }, 'bad counter': { events: [rec('u1', 'A', T0, 1)], nextId: '3' },
    'unusable entries': { events: [null, 'x', 5, rec('u1', 'A', T0 - 5, 1)], nextId: 2 },
    'empty list': { events: [], nextId: 1 },
  };
  const usable = (o) => (o && typeof o === 'object' && Array.isArray(o.events) && typeof o.nextId === 'number' ? o.events.filter((e) => e && typeof e === 'object').map((e, i) => ({ key: e.uuid || '?' + i, type: e.event_type, t: e.timestamp })) : []);
  // ---- reference store --------------------------------------------------------
  const pending = (m) => m.required && m.consent === 'pending';
  const withheld = (m) => m.required && m.consent !== 'granted';
  const write = (m) => { if (!withheld(m) && !failing) m.device = m.mem.slice(); };
  const flush = (m) => { if (!m.dirty) return; write(m); m.dirty = false; m.due = undefined; };
  const add = (m, type, t) => { m.mem = [...m.mem, { key: '#' + ++m.n, type, t }].slice(-MAX); m.dirty = true; m.due = m.now + 500; };
  const decide = (m, x) => {
    if (!m.required || m.consent === x) return;
    const was = m.consent;
    m.consent = x;
    if (was !== 'pending' || m.closed === 'x') return;
    if (x === 'granted') {
      const device = failing === 'all' ? [] : m.device || [];
      if (!device.length && !m.mem.length) return;
      const by = new Map(m.mem.map((e) => [e.key, e]));
      for (const e of device) by.set(e.key, e);
      m.mem = [...by.values()].sort((a, b) => a.t - b.t).slice(-MAX);
      m.dirty = true;
      flush(m);
    } else { m.mem = []; m.dirty = false; m.due = undefined; m.n0 = true; }
  };
  const pass = (m, ms) => { m.now += ms; if (m.due !== undefined && m.due <= m.now) flush(m); };
  // ---- reading back --------------------------------------------------------------
  const ids = (w, want, uuid) => {
    if (want[0] !== '#' && want[0] !== '?') return want === uuid;
    if (typeof uuid !== 'string' || !uuid) return false;
    if (w.ids[want] !== undefined) return w.ids[want] === uuid;
    { if (Object.values(w.ids).includes(uuid)) return false; w.ids = { ...w.ids, [want]: uuid }; }
    return true;
  };
  const lit = (s, v) => { const o = W.I.obj(s, v); if (!o) { const c = W.I.constOf(s, v); return c ? c.v : undefined; } return o; };
  const fieldOf = (s, v, k) => { const c = W.get(s, v, k); const x = c && W.I.constOf(s, c); return x ? x.v : undefined; };
  const visible = (s, self) => {
    const out = [];
    const o = W.call(s, self, 'getAllEvents', []);
    if (o.length !== 1 || o[0].kind !== 'ret') return undefined;
    const a = W.I.obj(s, o[0].v);
    if (!a || a.kind !== 'arr' || a.dyn.length) return undefined;
    for (const e of a.elems) out.push({ key: fieldOf(s, e, 'uuid'), type: fieldOf(s, e, 'event_type'), t: fieldOf(s, e, 'timestamp'), sid: fieldOf(s, e, 'session_id'), p: W.get(s, e, 'properties') });
    return out;
  };
  const stored = (s) => {
    const v = W.stored(s, 'local', KEY);
    if (!v) return undefined;
    const c = W.I.constOf(s, v);
    if (!c) return null;
    try { const o = JSON.parse(c.v); return { raw: c.v, list: o && Array.isArray(o.events) ? o.events.map((e) => (e ? { key: e.uuid, type: e.event_type, t: e.timestamp, sid: e.session_id, p: e.properties } : e)) : undefined, next: o && o.nextId }; } catch (e) { return { raw: c.v }; }
  };
  const same = (w, want, got) => got && want.length === got.length && want.every((e, i) => got[i] && e.type === got[i].type && e.t === got[i].t && ids(w, e.key, got[i].key));
  const fmt = (l) => (l ? (l.length > 8 ? `${l.length} events` : `[${l.map((e) => e && `${e.key}:${e.type}@${e.t - T0}`)}]`) : 'undecided');
  const begin = (name, required, allow, consent) => {
    W.now = T0;
    let s = W.start();
    const o = STORED[name];
    if (o !== undefined) s = W.setStored(s, 'local', KEY, C(J(o)));
    if (required) [s] = W.require(s);
    if (consent) for (const x of W.consent(s, consent)) s = x.s;
    const c = W.ctx();
    const [[s1, sm]] = W.I.construct(s.clone(), c, D.CLS(SM), [C('apikey-long-1234')], W.cls);
    const s2 = s1.clone();
    let args = [C('apikey-long-1234'), sm];
    let st = s2;
    if (allow) for (const [x, set] of W.I.construct(s2, W.ctx(), { k: 't', op: 'global', args: ['Set'], meta: {} }, [W.val(s2, allow)], W.cls)) { st = x; args = [...args, set]; }
    return W.make(args, st);
  };
  let total = 0;
  const NOP = (w) => ({ outs: [{ s: w.s, kind: 'ret', v: UNDEF }] });
  const STEPS = [
    ['event A', (w, m) => { add(m, 'A', m.now); const s = w.s.clone(); return { outs: W.call(s, w.self, 'addEvent', [C('A'), W.val(s, { p: 1 })]) }; }],
    ['event A of an earlier time', (w, m) => { add(m, 'A', T0 - 1500); const s = w.s.clone(); return { outs: W.call(s, w.self, 'addEvent', [C('A'), W.val(s, { p: 1 }), C(T0 - 1500)]) }; }],
    ['event Z', (w, m) => { if (!w.allow || w.allow.includes('Z')) add(m, 'Z', m.now); const s = w.s.clone(); return { outs: W.call(s, w.self, 'addEvent', [C('Z'), W.val(s, { p: 1 })]) }; }],
    ['499 ms', (w, m) => { pass(m, 499); return { outs: W.advance(w.s, 499) }; }],
    ['500 ms', (w, m) => { pass(m, 500); return { outs: W.advance(w.s, 500) }; }],
    ['hidden', (w, m) => { if (!m.closed) flush(m); return { outs: W.dispatch(W.setPage(w.s, 'visibilityState', 'hidden'), 'visibilitychange', [W.val(w.s.clone(), {})]) }; }],
    ['shown', (w) => ({ outs: W.dispatch(W.setPage(w.s, 'visibilityState', 'visible'), 'visibilitychange', []) })],
    ['unload', (w, m) => { if (!m.closed) flush(m); return { outs: W.dispatch(w.s, 'beforeunload', []) }; }],
    ['flush', (w, m) => { flush(m); return { outs: W.call(w.s, w.self, 'flush', []) }; }],
    ['clear', (w, m) => { m.mem = []; m.dirty = true; flush(m); return { outs: W.call(w.s, w.self, 'clearEvents', []) }; }],
    ['cleanup', (w, m) => { flush(m); m.due = undefined; m.closed = true; return { outs: W.call(w.s, w.self, 'cleanup', []) }; }],
    ['granted', (w, m) => { if (!m.required || m.consent === 'granted' || (m.consent === 'denied' && (m.mem.length || m.wasGranted))) return null; decide(m, 'granted'); m.wasGranted = true; return { outs: W.consent(w.s, 'granted') }; }],
    ['denied', (w, m) => { if (!m.required || m.consent === 'denied') return null; decide(m, 'denied'); return { outs: W.consent(w.s, 'denied') }; }],
  ];
  const PASSIVE = /ms$|shown/;
  const judge = (w, o, m, what) => {
    ck.ob('recording and flushing never fail', o.kind === 'ret', () => ({ at: ck.loc(o.node) || at, what: `${what}: throws ${show(o.v, o.s)}`, key: 'throw' }));
    if (o.kind !== 'ret') return false;
    const v = visible(o.s, w.self);
    ck.ob('targeting sees exactly the events of this page and those it may read', same(w, m.mem, v), () => ({ at, what: `${what}: ${fmt(v)} instead of ${fmt(m.mem)}`, key: 'memory' }));
    if (v) ck.ob('an event carries a session', v.every((e) => typeof e.sid === 'string' && e.sid), () => ({ at, what, key: 'session' }));
    const d = stored(o.s);
    if (m.device === undefined || m.raw) ck.ob('nothing is stored without consent or change', m.raw ? d && d.raw === m.raw : d === undefined, () => ({ at, what: `${what}: stored ${d && d.raw} instead of ${m.raw}`, key: 'device' }));
    else ck.ob('the store holds the events that were flushed with consent', d && same(w, m.device, d.list) && d.list.every((e) => JSON.stringify(e.p) === '{"p":1}' && typeof e.sid === 'string') && typeof d.next === 'number', () => ({ at, what: `${what}: stored ${d && d.list ? fmt(d.list) : d && d.raw} instead of ${fmt(m.device)}`, key: 'device' }));
    return true;
  };
  const explore = (name, required, opts) => {
    const { depth, fail, allow, consent, steps } = opts;
    failing = fail === 'write' || fail === 'all' ? fail : false;
    const label = `${name}${required ? ', consent required' : ''}${consent ? ', ' + consent : ''}${allow ? ', only ' + allow : ''}${fail ? ', storage failing: ' + fail : ''}: `;
    const m0 = { required, consent: consent || (required ? 'pending' : 'granted'), wasGranted: consent === 'granted', mem: [], device: undefined, raw: STORED[name] === undefined ? undefined : J(STORED[name]), now: T0, n: 0, dirty: false };
    const u = usable(STORED[name]);
    m0.stored = u;
    if (!withheld(m0) && fail !== 'all') m0.mem = u;
    let work = begin(name, required, allow, consent).map((x) => ({ s: x.s, self: x.v, kind: x.kind, node: x.node, v: x.v, m: { ...m0, device: u }, hist: [], ids: {}, allow }));
    ck.ob('every history has a single outcome', work.length === 1, { at, what: label, key: 'one' });
    // after construction the stored value is untouched, except that identities may be added
    for (const w of work) {
      const m = { ...w.m };
      if (u.some((e) => e.key[0] === '?') && !withheld(m) && fail !== 'write' && fail !== 'all') { m.raw = undefined; }
      if (m.raw === undefined && STORED[name] === undefined) m.device = undefined;
      w.m = m;
      w.ok = judge(w, w, m, label + 'on start');
    }
    work = work.filter((w) => w.ok);
    for (let d = 0; d < depth; d++) {
      const next = [];
      for (const w of work) for (const [step, f] of STEPS) {
        if (steps && !steps.test(step)) continue;
        const prev = w.hist[d - 1];
        if (PASSIVE.test(step) && (PASSIVE.test(prev || '') || !d)) continue;
        if (step === prev && !/event/.test(step)) continue;
        const m = { ...w.m };
        W.now = m.now;
        const before = m.device;
        const r = f(w, m);
        if (!r) continue;
        if (m.device !== before) m.raw = undefined;
        total++;
        const hist = [...w.hist, step], what = label + hist.join(', ');
        ck.ob('every history has a single outcome', r.outs.length === 1, { at, what, key: 'one' });
        for (const o of r.outs) {
          const x = { ...w, s: o.s, m, hist };
          if (judge(x, o, m, what)) next.push(x);
        }
      }
      work = next;
    }
  };
  const K = ck.thorough ? 1 : 0;
  explore('nothing', false, { depth: 4 + K, steps: /event A|ms|hidden|shown|unload|clear|cleanup/ });
  explore('two events', false, { depth: 3 + K });
  explore('nothing', true, { depth: 4 + K, steps: /event A|500|hidden|granted|denied|clear|flush/ });
  explore('two events', true, { depth: 4 + K, steps: /event A|500|unload|granted|denied|cleanup/ });
  explore('a newer event', true, { depth: 3 + K });
  explore('two events', true, { depth: 3, consent: 'denied' });
  explore('two events', true, { depth: 3, consent: 'granted' });
  explore('nothing', false, { depth: 3, allow: ['A'] });
  explore('two events', true, { depth: 3, allow: ['A', 'Q'], steps: /event|granted|denied|500/ });
  for (const fail of ['write', 'all']) for (const required of [false, true]) explore('two events', required, { depth: 3, fail });
  for (const name of Object.keys(STORED)) for (const required of [false, true]) explore(name, required, { depth: 2 });
  failing = false;
  // ---- the bound ---------------------------------------------------------------------
  const full = (n) => ({ events: Array.from({ length: n }, (_, i) => rec('p' + i, 'A', T0 - 1e6 + i, i + 1)), nextId: n + 1 });
  for (const n of [498, 499, 500, 510]) for (const required of [false, true]) {
    STORED.full = full(n);
    const [o] = begin('full', required);
    ck.ob('recording and flushing never fail', o && o.kind === 'ret', { at, what: `${n} stored events`, key: 'throw' });
    let w = { s: o.s, self: o.v, ids: {} }, m = { required, consent: required ? 'pending' : 'granted', mem: required ? [] : usable(STORED.full), device: usable(STORED.full), now: T0, n: 0 };
    for (let i = 0; i < 3; i++) { const r = STEPS[0][1](w, m); w.s = r.outs[0].s; }
    if (required) { decide(m, 'granted'); w.s = W.consent(w.s, 'granted')[0].s; } else { pass(m, 500); w.s = W.advance(w.s, 500)[0].s; }
    judge(w, { s: w.s, kind: 'ret' }, m, `${n} stored events and three more${required ? ' before consent was granted' : ''}`);
  }
  ck.notes.push(`${total} steps`);
  ck.atLeast('targeting sees exactly the events of this page and those it may read', 1000);
};
