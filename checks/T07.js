'use strict';
const { TagWorld } = require('./tag-world');
const { C, D, UNDEF, NULL, term, show } = require('../engine/lib');
exports.technique = 'abstract interpretation of the relay synchronisation over a table of local stores, relay stores and answers, compared with a reference merge';
exports.explanation =
  'For every pair of local and relay contents (disjoint, overlapping, conflicting, interleaved in time, larger than the bound), every answer to each request (in order, failing, malformed) and events recorded while a request is under way, the synchronisation is interpreted: requests made, events handed to the relay, events visible to targeting afterwards, the stored value and the reported outcome are compared with the reference merge.';
const KEY = 'EXP_apikey-lon_rtbt_events', MAX = 500, ORIGIN = 'https://www.example.com';
exports.run = function (ck) {
  let answer;
  const W = new TagWorld(ck, 'EventStorageManager', 'experiment-tag', {
    budget: ck.thorough ? 4e8 : 1.5e8, unroll: 1300,
    callbacks: Object.fromEntries(['checkMigrated', 'migrateEvents', 'readEvents', 'writeEvent', 'flush'].map((n) => [n, (w, s, args, ctx) => answer(n, s, args, ctx)])),
  });
  const at = W.loc('syncFromRelay');
  const T0 = W.now;
  const SM = ck.cls('SessionManager', 'experiment-tag');
  const rec = (uuid, t, id, o = {}) => ({ uuid, id, event_type: 'A', timestamp: T0 - 10000 + t, session_id: 's', properties: { p: 1 }, ...o });
  const relayRec = (uuid, t, id) => rec(uuid, t, id, { session_id: 'r' });
  const many = (p, n, t, f = rec) => Array.from({ length: n }, (_, i) => f(p + i, t + 2 * i, i + 1));
  const LOCAL = { none: [], one: [rec('a', 10, 1)], three: [rec('a', 10, 1), rec('b', 20, 2), rec('c', 30, 3)], 'same time': [rec('a', 10, 1), rec('b', 10, 2)] };
  const RELAY = { none: [], disjoint: [relayRec('x', 15, 4), relayRec('y', 40, 9)], overlapping: [relayRec('b', 20, 7), relayRec('z', 5, 1)], all: [relayRec('a', 10, 1), relayRec('b', 20, 2), relayRec('c', 30, 3)], conflicting: [relayRec('a', 35, 1)], 'same time': [relayRec('q', 10, 3)] };
  const begin = (events) => {
    W.now = T0;
    let s = W.start();
    s = W.setPage(s, 'origin', ORIGIN);
    if (events.length) s = W.setStored(s, 'local', KEY, C(JSON.stringify({ events, nextId: events.length + 1 })));
    const [[s1, sm]] = W.I.construct(s.clone(), W.ctx(), D.CLS(SM), [C('apikey-long-1234')], W.cls);
    return W.make([C('apikey-long-1234'), sm], s1.clone())[0];
  };
  const js = (s, v) => { const t = W.tree(s, v); const j = (x) => ('c' in x ? x.c : x.t ? '?' : x.a ? x.a.map(j) : Object.fromEntries(Object.entries(x.p).map(([k, y]) => [k, j(y)]))); return t && j(t); };
  const visible = (s, self) => { const o = W.call(s, self, 'getAllEvents', []); return o.length === 1 && o[0].kind === 'ret' ? js(s, o[0].v) : undefined; };
  const relayOf = (s, on) => W.val(s, { relayAvailable: on, ...Object.fromEntries(['checkMigrated', 'migrateEvents', 'readEvents', 'writeEvent', 'flush'].map((n) => [n, W.sym(n, D.X)])) });
  const res = (v) => term('resolved', [v], { mask: D.X });
  const merge = (m, r) => { const by = new Map(m.map((e) => [e.uuid, e])); for (const e of r) by.set(e.uuid, e); return [...by.values()].sort((a, b) => a.timestamp - b.timestamp).slice(-MAX); };
  const eq = (a, b) => JSON.stringify(a) === JSON.stringify(b);
  const ids = (l) => (Array.isArray(l) ? (l.length > 12 ? `${l.length} events from ${l[0].uuid} to ${l[l.length - 1].uuid}` : `[${l.map((e) => `${e && e.uuid}@${e && e.timestamp - T0}`)}]`) : String(l));
  let total = 0;
  const run = (what, local, relay, { migrated = false, fail, on = true, payload, extra, pass } = {}) => {
    total++;
    const o = begin(local);
    ck.ob('loading the store has one outcome', o && o.kind === 'ret', { at, what, key: 'load' });
    if (!o || o.kind !== 'ret') return;
    const self = o.v;
    const fails = (n) => fail && fail[0] === n;
    answer = (n, s, args, ctx) => {
      if (extra && extra === n) {
        // an event recorded while the request is under way
        const outs = W.I.callMethod(s, ctx, self, C('addEvent'), [C('A'), W.val(s, { p: 1 })], W.cls);
        if (outs.length === 1) s = outs[0][0];
      }
      const r = s.clone();
      if (n === 'writeEvent' || n === 'flush') return { states: [[r, UNDEF]] };
      if (fails(n)) return fail[1] === 'throws' ? { throws: { message: 'x' } } : { states: [[r, term('rejected', [W.val(r, { message: 'x' })], { mask: D.X, node: W.cls })]] };
      if (n === 'checkMigrated') return { states: [[r, res(C(migrated))]] };
      if (n === 'migrateEvents') return { states: [[r, res(UNDEF)]] };
      return { states: [[r, res(payload !== undefined ? W.val(r, payload) : W.val(r, { events: relay, nextId: relay.reduce((a, e) => Math.max(a, e.id + 1), 1) }))]] };
    };
    let s = o.s.clone();
    const client = relayOf(s, on);
    const n = s.events().length;
    let list;
    if (pass === 'attached') list = W.call(s, self, 'setRelayClient', [client]).flatMap((x) => W.call(x.s, self, 'syncFromRelay', []));
    else list = W.call(s, self, 'syncFromRelay', [client]);
    ck.ob('synchronising has one outcome and never fails', list.length === 1 && list[0].kind === 'ret', () => ({ at: ck.loc(list[0] && list[0].node) || at, what: `${what}: ${list.map((x) => x.kind + ' ' + show(x.v, x.s))}`, key: 'one' }));
    for (const x of list) {
      if (x.kind !== 'ret') continue;
      const ev = x.s.events().slice(n).filter((e) => /^callback:(checkMigrated|migrateEvents|readEvents|writeEvent)$/.test(e.name)).map((e) => [e.name.slice(9), e]);
      const calls = ev.map(([k]) => k);
      const v = visible(x.s, self);
      const added = v && extra ? v.filter((e) => !local.some((l) => l.uuid === e.uuid) && !relay.some((l) => l.uuid === e.uuid)) : [];
      if (extra) ck.ob('an event recorded meanwhile is kept', added.length === 1, () => ({ at, what: `${what}: ${ids(v)}`, key: 'extra' }));
      const early = extra === 'checkMigrated' ? added : [], mem = [...local, ...added];
      const bulk = [...local, ...early];
      // requests
      const want = [];
      let ok = on;
      if (ok) { want.push('checkMigrated'); if (fails('checkMigrated')) ok = false; }
      if (ok && !migrated && bulk.length) { want.push('migrateEvents'); if (fails('migrateEvents')) ok = false; }
      if (ok) { want.push('readEvents'); if (fails('readEvents')) ok = false; }
      const wellFormed = payload === undefined;
      const missing = ok && wellFormed ? mem.filter((e) => !relay.some((r) => r.uuid === e.uuid)) : [];
      for (const e of missing) want.push('writeEvent');
      if (wellFormed) ck.ob('the relay is asked in the documented order and given exactly the events it lacks', eq(calls, want), () => ({ at, what: `${what}: [${calls}] instead of [${want}]`, key: 'calls' }));
      else ok = false;
      for (const [k, e] of ev) {
        if (k === 'checkMigrated') ck.ob('the origin asked about is that of the page', W.is(x.s, e.args[0], ORIGIN) === true, { at: ck.loc(e.node), what, key: 'origin' });
        if (k === 'migrateEvents') { const g = js(x.s, e.args[1]); ck.ob('the bulk migration carries the local events of this origin', W.is(x.s, e.args[0], ORIGIN) === true && g && eq(g.events, bulk) && typeof g.nextId === 'number' && bulk.every((b) => b.id < g.nextId), () => ({ at: ck.loc(e.node), what: `${what}: ${g && ids(g.events)}`, key: 'bulk' })); }
      }
      if (wellFormed) { const w = ev.filter(([k]) => k === 'writeEvent').map(([, e]) => js(x.s, e.args[0])); ck.ob('the relay is asked in the documented order and given exactly the events it lacks', eq(w, missing), () => ({ at, what: `${what}: wrote ${ids(w)} instead of ${ids(missing)}`, key: 'written' })); }
      // outcome
      ck.ob('the outcome reported is that of the synchronisation', W.is(x.s, x.v, ok) === true, () => ({ at, what: `${what}: ${show(x.v, x.s)} instead of ${ok}`, key: 'result' }));
      const exp = ok ? merge(mem, relay) : mem.slice(-MAX);
      ck.ob('targeting sees the union of both stores, one record per event, in time order within the bound', eq(v, exp), () => ({ at, what: `${what}: ${ids(v)} instead of ${ids(exp)}`, key: 'merged' }));
      // the merge reaches the device, and the next identifier is fresh
      for (const y of W.advance(x.s, 500)) {
        const raw = W.stored(y.s, 'local', KEY), c = raw && W.I.constOf(y.s, raw);
        const d = c ? JSON.parse(c.v) : { events: [] };
        if (ok || extra) ck.ob('the merged events are stored', eq(d.events, exp), () => ({ at, what: `${what}: stored ${ids(d.events)}`, key: 'stored' }));
        const r = y.s.clone();
        const add = W.call(r, self, 'addEvent', [C('N'), W.val(r, {})]);
        for (const z of add) {
          const l = visible(z.s, self);
          ck.ob('identifiers of later events are fresh', l && l.length && !exp.slice(-MAX + 1).some((e) => e.id >= l[l.length - 1].id), () => ({ at, what: `${what}: id ${l && l.length && l[l.length - 1].id} after ${exp.map((e) => e.id)}`, key: 'id' }));
        }
      }
      W.now = T0;
    }
  };
  const REQ = ['checkMigrated', 'migrateEvents', 'readEvents'];
  for (const [ln, l] of Object.entries(LOCAL)) for (const [rn, r] of Object.entries(RELAY)) for (const migrated of [false, true]) {
    const what = `local ${ln}, relay ${rn}, ${migrated ? '' : 'not '}migrated`;
    run(what, l, r, { migrated });
    for (const q of REQ) for (const how of ['rejects', 'throws']) run(`${what}, ${q} ${how}`, l, r, { migrated, fail: [q, how] });
    for (const q of REQ) if (!(q === 'migrateEvents' && (migrated || !l.length))) run(`${what}, event recorded during ${q}`, l, r, { migrated, extra: q });
    run(`${what}, attached`, l, r, { migrated, pass: 'attached' });
    run(`${what}, unavailable`, l, r, { migrated, on: false });
  }
  for (const [pn, payload] of [['no events', { nextId: 3 }], ['null', null], ['text', 'x'], ['a null entry', { events: [null], nextId: 2 }]]) for (const ln of ['none', 'three']) run(`local ${ln}, relay answer ${pn}`, LOCAL[ln], [], { payload });
  for (const [a, b] of [[499, 2], [500, 1], [300, 300], [1, 500], [500, 500]]) run(`${a} local and ${b} relay events`, many('l', a, 0), many('r', b, 1, relayRec), { migrated: true });
  // ---- later events go to the attached relay only -----------------------------------------
  for (const [ln, l] of Object.entries(LOCAL)) {
    const o = begin(l);
    answer = (n, s) => ({ states: [[s, UNDEF]] });
    let s = o.s.clone();
    const client = relayOf(s, true);
    for (const seq of [['add'], ['attach', 'add'], ['attach', 'add', 'add'], ['attach', 'detach', 'add'], ['add', 'attach', 'add']]) {
      let list = [{ s, kind: 'ret' }], on = false, n = 0;
      const n0 = s.events().length, want = [];
      for (const step of seq) {
        if (step === 'attach') on = true;
        if (step === 'detach') on = false;
        if (step === 'add') want.push(on);
        list = list.flatMap((x) => { const r = x.s.clone(); return W.call(r, o.v, step === 'add' ? 'addEvent' : 'setRelayClient', step === 'add' ? [C('E' + n++), W.val(r, { p: 1 })] : [step === 'attach' ? client : NULL]); });
      }
      for (const x of list) {
        const w = x.s.events().slice(n0).filter((e) => e.name === 'callback:writeEvent').map((e) => js(x.s, e.args[0]));
        const v = visible(x.s, o.v), news = v && v.slice(-want.length).filter((_, i) => want[i]);
        ck.ob('every event recorded while the relay is attached is handed to it once, unchanged', news && eq(w, news), () => ({ at, what: `local ${ln}, ${seq}: ${ids(w)} instead of ${ids(news)}`, key: 'dual' }));
      }
    }
  }
  ck.notes.push(`${total} synchronisations`);
  ck.atLeast('targeting sees the union of both stores, one record per event, in time order within the bound', 300);
};
