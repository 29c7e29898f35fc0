'use strict';
const { DomWorld } = require('./dom-world');
const { C, D, UNDEF, NULL, term, show } = require('../engine/lib');
exports.technique = 'exhaustive abstract histories of the relay client over genuine and forged messages, compared with a reference client';
exports.explanation =
  'Every sequence up to the bound of initialisation, recorded events, requests, message events (from the relay, from a look-alike origin, from another window of the relay origin; announcements, answers and rubbish), elapsed time and destruction is interpreted. Every posted message must go to the frame the client created and to the relay origin only, carry this deployment and visitor and be one the reference client sends, and the client must become available, resend, forget confirmed events and stop exactly as the reference does.';
const ORIGIN = 'https://relay.example.org';
const URL_ = ORIGIN + '/script/key.relay.html';
exports.run = function (ck) {
  const W = new DomWorld(ck, 'RelayClient', 'behavioral-targeting/relay-client', { budget: ck.thorough ? 6e8 : 1.5e8 });
  const at = W.loc('init');
  const me = D.O('W:self'), other = D.O('W:other');
  const ev = (s, n) => W.val(s, { uuid: 'u' + n, id: n, event_type: 'e' + n, timestamp: 5, session_id: 's', properties: { p: n } });
  const posts = (s, n) => s.events().slice(n).filter((e) => e.name === 'post');
  const frameOf = (s) => W.attached(s).filter((e) => W.own(s, e, '[[tag]]').v === 'iframe');
  const lit = (s, v) => { const t = W.tree(s, v); const j = (x) => ('c' in x ? x.c : x.t ? '?' + x.t.id : x.a ? x.a.map(j) : Object.fromEntries(Object.entries(x.p).map(([k, y]) => [k, j(y)]))); return t && j(t); };
  const READY = 'AMP_RELAY_READY';
  const start = W.start();
  const made = W.make([C('key'), C('visitor'), C(URL_)], start);
  ck.ob('creating the client has one outcome and no effect on the page', made.length === 1 && made[0].kind === 'ret' && !made[0].s.events().some((e) => /^(append|post|listen)$/.test(e.name)), { at, what: made.map((o) => o.kind).join(), key: 'new' });
  if (!made.length || made[0].kind !== 'ret') return;
  const self = made[0].v;
  // ---- the reference -------------------------------------------------------------------
  // m: { up, ready, dead, queue: [n], out: [{id, n}] }; a step answers the posts it expects: [type, payload]
  const write = (m, n, exp) => { if (m.up && m.ready) exp.push(['WRITE_EVENT', n]); };
  const message = (m, origin, src, data, exp, w) => {
    if (!m.up) return;
    if (origin !== ORIGIN || src !== 'frame') return;
    if (!m.ready) { if (data === READY || (data && data.type === READY)) { m.ready = true; for (const n of m.queue) exp.push(['WRITE_EVENT', n]); } return; }
    if (data && data.requestId) { const i = m.out.findIndex((r) => r.id === data.requestId); if (i >= 0) { const [r] = m.out.splice(i, 1); if (data.ok && r.n) m.queue = m.queue.filter((x) => x !== r.n); } }
  };
  const STEPS = [
    ['init', (w, m) => { if (!m.up) { m.up = true; m.ready = false; m.timer = W.now + 2000; } return { call: ['init', []] }; }],
    ...[1, 2].map((n) => [`record event ${n}`, (w, m, exp) => { if (!m.dead || m.up) { if (!m.queue.includes(n)) m.queue.push(n); write(m, n, exp); } return { call: ['writeEvent', (s) => [ev(s, n)]] }; }]),
    ['read', (w, m, exp) => { if (m.up && m.ready) exp.push(['READ_EVENTS']); return { call: ['readEvents', []] }; }],
    ['check migrated', (w, m, exp) => { if (m.up && m.ready) exp.push(['CHECK_MIGRATED', { sourceOrigin: 'https://a.example.com' }]); return { call: ['checkMigrated', [C('https://a.example.com')]] }; }],
    ['migrate', (w, m, exp) => { if (m.up && m.ready) exp.push(['MIGRATE_EVENTS', { sourceOrigin: 'https://a.example.com', store: { events: [], nextId: 1 } }]); return { call: ['migrateEvents', (s) => [C('https://a.example.com'), W.val(s, { events: [], nextId: 1 })]] }; }],
    ['flush', (w, m, exp) => { if (m.up && m.ready) for (const n of m.queue) exp.push(['WRITE_EVENT', n]); return { call: ['flush', []] }; }],
    ['destroy', (w, m) => { if (true) { m.up = false; m.ready = false; m.dead = true; m.queue = []; m.out = []; } return { call: ['destroy', []] }; }],
    ...[[ORIGIN, 'frame'], [ORIGIN, 'self'], [ORIGIN, 'other'], [ORIGIN, 'none'], ['https://relay.example.org.evil.com', 'frame'], ['http://relay.example.org', 'frame'], ['https://example.org', 'other'], ['', 'frame'], ['null', 'frame'], ['https://www.example.com', 'frame']].flatMap(([origin, src]) => [
      [`announcement from ${origin || 'no origin'} (${src})`, (w, m, exp) => { message(m, origin, src, READY, exp); return { msg: [origin, src, READY] }; }],
      [`confirmation from ${origin || 'no origin'} (${src})`, (w, m, exp) => { const id = w.m.out.length ? w.m.out[0].id : 'none'; const d = { requestId: id, ok: true, payload: { events: [], nextId: 1 } }; message(m, origin, src, d, exp); return { msg: [origin, src, d] }; }],
    ]),
    ['announcement object from the relay', (w, m, exp) => { message(m, ORIGIN, 'frame', { type: READY }, exp); return { msg: [ORIGIN, 'frame', { type: READY }] }; }],
    ['another object from the relay', () => ({ msg: [ORIGIN, 'frame', { type: 'AMP_OTHER' }] })],
    ['refusal from the relay', (w, m, exp) => { const id = w.m.out.length ? w.m.out[0].id : 'none'; const d = { requestId: id, ok: false, error: 'no' }; message(m, ORIGIN, 'frame', d, exp); return { msg: [ORIGIN, 'frame', d] }; }],
    ['confirmation of the latest request', (w, m, exp) => { const id = w.m.out.length ? w.m.out[w.m.out.length - 1].id : 'none'; const d = { requestId: id, ok: true }; message(m, ORIGIN, 'frame', d, exp); return { msg: [ORIGIN, 'frame', d] }; }],
    ['confirmation of an unknown request', (w, m, exp) => ({ msg: [ORIGIN, 'frame', { requestId: 'unknown', ok: true }] })],
    ...[null, 'text', 5].map((d) => [`${d} from the relay`, () => ({ msg: [ORIGIN, 'frame', d] })]),
    ['2 s pass', (w, m) => { m.out = []; return { wait: 2000 }; }],
  ];
  const GENUINE = /^(init|record event|flush|destroy|announcement from https:\/\/relay.example.org \(frame\)|confirmation from https:\/\/relay.example.org \(frame\)|refusal|2 s)/;
  const FLUSH = STEPS.find((x) => x[0] === 'flush');
  const POST = 'messages go to the relay frame and origin only, exactly those the client should send';
  const CALM = 'no step fails';
  const step = (w, [name, f], last) => {
    const m = { ...w.m, queue: [...w.m.queue], out: [...w.m.out] };
    const exp = [];
    W.now = w.t;
    const act = f(w, m, exp);
    const n = w.s.events().length;
    const hist = [...w.hist, name], what = hist.join('; ');
    let outs, s = w.s.clone();
    if (act.call) { const a = act.call[1]; outs = W.call(s, self, act.call[0], typeof a === 'function' ? a(s) : a); }
    else if (act.wait) outs = W.advance(s, act.wait);
    else {
      const [origin, src, data] = act.msg;
      const fr = frameOf(s)[0];
      const source = src === 'frame' ? (fr ? W.windowOf(fr) : other) : src === 'self' ? me : src === 'none' ? NULL : other;
      const e = W.val(s, { origin, data: data && typeof data === 'object' ? data : data === undefined ? UNDEF : C(data), source });
      outs = W.dispatch(s, 'message', [e]);
    }
    const req = act.call && /read|check|migrate/.test(act.call[0]);
    const res = [];
    ck.ob(CALM, outs.length >= 1, { at, what: `${what}: no outcome`, key: 'none' });
    for (const o of outs) {
      ck.ob(CALM, o.kind === 'ret' || req, () => ({ at: ck.loc(o.node) || at, what: `${what}: fails with ${show(o.v, o.s)}`, key: name }));
      if (req && !(w.m.up && w.m.ready)) ck.ob('requests fail while the relay is unavailable', o.kind === 'throw', { at, what, key: name });
      const un = o.s.events().slice(n).find((e) => e.name === 'unhandled');
      ck.ob(CALM, !un, () => ({ at: (un && ck.loc(un.node)) || at, what: `${what}: unhandled rejection`, key: 'unhandled' }));
      const p = posts(o.s, n);
      let fr = frameOf(o.s);
      if (!fr.length) fr = frameOf(w.s);
      const bad = p.findIndex((e) => !(e.args[1] && e.args[1].k === 'c' && e.args[1].v === ORIGIN) || !fr[0] || e.recv !== W.windowOf(fr[0]));
      const out = [...m.out];
      let ok = p.length === exp.length, why = '';
      p.forEach((e, i) => {
        const q = lit(o.s, e.args[0]) || {};
        if (!q.requestId || out.some((r) => r.id === q.requestId)) { ok = false; why = 'request without an identifier of its own'; }
        const pay = exp[i] && (exp[i][0] === 'WRITE_EVENT' ? { event: { uuid: 'u' + exp[i][1], id: exp[i][1], event_type: 'e' + exp[i][1], timestamp: 5, session_id: 's', properties: { p: exp[i][1] } } } : exp[i][1]);
        if (!exp[i] || q.type !== exp[i][0] || q.apiKey !== 'key' || q.web_exp_id_v2 !== 'visitor' || JSON.stringify(q.payload) !== JSON.stringify(pay)) { ok = false; why = why || `sent ${JSON.stringify(q)}`; }
        out.push({ id: q.requestId, n: exp[i] && exp[i][0] === 'WRITE_EVENT' ? exp[i][1] : undefined });
      });
      ck.ob(POST, ok && bad < 0, () => ({ at: (p[0] && ck.loc(p[Math.max(0, bad)].node)) || at, what: `${what}: ${bad >= 0 ? `posted to ${p[bad].args[1] ? show(p[bad].args[1], o.s) : 'any origin'} of ${p[bad].recv ? show(p[bad].recv, o.s) : '?'}` : `posted [${p.map((e) => (lit(o.s, e.args[0]) || {}).type)}] instead of [${exp.map((x) => x.join(' '))}] ${why}`}`, key: name }));
      const av = W.get(o.s, self, 'relayAvailable');
      ck.ob('available exactly from the announcement of the relay until destruction', av && W.is(o.s, av, !!(m.up && m.ready)) === true, () => ({ at, what: `${what}: available is ${av ? show(av, o.s) : '?'}`, key: name }));
      ck.ob('one frame while in use and none after destruction', frameOf(o.s).length === (m.up ? 1 : 0) && W.listeners(o.s, 'message').length === (m.up ? 1 : 0), () => ({ at, what: `${what}: ${frameOf(o.s).length} frames, ${W.listeners(o.s, 'message').length} listeners`, key: name }));
      if (!m.up) ck.ob('nothing runs after destruction', !W.due(o.s).length, () => ({ at, what: `${what}: ${W.due(o.s).length} timers`, key: name }));
      if (o.kind === 'ret' || req) res.push({ s: o.s, m: { ...m, out }, hist, t: W.now });
    }
    total++;
    return res;
  };
  let total = 0;
  const key = (x) => JSON.stringify([x.hist[x.hist.length - 1], x.m.up, x.m.ready, x.m.dead, x.m.queue, x.m.out.map((r) => r.n)]);
  let work = [{ s: made[0].s, m: { up: false, ready: false, dead: false, queue: [], out: [] }, hist: [], t: W.now }];
  const depth = ck.thorough ? 8 : 7;
  const seen = new Map();
  for (let d = 0; d < depth; d++) {
    const next = [];
    for (const w of work) for (const st of STEPS) {
      for (const r of step(w, st)) {
        // what a message changed for nothing shows when the client sends its queue again
        if (!GENUINE.test(st[0])) { step(r, FLUSH); continue; }
        // keep a few histories for every state of the reference
        const k = key(r), c = seen.get(k) || 0;
        if (c >= (ck.thorough ? 3 : 1)) continue;
        seen.set(k, c + 1);
        next.push(r);
      }
    }
    work = next;
  }
  ck.notes.push(`${total} steps, ${seen.size} states of the reference client`);
  ck.atLeast(POST, 500);
};
