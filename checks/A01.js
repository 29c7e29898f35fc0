'use strict';
const L = require('../engine/lib');
const { Hist } = require('./hist');
const { World } = require('./world');
const { C, D, show } = L;
exports.technique = 'typestate analysis: abstract histories of logging and receiver registration over the constructed bridge';
exports.explanation =
  'The event bridge is constructed abstractly and every sequence of logEvent and setEventReceiver up to the bound is interpreted with distinct symbolic events and receivers; the calls made to each receiver on every path must be exactly the deliveries the documented queue prescribes. The 512 bound is decided by one long history around the limit.';
const LIMIT = 512;
exports.run = function (ck) {
  const mk = () => new Hist(ck, 'EventBridgeImpl', 'analytics-connector', { events: [/^callback:R\d+$/], unroll: LIMIT + 8 });
  const calls = (s) => s.events().filter((e) => /^callback:R/.test(e.name) && !e.detached).map((e) => ({ r: e.name.slice(9), a: e.args, e }));
  const H = mk();
  const E = (i) => H.sym('e' + i, D.X), R = (i) => H.sym('R' + i, D.X);
  const bound = ck.thorough ? 8 : 6;
  let n = 0;
  const check = (o, seq, want, at, key) => {
    const got = calls(o.s);
    const full = (l) => l.map((x) => `${x.e}->${x.r}`).join(', ') || 'nothing';
    const str = (l) => { const t = full(l); return t.length > 160 ? `${l.length} deliveries ending ${full(l.slice(-2))}` : t; };
    const g = got.map((c) => ({ e: c.a.length && c.a[0].op === 'in' ? c.a[0].args[0] : '(' + c.a.map((a) => show(a, o.s)).join() + ')', r: c.r }));
    ck.ob('every history delivers exactly the prescribed events', full(g) === full(want), { at, what: `${seq.join(', ')}: delivered ${str(g)} instead of ${str(want)}`, key });
  };
  const step = (w, op, i) => {
    const want = { recv: w.recv, queue: w.queue.slice(), out: w.out.slice() };
    let arg;
    if (op === 'log') {
      arg = E(i);
      if (want.recv) want.out.push({ e: 'e' + i, r: want.recv });
      else if (want.queue.length < LIMIT) want.queue.push('e' + i);
    } else {
      arg = R(i);
      want.recv = 'R' + i;
      for (const e of want.queue) want.out.push({ e, r: want.recv });
      want.queue = [];
    }
    return H.call(w.s, w.v, op === 'log' ? 'logEvent' : 'setEventReceiver', [arg]).map((o) => ({ ...want, s: o.s, v: w.v, kind: o.kind, err: o.v, node: o.node, seq: [...w.seq, op + ' ' + i] }));
  };
  let work = H.make().map((o) => ({ s: o.s, v: o.v, recv: null, queue: [], out: [], seq: [] }));
  for (let d = 1; d <= bound; d++) {
    const next = [];
    for (const w of work) for (const op of ['log', 'set']) for (const o of step(w, op, d)) {
      n++;
      const at = ck.loc(o.node) || H.loc(op === 'log' ? 'logEvent' : 'setEventReceiver');
      if (!ck.ob('the bridge never throws', o.kind === 'ret', { at, what: `${o.seq.join(', ')} throws`, key: op })) continue;
      check(o, o.seq, o.out, at, 'deliver:' + op);
      next.push(o);
    }
    work = next;
  }
  // the limit
  let w = H.make().map((o) => ({ s: o.s, v: o.v, recv: null, queue: [], out: [], seq: [] }))[0];
  for (let i = 1; i <= LIMIT + 2 && w; i++) {
    const outs = step(w, 'log', i);
    ck.ob('logging around the limit has one outcome', outs.length === 1 && outs[0].kind === 'ret', { at: H.loc('logEvent'), what: `logging event ${i} has ${outs.length} outcomes`, key: 'limit' });
    w = outs[0];
    w.seq = ['log 1..' + i];
  }
  if (w) for (const o of step(w, 'set', 0)) { check(o, o.seq, o.out, H.loc('logEvent'), 'bound'); ck.ob('the limit history was decided', calls(o.s).length > 0, { at: H.loc('logEvent'), what: 'nothing delivered', key: 'decided' }); }
  reentrant(ck);
  ck.notes.push(`${n} abstract histories of length <= ${bound}; one history of ${LIMIT + 2} events`);
  ck.atLeast('every history delivers exactly the prescribed events', 20);
};

// a receiver which logs another event while it is handed one
function reentrant(ck) {
  for (const kept of [0, 1, 2, 3]) for (const during of [0, 1, 2, 3]) {
    let self, more = 0;
    const W = new World(ck, 'EventBridgeImpl', 'analytics-connector', {
      callbacks: {
        R: (w, s, args) => {
          const first = args.length && W.is(s, args[0], 'e' + during) === true;
          if (!first) return undefined;
          return { states: W.call(s, self, 'logEvent', [C('extra' + ++more)]).map((o) => [o.s, L.UNDEF]) };
        },
      },
    });
    const at = W.loc('setEventReceiver');
    let o = W.make([])[0];
    self = o.v;
    const want = [];
    for (let i = 0; i < kept && o; i++) { want.push('e' + i); o = W.call(o.s, self, 'logEvent', [C('e' + i)])[0]; }
    if (o) o = W.call(o.s, self, 'setEventReceiver', [W.sym('R', D.X)])[0];
    for (let i = kept; i < 4 && o; i++) { want.push('e' + i); o = W.call(o.s, self, 'logEvent', [C('e' + i)])[0]; }
    want.push('extra1');
    const got = o ? o.s.events().filter((e) => e.name === 'callback:R').map((e) => (e.args[0] && e.args[0].k === 'c' ? e.args[0].v : '?')) : [];
    const rest = got.filter((x) => x !== 'extra1').join() === want.slice(0, -1).join();
    ck.ob('an event logged by the receiver itself is delivered once too', !!o && o.kind === 'ret' && got.length === want.length && rest && got.includes('extra1'), { at, what: `${kept} events kept, the receiver logs another when handed e${during}: received [${got}] instead of [${want}] (the last at any place)`, key: 'reentrant' });
  }
  ck.atLeast('an event logged by the receiver itself is delivered once too', 16);
}
