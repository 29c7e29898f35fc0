'use strict';
const { World } = require('./world');
const { C, D, UNDEF, show } = require('../engine/lib');
exports.technique = 'exhaustive abstract histories of the message bus, compared with a reference bus';
exports.explanation =
  'Every sequence up to the bound of subscriptions (same and different callbacks, with and without identifier, two message types), group subscriptions, publications with and without payload and unsubscribeAll is interpreted, and the callbacks called by every publication are compared with the reference bus; callbacks which publish and subscribe themselves are interpreted separately.';
exports.run = function (ck) {
  let inner;
  const W = new World(ck, 'MessageBus', 'experiment-tag', {
    budget: ck.thorough ? 3e8 : 6e7,
    callbacks: { a: () => undefined, b: () => undefined, g: () => undefined, h: () => undefined, n: (w, s, args, ctx) => inner(w, s, ctx) },
  });
  const at = W.loc('publish');
  const cb = {};
  for (const n of ['a', 'b', 'g', 'h', 'n']) cb[n] = W.sym(n, D.X);
  const TYPES = ['manual', 'url_change'];
  const PAY = [['an object', (s) => W.val(s, { name: 'x' })], ['nothing', null]];
  const heardOf = (s, n) => s.events().slice(n).filter((e) => /^callback:/.test(e.name));
  const match = (s, ev, want) => ev.length === want.length && ev.every((e, i) => e.name === 'callback:' + want[i][0] && e.args.length >= 1 && (want[i][1] ? W.eqv(s, e.args[0], want[i][1]) === true : W.is(s, e.args[0], {}) === true));
  const text = (ev) => ev.map((e) => e.name.slice(9)).join();
  const STEPS = [];
  for (const t of TYPES) {
    for (const [c, id] of [['a'], ['b'], ['a', 'id']]) {
      if (t === 'url_change' && c === 'b') continue;
      STEPS.push([`subscribe ${t} ${c}${id ? ' ' + id : ''}`, 'subscribe', () => [C(t), cb[c], ...(id ? [C(id)] : [])], (m) => { m.subs = [...m.subs, [t, c]]; return []; }]);
    }
    for (const g of ['g', 'h']) { if (t === 'manual' || g === 'g') STEPS.push([`group ${t} ${g}`, 'groupSubscribe', () => [C(t), cb[g]], (m) => { m.group = { ...m.group, [t]: g }; return []; }]); }
    for (const [pn, p] of PAY) STEPS.push([`publish ${t} with ${pn}`, 'publish', (st) => [C(t), ...(p ? [st.p] : [])], (m, st) => { const l = m.subs.filter((x) => x[0] === t).map((x) => [x[1], p ? st.p : null]); if (m.group[t]) l.push([m.group[t], p ? st.p : null]); return l; }]);
  }
  STEPS.push(['unsubscribeAll', 'unsubscribeAll', () => [], (m) => { m.subs = []; m.group = {}; return []; }]);
  const depth = ck.thorough ? 5 : 4;
  let total = 0;
  let work = W.make([], W.start()).map((o) => ({ s: o.s, self: o.v, m: { subs: [], group: {} }, hist: [] }));
  for (let d = 0; d < depth; d++) {
    const next = [];
    for (const w of work) for (const [name, method, args, model] of STEPS) {
      if (d + 1 === depth && method !== 'publish') continue;
      const m = { ...w.m };
      let s = w.s.clone();
      const st = { p: W.val(s, { name: 'x' }) };
      const want = model(m, st);
      const n = s.events().length;
      const outs = W.call(s, w.self, method, args(st));
      total++;
      const hist = [...w.hist, name];
      const what = hist.join('; ');
      ck.ob('every history has a single outcome', outs.length === 1 && outs[0].kind === 'ret', { at: ck.loc(outs[0] && outs[0].node) || at, what, key: 'one' });
      for (const o of outs) {
        const ev = heardOf(o.s, n);
        ck.ob('a publication calls its subscribers once each in order, then the group callback, with its payload', match(o.s, ev, want), () => ({ at, what: `${what}: called [${text(ev)}]${ev[0] && ev[0].args[0] ? ' with ' + show(ev[0].args[0], o.s) : ''} instead of [${want.map((x) => x[0])}]`, key: method }));
        next.push({ s: o.s, self: w.self, m, hist });
      }
    }
    work = next;
  }
  // a subscriber which uses the bus itself
  const self = work.length ? W.make([], W.start())[0] : null;
  const invoke = (w, s, ctx, m, args) => ({ states: w.I.callMethod(s, ctx, self.v, C(m), args, w.cls).map(([x]) => [x, UNDEF]) });
  const NEST = [
    ['publishes another type', (w, s, ctx) => invoke(w, s, ctx, 'publish', [C('url_change')]), ['a', 'n', 'b', 'b', 'g'], true],
    ['subscribes another type', (w, s, ctx) => invoke(w, s, ctx, 'subscribe', [C('url_change'), cb.a]), ['a', 'n', 'b', 'g'], false],
  ];
  for (const [name, f, want, other] of NEST) {
    inner = f;
    let s = self.s;
    const seq = [['subscribe', [C('manual'), cb.a]], ['subscribe', [C('manual'), cb.n]], ['subscribe', [C('manual'), cb.b]], ['groupSubscribe', [C('manual'), cb.g]], ...(other ? [['subscribe', [C('url_change'), cb.b]]] : [])];
    for (const [m, a] of seq) s = W.call(s, self.v, m, a)[0].s;
    const n = s.events().length;
    for (const o of W.call(s, self.v, 'publish', [C('manual'), W.val(s = s.clone(), { name: 'x' })])) {
      const ev = heardOf(o.s, n);
      ck.ob('a subscriber may use the bus without disturbing the others', o.kind === 'ret' && ev.map((e) => e.name.slice(9)).join() === want.join(), { at, what: `a subscriber which ${name}: called [${text(ev)}] instead of [${want}]`, key: 'nested' });
    }
  }
  ck.notes.push(`${total} steps, histories of length ${depth}`);
  ck.atLeast('a publication calls its subscribers once each in order, then the group callback, with its payload', 500);
};
