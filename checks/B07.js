'use strict';
const { HttpWorld } = require('./client-world');
const { C, D, show } = require('../engine/lib');
exports.technique = 'abstract interpretation with a fault at every storage access: each operation, area, stored name and phase of the history fails or finds unusable contents, and every public outcome is checked';
exports.explanation =
  'Histories of the client (create, connect an integration, start, look up, expose, set an option, clear, reload) are interpreted over a modelled browser storage in which the area is missing, cannot be reached, or fails on one kind of access, for all or one stored name, from the start, during one phase or from one phase on; and over stored contents that are not what the client wrote. No outcome may be an exception or a rejected promise, answers must come from memory, and exposures must reach the integration once.';
const VAR = 'amp-exp-$default_instance-abcdef', QUEUE = 'EXP_unsent_$default_instance', SENT = 'EXP_sent_v3_$default_instance';
const NAMES = [VAR, VAR + '-flags', VAR + '-variants-options', QUEUE, SENT];
exports.run = function (ck) {
  faults(ck); contents(ck);
  ck.atLeast('no storage failure surfaces', 500);
};
function world(ck) {
  const st = { fault: () => false, getter: () => false };
  const W = new HttpWorld(ck, {
    budget: ck.thorough ? 2e8 : 4e7, absent: ['location'], callbacks: { plug: () => true, gu: () => ({}), track: () => undefined },
    storage: (op, area, key) => (st.fault(op, area, key) ? 'throw' : undefined),
    readThrow: (base, key) => (/^(local|session)Storage$/.test(key) ? st.getter(key.startsWith('l') ? 'local' : 'session') : false),
  });
  W.variants = () => [{ f: { key: 'on', value: 'on' } }, 'ret'];
  W.flags = () => [[[{ key: 'l', variants: { x: { key: 'x', value: 'x' } }, segments: [{ variant: 'x' }], metadata: { evaluationMode: 'local' } }], 'ret']];
  return { W, st };
}
// phases of a history; each maps one state to outcomes
function phases(W, { web, early, user = { user_id: 'u' } }) {
  const one = (m, f) => (w) => { const r = w.s.clone(); return W.call(r, w.self, m, f ? f(r) : []).map((o) => ({ ...o, self: w.self })); };
  const create = (w) => W.client({ pollOnStart: false, retryFetchOnFailure: false, throwOnError: true, automaticExposureTracking: true, exposureTrackingProvider: undefined, ...(web ? { internalInstanceNameSuffix: 'web' } : {}) }, w.s).map((o) => ({ ...o, self: o.v }));
  if (early) return [
    ['create', create],
    ['start', one('start', (r) => [W.val(r, user)])],
    ['variant', one('variant', () => [C('f')]), 'on'],
    ['local variant', one('variant', () => [C('l')]), 'x'],
    ['addPlugin', one('addPlugin', (r) => [W.val(r, { type: 'integration', getUser: W.sym('gu', D.X), track: W.sym('plug', D.X) })])],
    ['exposure', one('exposure', () => [C('f')])],
    ['all', one('all')],
  ];
  return [
    ['create', create],
    ['addPlugin', one('addPlugin', (r) => [W.val(r, { type: 'integration', getUser: W.sym('gu', D.X), track: W.sym('plug', D.X) })])],
    ['start', one('start', (r) => [W.val(r, user)])],
    ['variant', one('variant', () => [C('f')]), 'on'],
    ['exposure', one('exposure', () => [C('f')])],
    ['all', one('all')],
    ['setTracksAssignment', one('setTracksAssignment', () => [C(true)])],
    ['fetch', one('fetch', (r) => [W.val(r, user)])],
    ['variant again', one('variant', () => [C('f')]), 'on'],
    ['local variant', one('variant', () => [C('l')]), 'x'],
    ['clear', one('clear')],
    ['cleared variant', one('variant', () => [C('f')]), undefined],
  ];
}
// the getter of a blocked storage is in force for the whole page; faults may come and go
function history(ck, W, st, s0, what, fault, opt = {}) {
  let ws = [{ s: s0 }];
  const list = phases(W, opt);
  list.forEach(([name, step, want], i) => {
    const next = [];
    for (const w of ws) {
      st.fault = (...a) => fault(i, name, ...a);
      st.getter = opt.getter ? (a) => opt.getter(i, a) : () => false;
      const n = w.s.events().length;
      for (const o of step(w)) {
        const at = ck.loc(o.node) || W.loc(name === 'create' ? 'start' : name.replace(/^local |^cleared | again$/, ''));
        if (!ck.ob('no storage failure surfaces', o.kind === 'ret', { at, what: `${what}: ${name} fails`, key: name })) continue;
        const un = o.s.events().slice(n).find((e) => e.name === 'unhandled');
        ck.ob('no storage failure surfaces', !un, { at: un && un.loc, what: `${what}: ${name} leaves a rejected promise`, key: name + ':unhandled' });
        if (/variant/.test(name)) { const k = W.get(o.s, o.v, 'key'); ck.ob('answers come from memory', W.is(o.s, k, want) === true, { at: W.loc('variant'), what: `${what}: ${name} answers ${show(o.v, o.s).slice(0, 100)}`, key: name }); }
        next.push(o);
      }
    }
    ws = next.map((o) => ({ s: o.s, self: o.self }));
  });
  st.fault = st.getter = () => false;
  for (const w of ws) {
    const got = w.s.events().filter((e) => e.name === 'callback:plug' && /"f"/.test(show(e.args[0], w.s)));
    ck.ob('exposures still reach the integration', opt.web || opt.lost ? got.length >= 1 : got.length === 1, { at: W.loc('exposure'), what: `${what}: ${got.length} deliveries of the exposure of f`, key: 'delivered' });
  }
  ck.ob('the history goes through', ws.length > 0, { at: W.loc('start'), what, key: 'through' });
}
function faults(ck) {
  const { W, st } = world(ck);
  const g = W.globalObject();
  for (const web of [false, true]) {
    for (const areas of [['local'], ['session'], ['local', 'session']]) {
      for (const early of [false, true]) for (const user of [{ user_id: 'u' }, {}]) for (let from = 0; from < (early ? 7 : 12); from++)
        history(ck, W, st, W.start(), `${areas.join(' and ')} storage blocked from step ${from}${web ? ', web' : ''}${early ? ', integration connected late' : ''}`, () => false, { web, early, user, lost: from > 0, getter: (i, a) => i >= from && areas.includes(a) });
      let s = W.start();
      for (const a of areas) s = W.set(s, g, a + 'Storage', undefined);
      history(ck, W, st, s, `${areas.join(' and ')} storage missing${web ? ', web' : ''}`, () => false, { web });
    }
    const names = phases(W, {}).map((x) => x[0]);
    for (const op of ['getItem', 'setItem', 'removeItem', 'any']) for (const area of ['local', 'session', 'both']) for (const key of ['every name', 'every name but the probe', ...(ck.thorough || !web ? NAMES : [])]) {
      const hit = (o, a, k) => (op === 'any' || o === op) && (area === 'both' || a === area) && (key === 'every name' || (key === 'every name but the probe' ? k !== 'EXP_test' : k === key));
      const what = `${op} fails on ${key} of ${area} storage${web ? ' (web)' : ''}`;
      for (const early of [false, true]) history(ck, W, st, W.start(), `${what}, always${early ? ', integration connected late' : ''}`, (i, n, ...a) => hit(...a), { web, early });
      if (key.startsWith('every') && (ck.thorough || !web)) names.forEach((n, i) => {
        if (i) history(ck, W, st, W.start(), `${what}, from ${n} on`, (j, m, ...a) => j >= i && hit(...a), { web, lost: true });
        history(ck, W, st, W.start(), `${what}, during ${n}`, (j, m, ...a) => j === i && hit(...a), { web, lost: true });
      });
    }
  }
}
function contents(ck) {
  const { W, st } = world(ck);
  for (const text of ['', '{', 'undefined', 'null', '5', 'true', '""', '[]', '{}', '{"f":null}', '{"f":']) for (const names of [...NAMES.map((n) => [n]), NAMES]) {
    let s = W.start();
    for (const n of names) for (const a of ['local', 'session']) s = W.setStored(s, a, n, C(text));
    for (const early of [false, true]) for (const user of [{ user_id: 'u' }, {}]) history(ck, W, st, s, `stored contents ${JSON.stringify(text)} under ${names.length > 1 ? 'every name' : names[0]}${early ? ', integration connected late' : ''}`, () => false, { early, user });
  }
}
