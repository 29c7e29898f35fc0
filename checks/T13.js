'use strict';
const { TagWorld } = require('./tag-world');
const { C, UNDEF, show } = require('../engine/lib');
exports.technique = 'exhaustive abstract interpretation of behavioural rule evaluation over rule families and event histories, compared with a reference evaluator';
exports.explanation =
  'The behavioural targeting manager is constructed over every rule of the families (each count operation and threshold, each time window at its boundary, property filters, negation, combinations of groups) with every stored event list, and driven through histories of tracked events and elapsed time. After the construction and after every event the matched behaviours equal those of the reference evaluation at that moment.';
const HOUR = 3600e3, DAY = 24 * HOUR, KEY = 'EXP_apikey-lon_rtbt_events', SKEY = 'EXP_apikey-lon_rtbt_session';
exports.run = function (ck) {
  const W = new TagWorld(ck, 'BehavioralTargetingManager', 'experiment-tag', { budget: ck.thorough ? 8e8 : 2e8 });
  const at = W.loc('getMatchedBehaviors');
  const T0 = W.now;
  // ---- reference evaluation ----------------------------------------------------
  const FILTER = {
    is: (p, l) => p !== undefined && p !== null && l.includes(String(p)),
    'is not': (p, l) => !(p !== undefined && p !== null && l.includes(String(p))),
    contains: (p, l) => p !== undefined && p !== null && l.some((x) => String(p).includes(x)),
  };
  const filtered = (e, fs) => (fs || []).every((f) => FILTER[f.op]((e.properties || {})[f.selector[1]], f.values));
  const COUNT = { 'greater or equal': (a, b) => a >= b, greater: (a, b) => a > b, is: (a, b) => a === b, less: (a, b) => a < b, 'less or equal': (a, b) => a <= b, 'is not': (a, b) => a !== b };
  const cond = (c, m, t) => {
    const l = m.events.filter((e) => e.event_type === c.event_type && (c.time_type === 'current_session' ? e.session_id === m.session(t) : e.timestamp >= t - c.time_value * (c.interval === 'day' ? DAY : HOUR)) && filtered(e, c.event_props));
    return COUNT[c.op] ? COUNT[c.op](l.length, c.value) : false;
  };
  const matches = (r, m, t) => r.some((g) => g.every((x) => (x.negated ? !cond(x.condition, m, t) : cond(x.condition, m, t))));
  const uses = (r, type) => r.some((g) => g.some((x) => x.condition.event_type === type));
  // ---- rule families -------------------------------------------------------------
  const OPS = Object.keys(COUNT);
  const b = (o) => ({ type: 'behavior', event_type: 'A', op: 'greater or equal', value: 1, time_type: 'rolling', time_value: 1, interval: 'day', ...o });
  const n = (c, negated = true) => ({ condition: c, negated });
  const p = (c) => ({ condition: c });
  const is = (k, ...values) => ({ selector: ['context', k], op: 'is', values });
  const RULES = {};
  for (const op of [...OPS, 'unknown']) for (const value of [0, 1, 2]) RULES[`${op} ${value}`] = [[p(b({ op, value }))]];
  for (const [time_value, interval] of [[1, 'hour'], [2, 'hour'], [1, 'day'], [2, 'day'], [1, undefined]]) RULES[`within ${time_value} ${interval}`] = [[p(b({ time_value, interval }))]];
  RULES['this session'] = [[p(b({ time_type: 'current_session', time_value: 0, interval: undefined }))]];
  RULES['twice this session'] = [[p(b({ time_type: 'current_session', time_value: 0, value: 2 }))]];
  const XY = [p(b({})), p(b({ event_type: 'B' }))];
  RULES['A and B'] = [XY];
  RULES['A or B'] = [[XY[0]], [XY[1]]];
  RULES['A and not B'] = [[XY[0], n(XY[1].condition)]];
  RULES['not A'] = [[n(XY[0].condition)]];
  RULES['negated false'] = [[n(XY[0].condition, false)]];
  RULES['not A or (A and B)'] = [[n(XY[0].condition)], XY];
  RULES['(A and B) or (not A and not B)'] = [XY, [n(XY[0].condition), n(XY[1].condition)]];
  RULES['no group'] = [];
  RULES['A with k=x'] = [[p(b({ event_props: [is('k', 'x')] }))]];
  RULES['A with k in x, y'] = [[p(b({ event_props: [is('k', 'x', 'y')] }))]];
  RULES['A with k=x and j=1'] = [[p(b({ event_props: [is('k', 'x'), is('j', '1')] }))]];
  RULES['A without k=x'] = [[p(b({ event_props: [{ selector: ['context', 'k'], op: 'is not', values: ['x'] }] }))]];
  RULES['A with k containing x'] = [[p(b({ event_props: [{ selector: ['context', 'k'], op: 'contains', values: ['x'] }] }))]];
  RULES['no A with k=x'] = [[n(b({ event_props: [is('k', 'x')] }))]];
  RULES['exactly one A with k=x this session'] = [[p(b({ op: 'is', time_type: 'current_session', event_props: [is('k', 'x')] }))]];
  RULES['empty filters'] = [[p(b({ event_props: [] }))]];
  // ---- stored events --------------------------------------------------------------
  const ev = (i, event_type, age, session_id, properties = {}) => ({ uuid: 'u' + i, id: i, event_type, timestamp: T0 - age, session_id, properties });
  const STORED = {
    none: [],
    'one A': [ev(1, 'A', 1000, 'cur')],
    'two A': [ev(1, 'A', 1000, 'cur', { k: 'x' }), ev(2, 'A', 500, 'cur', { k: 'y', j: 1 })],
    'A an hour ago': [ev(1, 'A', HOUR, 'old')],
    'A over an hour ago': [ev(1, 'A', HOUR + 1, 'old', { k: 'x' })],
    'A over two hours ago': [ev(1, 'A', 2 * HOUR + 1, 'old')],
    'A a day ago': [ev(1, 'A', DAY, 'old')],
    'A over a day ago': [ev(1, 'A', DAY + 1, 'old')],
    'A two days ago': [ev(1, 'A', 2 * DAY, 'old'), ev(2, 'A', 2 * DAY + 1, 'old')],
    'A in the future': [ev(1, 'A', -HOUR, 'cur')],
    'old and new session': [ev(1, 'A', 5000, 'old', { k: 'x', j: 1 }), ev(2, 'A', 100, 'cur', { k: 'xx' })],
    B: [ev(1, 'B', 1000, 'cur', { k: 'x' })],
    'B and A': [ev(1, 'B', 1000, 'cur'), ev(2, 'A', 1000, 'cur', { k: 'x', j: 1 }), ev(3, 'C', 1000, 'cur')],
    'without properties': [{ ...ev(1, 'A', 1000, 'cur'), properties: undefined }],
  };
  // ---- reading the matched behaviours ------------------------------------------------
  const matched = (s, self) => {
    const o = W.call(s, self, 'getMatchedBehaviors', []);
    if (o.length !== 1 || o[0].kind !== 'ret') return undefined;
    const list = (v) => { const x = W.I.obj(o[0].s, v); return x && !x.open && x.entries.every((e) => e.t === 'p' || (e.t === 'd' && W.I.distinctKey(e.k))) ? x.entries.map((e) => [e.t === 'p' ? e.k : e.k.v, e.v]) : undefined; };
    const m = list(o[0].v);
    if (!m) return undefined;
    const out = {};
    for (const [k, v] of m) { const l = list(v); if (!l) return undefined; out[k] = l.map((x) => x[0]); }
    return out;
  };
  const canon = (o) => (o === undefined ? 'undecided' : Object.keys(o).sort().map((k) => `${k}:${[...o[k]].sort()}`).join(' '));
  const begin = (rules, stored, t) => {
    W.now = t;
    let s = W.start();
    if (stored.length) s = W.setStored(s, 'local', KEY, C(JSON.stringify({ events: stored, nextId: stored.length + 1 })));
    s = W.setCookie(s, SKEY, encodeURIComponent(JSON.stringify({ sessionId: 'cur', sessionStartTime: t - 5000, lastEventTime: t - 1 })));
    s = s.clone();
    return W.make([C('apikey-long-1234'), W.val(s, rules)], s);
  };
  const model = (stored, t) => { const m = { events: stored.slice(), last: t - 1, sid: 'cur', n: 0 }; m.session = (x) => (x - m.last <= 30 * 60e3 ? m.sid : ((m.sid = 's' + ++m.n), (m.last = x), m.sid)); return m; };
  const expectAll = (rules, m, t) => { const out = {}; for (const f of Object.keys(rules)) { const l = Object.keys(rules[f]).filter((k) => matches(rules[f][k], m, t)); if (l.length) out[f] = l; } return out; };
  // ---- every rule over every stored list, alone and after one event ----------------------
  let total = 0;
  const compare = (rule, s, self, want, what) => { const got = matched(s, self); ck.ob(rule, canon(got) === canon(want), () => ({ at, what: `${what}: matched [${canon(got)}] instead of [${canon(want)}]`, key: rule })); };
  for (const [sn, stored] of Object.entries(STORED)) for (const [rn, rule] of Object.entries(RULES)) {
    const rules = { f: { b1: rule } };
    const what = `rule "${rn}" with events "${sn}"`;
    for (const o of begin(rules, stored, T0)) {
      total++;
      ck.ob('the rules can be evaluated', o.kind === 'ret', { at: ck.loc(o.node) || at, what, key: 'throws' });
      if (o.kind !== 'ret') continue;
      const m = model(stored, T0);
      compare('matched on start exactly when the rule holds', o.s, o.v, expectAll(rules, m, T0), what);
      for (const [type, props] of [['A', { k: 'x', j: 1 }], ['A', {}], ['B', {}], ['Z', { k: 'x' }]]) {
        const s = o.s.clone();
        for (const q of W.call(s, o.v, 'trackEvent', [C(type), W.val(s, props)])) {
          ck.ob('tracking never fails', q.kind === 'ret', { at: ck.loc(q.node) || at, what, key: 'throws' });
          const m2 = model(stored, T0);
          m2.last = T0;
          if (uses(rule, type)) m2.events.push({ event_type: type, timestamp: T0, session_id: 'cur', properties: props });
          compare('matched after an event exactly when the rule holds', q.s, o.v, expectAll(rules, m2, T0), `${what}, then ${type}${JSON.stringify(props)}`);
        }
      }
    }
  }
  // ---- histories over several flags sharing events -------------------------------------------
  const ALL = {
    f: { a1: RULES['is 1'], a2: RULES['A and not B'], s: RULES['this session'] },
    g: { b: [[p(b({ event_type: 'B' }))]], h: RULES['within 1 hour'], x: RULES['A with k=x'] },
    h: { none: RULES['no group'], not: RULES['not A'], c: [[p(b({ event_type: 'C', op: 'less', value: 2 }))]] },
  };
  const STEPS = [['A', { k: 'x' }], ['A', {}], ['B', {}], ['C', {}], ['unknown', {}], ['minute'], ['past the session'], ['past the hour'], ['past the day']];
  const DT = { minute: 60e3, 'past the session': 30 * 60e3 + 1, 'past the hour': HOUR + 1, 'past the day': DAY + 1 };
  const depth = ck.thorough ? 5 : 4;
  let work = [];
  for (const sn of ['none', 'two A']) for (const o of begin(ALL, STORED[sn], T0)) work.push({ s: o.s, self: o.v, t: T0, ev: STORED[sn], last: T0 - 1, sid: 'cur', n: 0, cur: expectAll(ALL, model(STORED[sn], T0), T0), hist: [sn] });
  for (const w of work) compare('matched on start exactly when the rule holds', w.s, w.self, w.cur, 'histories');
  for (let d = 0; d < depth; d++) {
    const next = [];
    for (const w of work) for (const [step, props] of STEPS) {
      const hist = [...w.hist, step + (props && props.k ? ' k=x' : '')];
      if (DT[step]) { if (d + 1 < depth && !DT[w.hist[w.hist.length - 1]]) next.push({ ...w, t: w.t + DT[step], hist }); continue; }
      W.now = w.t;
      total++;
      const s = w.s.clone();
      const m = { events: w.ev.slice(), last: w.last, sid: w.sid, n: w.n };
      m.session = () => m.sid;
      if (w.t - w.last > 30 * 60e3) m.sid = 's' + ++m.n;
      m.last = w.t;
      const known = Object.values(ALL).some((x) => Object.values(x).some((r) => uses(r, step)));
      if (known) m.events.push({ event_type: step, timestamp: w.t, session_id: m.sid, properties: props });
      const cur = {};
      for (const f of Object.keys(ALL)) {
        const l = Object.keys(ALL[f]).filter((k) => (uses(ALL[f][k], step) ? matches(ALL[f][k], m, w.t) : (w.cur[f] || []).includes(k)));
        if (l.length) cur[f] = l;
      }
      const outs = W.call(s, w.self, 'trackEvent', [C(step), W.val(s, props)]);
      ck.ob('every history has a single outcome', outs.length === 1 && outs[0].kind === 'ret', { at: ck.loc(outs[0] && outs[0].node) || at, what: hist.join(', '), key: 'one' });
      for (const o of outs) {
        if (o.kind !== 'ret') continue;
        compare('every event brings the behaviours that refer to it up to date', o.s, w.self, cur, hist.join(', '));
        next.push({ ...w, s: o.s, ev: m.events, last: m.last, sid: m.sid, n: m.n, cur, hist });
      }
    }
    work = next;
  }
  ck.notes.push(`${total} constructions and events over ${Object.keys(RULES).length} rules and ${Object.keys(STORED).length} event lists`);
  ck.atLeast('matched after an event exactly when the rule holds', 1000);
};
