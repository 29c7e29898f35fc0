'use strict';
const { ClientWorld } = require('./client-world');
const { C, D, show } = require('../engine/lib');
exports.technique = 'abstract interpretation of fetch, start and evaluation for every state of a field in the explicit, integration and provider user, and of histories in which the caller edits what it passed in or got out';
exports.explanation =
  'A field of the user is unset, undefined, null, empty or set in each of the three sources, independently. The user given to the network, to the evaluation engine and to the exposure tracking must take it from the first source that has it; user properties merge per property in the same order. Aliasing: after the client received a user, and after it handed one out, the caller overwrites, adds and deletes fields and properties of its object; what the client answers and sends must be unchanged, and evaluation must leave the user as it was.';
const STATES = [['unset'], ['undefined', undefined], ['null', null], ['empty', ''], ['set', 'v']];
const has = (x) => x.length > 1 && x[1] !== undefined && x[1] !== null;
exports.run = function (ck) {
  merge(ck); properties(ck); alias(ck);
  ck.atLeast('a field comes from the first source that has it', 300);
  ck.atLeast('edits by the caller never reach the client', 40);
};
function world(ck, cb, extra = {}) {
  const seen = [];
  const W = new ClientWorld(ck, {
    callbacks: { provider: cb.provider, provider2: cb.provider2, integration: cb.integration, plug: () => true, track: () => undefined }, ...extra,
    model: (I, s, ctx, info) => {
      if (info.name === 'EvaluationEngine.evaluate' && info.args[0]) seen.push({ s, user: W.get(s, info.args[0], 'user'), node: info.node, by: 'evaluation' });
      if (/^(IntegrationManager|UserSessionExposureTracker)\.track$/.test(info.name || '') && info.args[1]) seen.push({ s, user: info.args[1], node: info.node, by: 'exposure' });
    },
  });
  W.variants = (s, args) => { seen.push({ s, user: args[0], by: 'fetch' }); return [{ f: { key: 'on', value: 'on' } }, 'ret']; };
  W.seen = seen;
  return W;
}
const lit = (fields) => Object.fromEntries(Object.entries(fields).filter(([, x]) => x.length > 1).map(([k, x, t]) => [k, x[1]]));
function built(W, { integration, late, opts = {} }, f) {
  const s0 = W.start();
  const provider = { getUser: W.sym('provider', D.X) };
  const cfg = { pollOnStart: false, ...(late === 'first' ? {} : { userProvider: provider }), ...opts, exposureTrackingProvider: { track: W.sym('track', D.X) } };
  for (const o of W.client(cfg, s0)) {
    let list = [o.s];
    if (late) list = list.flatMap((s) => { const r = s.clone(); return W.call(r, o.v, 'setUserProvider', [W.val(r, { getUser: W.sym('provider2', D.X) })]).map((x) => x.s); });
    if (integration) list = list.flatMap((s) => { const r = s.clone(); return W.call(r, o.v, 'addPlugin', [W.val(r, { type: 'integration', getUser: W.sym('integration', D.X), track: W.sym('plug', D.X) })]).map((x) => x.s); });
    for (const s of list) f(s, o.v);
  }
}
function merge(ck) {
  const fields = ck.thorough ? ['user_id', 'device_id', 'country', 'groups', 'language'] : ['user_id', 'country'];
  const rule = 'a field comes from the first source that has it';
  for (const field of fields) for (const integration of [true, false]) for (const late of ck.thorough ? [false, 'first', 'replaced'] : [field === 'country' ? (integration ? 'first' : 'replaced') : false])
    for (const e of STATES) for (const i of integration ? STATES : [['unset']]) for (const p of STATES) {
      const tag = (n, x) => (x.length > 1 ? { [field]: x[0] === 'set' ? (field === 'groups' ? { org: [n] } : n) : x[1] } : {});
      const answer = () => ({ ...tag('provider', p), platform: 'provider' });
      const W = world(ck, { provider: late ? () => ({ [field]: 'replaced', carrier: 'replaced' }) : answer, provider2: answer, integration: () => ({ ...tag('integration', i), os: 'integration' }) });
      const what0 = `${field}: explicit ${e[0]}, integration ${integration ? i[0] : 'absent'}, provider ${p[0]}${late ? ' (set later)' : ''}`;
      const from = has(e) ? ['explicit', e] : has(i) ? ['integration', i] : has(p) ? ['provider', p] : undefined;
      const want = from && tag(from[0], from[1])[field];
      const judge = (x, how) => {
        const got = W.get(x.s, x.user, field);
        const at = x.node ? ck.loc(x.node) : W.loc('fetch');
        const g = x.by === 'evaluation' && field === 'groups';
        if (!g) ck.ob(rule, from ? W.is(x.s, got, want) === true : W.is(x.s, got, undefined) === true || W.is(x.s, got, null) === true, { at, what: `${what0}, ${how}: the ${x.by} user has ${show(got, x.s).slice(0, 80)}`, key: field + ':' + x.by });
        for (const [k, v, on] of [['version', 'explicit', true], ['os', 'integration', integration], ['platform', 'provider', true], ['carrier', '', false]])
          ck.ob('fields of one source are kept', W.is(x.s, W.get(x.s, x.user, k), on ? v : undefined) === true, { at, what: `${what0}, ${how}: ${k} is ${show(W.get(x.s, x.user, k), x.s).slice(0, 60)}`, key: k + ':' + x.by });
      };
      built(W, { integration, late }, (s, self) => {
        const user = (r) => W.val(r, { ...tag('explicit', e), version: 'explicit' });
        for (const how of ['fetch', 'start', 'setUser']) {
          const r = s.clone();
          W.seen.length = 0;
          for (const o of W.call(r, self, how, [user(r)])) {
            if (how === 'setUser') for (const q of W.call(o.s, self, 'exposure', [C('f')])) void q;
            else {
              ck.ob('fetching with a merged user succeeds', o.kind === 'ret' && W.seen.some((x) => x.by === 'fetch'), { at: W.loc(how), what: what0, key: 'fetch' });
              for (const q of W.call(o.s, self, 'exposure', [C('f')])) void q;
            }
            for (const q of W.call(o.s, self, 'all', [])) ck.ob('lookups succeed', q.kind === 'ret', { at: W.loc('all'), what: what0, key: 'all' });
          }
          for (const by of ['evaluation', ...(how === 'setUser' ? [] : ['exposure', 'fetch'])]) ck.ob('every consumer is given a user', W.seen.some((x) => x.by === by), { at: W.loc(how), what: `${what0}: no ${by} user after ${how}`, key: by });
          for (const x of W.seen) judge(x, how);
        }
      });
    }
}
function properties(ck) {
  const st = [['unset'], ['undefined', undefined], ['empty', {}], ['set']];
  for (const e of st) for (const i of st) for (const p of st) {
    const tag = (n, x) => (x[0] === 'set' ? { user_properties: { all: n, [n]: n, [n === 'integration' ? 'ie' : n === 'provider' ? 'ip' : 'ie']: n, [n === 'explicit' ? 'pe' : 'ip']: n } } : x.length > 1 ? { user_properties: x[1] } : {});
    // expected: every property of every source, explicit over integration over provider
    const want = {};
    for (const [n, x] of [['provider', p], ['integration', i], ['explicit', e]]) Object.assign(want, (tag(n, x).user_properties) || {});
    const W = world(ck, { provider: () => tag('provider', p), integration: () => tag('integration', i) });
    built(W, { integration: true }, (s, self) => {
      const r = s.clone();
      W.seen.length = 0;
      for (const o of W.call(r, self, 'fetch', [W.val(r, { user_id: 'u', ...tag('explicit', e) })])) for (const q of W.call(o.s, self, 'exposure', [C('f')])) W.call(q.s, self, 'all', []);
      for (const x of W.seen) {
        const got = W.get(x.s, x.user, 'user_properties');
        ck.ob('user properties merge per property, first source first', W.is(x.s, got, want) === true, { at: x.node ? ck.loc(x.node) : W.loc('fetch'), what: `explicit ${e[0]}, integration ${i[0]}, provider ${p[0]}: the ${x.by} user has ${show(got, x.s).slice(0, 160)}`, key: 'props:' + x.by });
      }
    });
  }
}
// everything the client shows of its user: getUser, the request, the evaluation context
function observe(W, s, self) {
  const res = [];
  for (const g of W.call(s, self, 'getUser', [])) {
    const t = JSON.stringify(W.tree(g.s, g.v), (k, v) => (k === 'loc' ? undefined : k === 't' ? v.id : v));
    W.seen.length = 0;
    for (const f of W.call(g.s, self, 'fetch', [])) for (const a of W.call(f.s, self, 'all', [])) void a;
    const u = W.seen.map((x) => x.by + JSON.stringify(W.tree(x.s, x.user), (k, v) => (k === 'loc' ? undefined : k === 't' ? v.id : v)));
    res.push([t, ...new Set(u)].join('\n'));
  }
  return [...new Set(res)].join('\n--\n');
}
function alias(ck) {
  const rule = 'edits by the caller never reach the client';
  const users = [{ user_id: 'u', user_properties: { a: 'x' } }, { user_id: 'u', user_properties: {} }, { user_id: 'u' }, { user_id: 'u', country: 'c', user_properties: { a: 'x', b: 'y' } }];
  const EDITS = [
    ['overwrites a field', (W, s, u) => W.set(s, u, 'user_id', 'EVIL')],
    ['adds a field', (W, s, u) => W.set(s, u, 'city', 'EVIL')],
    ['clears a field', (W, s, u) => W.set(s, u, 'user_id', undefined)],
    ['replaces the properties', (W, s, u) => W.set(s, u, 'user_properties', { a: 'EVIL' })],
    ['overwrites a property', (W, s, u) => { const p = W.get(s, u, 'user_properties'); return p && p.k === 'o' ? W.set(s, p, 'a', 'EVIL') : undefined; }],
    ['adds a property', (W, s, u) => { const p = W.get(s, u, 'user_properties'); return p && p.k === 'o' ? W.set(s, p, 'new', 'EVIL') : undefined; }],
  ];
  const W = world(ck, { provider: () => ({ device_id: 'd' }), integration: () => ({}) });
  const before = [[], ['setUser'], ['setUser', 'setUser']];
  for (const opts of [{}, { fetchOnStart: false }]) built(W, { integration: false, opts }, (s0, self) => {
    for (const hist of before) for (const prior of hist.length ? [users[0], users[2]] : [null]) {
      let s = s0;
      for (const m of hist) { const r = s.clone(); [s] = W.call(r, self, m, [W.val(r, prior)]).map((o) => o.s); }
      for (const how of ['setUser', 'fetch', 'start', 'getUser', 'getUser after reading', 'evaluation']) for (const lit of users) {
        if (opts.fetchOnStart === false && how !== 'start') continue;
        const r = s.clone();
        const mine = W.val(r, lit);
        const given = W.call(r, self, how === 'fetch' || how === 'start' ? how : 'setUser', [mine]);
        for (const o of given) {
          let handles = [[o.s, mine]];
          if (how.startsWith('getUser')) handles = W.call(o.s, self, 'getUser', []).flatMap((g) => (how === 'getUser' ? [[g.s, g.v]] : W.call(g.s, self, 'getUser', []).map((h) => [h.s, g.v])));
          for (const [x, h] of handles) {
            const base = observe(W, x, self);
            ck.ob('the client shows the user it was given', base.includes('"u"'), { at: W.loc('getUser'), what: `${how} of ${JSON.stringify(lit)}: ${base.slice(0, 120)}`, key: 'shown' });
            for (const [n, f] of EDITS) {
              const y = f(W, x, h);
              if (!y) continue;
              const now = observe(W, y, self);
              ck.ob(rule, now === base, { at: W.loc(how.startsWith('getUser') ? 'getUser' : 'setUser'), what: `after ${[...hist, how].join(', ')} of ${JSON.stringify(lit)}${prior ? ' (before: ' + JSON.stringify(prior) + ')' : ''} the caller ${n}: the client then shows ${now.slice(0, 200)}`, key: 'alias:' + (how.startsWith('getUser') ? 'getUser' : 'setUser') });
            }
            if (how === 'evaluation') {
              for (const q of W.call(x, self, 'all', [])) for (const v of W.call(q.s, self, 'variant', [C('f')])) {
                const now = observe(W, v.s, self);
                ck.ob('evaluation never edits the stored user', now === base, { at: W.loc('all'), what: `user ${JSON.stringify(lit)}: afterwards ${now.slice(0, 200)}`, key: 'evaluate' });
              }
            }
          }
        }
      }
      // groups are moved out of the evaluation user, not out of the stored one
      const r = s.clone();
      for (const o of W.call(r, self, 'setUser', [W.val(r, { user_id: 'u', groups: { org: ['a'] }, group_properties: { org: { a: { p: 'q' } } }, cookie: { c: 'd' } })])) {
        const base = observe(W, o.s, self);
        for (const m of ['all', 'fetch', 'variant', 'exposure']) for (const q of W.call(o.s, self, m, m === 'variant' || m === 'exposure' ? [C('f')] : []))
          ck.ob('evaluation never edits the stored user', observe(W, q.s, self) === base && /org/.test(base), { at: W.loc(m), what: `${m} with groups: afterwards ${observe(W, q.s, self).slice(0, 200)}`, key: 'groups' });
      }
    }
  });
}
