'use strict';
const { HttpWorld, ClientWorld } = require('./client-world');
const { C, D, show } = require('../engine/lib');
exports.technique = 'abstract interpretation of construction, start, fetch and lookup for every option unset, undefined, null and set; the effects at the host boundary show which value took effect';
exports.explanation =
  'For every configuration option the client is constructed abstractly with the option missing, undefined, null and set to each representative value, alone and (servers and zone) in combination. The values at the boundary decide which setting took effect: request URLs and time-outs, timer delays, rejections, tracked exposures, storage names, returned variants and requests made.';
const ABSENT = [['missing'], ['undefined', undefined], ['null', null]];
exports.run = function (ck) {
  servers(ck); intervals(ck); flagsAndTimeouts(ck); sources(ck); others(ck);
  ck.atLeast('each request goes to the configured or default server', 40);
  ck.atLeast('an unset option takes its default, a set one is honoured', 60);
};
const RULE = 'an unset option takes its default, a set one is honoured';
const withOpt = (base, k, [, ...v]) => (v.length ? { ...base, [k]: v[0] } : base);
const user = (W, s) => [W.val(s, { user_id: 'u' })];
function started(W, cfg) { return W.client(cfg).flatMap((o) => (o.kind === 'ret' ? W.call(o.s, o.v, 'start', user(W, o.s)).map((r) => ({ ...r, self: o.v })) : [{ ...o, failed: true }])); }
function servers(ck) {
  const W = new HttpWorld(ck, {});
  const at = W.loc('start');
  const zones = [...ABSENT, ['US', 'US'], ['us', 'us'], ['EU', 'EU'], ['eu', 'eu'], ['Eu', 'Eu'], ['', ''], ['other', 'jp']];
  const url = (n) => [...ABSENT, ['set', `https://${n}.example`], ...(ck.thorough ? [['', '']] : [])];
  for (const z of zones) for (const a of url('api')) for (const f of url('flag')) {
    const eu = z.length > 1 && typeof z[1] === 'string' && z[1].toLowerCase() === 'eu';
    const api = a[1] || (eu ? 'https://api.lab.eu.amplitude.com' : 'https://api.lab.amplitude.com');
    const flag = f[1] || (eu ? 'https://flag.lab.eu.amplitude.com' : 'https://flag.lab.amplitude.com');
    const cfg = withOpt(withOpt(withOpt({ pollOnStart: false }, 'serverZone', z), 'serverUrl', a), 'flagsServerUrl', f);
    for (const r of started(W, cfg)) {
      const what = `serverZone ${z[0]}, serverUrl ${a[0]}, flagsServerUrl ${f[0]}`;
      ck.ob('the client starts', r.kind === 'ret', { at, what, key: 'start' });
      const rq = W.requests(r.s);
      for (const [kind, want] of [['variants', api], ['flags', flag]]) {
        const l = rq.filter((x) => x.kind === kind);
        ck.ob('each request goes to the configured or default server', l.length === 1 && l[0].url.startsWith(want + '/'), { at: l[0] ? l[0].e.loc : at, what: `${what}: ${kind} requested from ${l.map((x) => x.url).join() || 'nowhere'} instead of ${want}`, key: kind + ':' + z[0].toLowerCase() });
      }
    }
  }
}
function intervals(ck) {
  const W = new HttpWorld(ck, {});
  const at = W.loc('start');
  const vals = [...ABSENT, ...[0, 1, 59999, 60000, 60001, 299999, 300000, 3600000, -5].map((n) => ['set to ' + n, n])];
  for (const v of vals) for (const r of started(W, withOpt({}, 'flagConfigPollingIntervalMillis', v))) {
    const want = typeof v[1] === 'number' ? Math.max(60000, v[1]) : 300000;
    const t = W.timersOf(r.s).filter((x) => x.kind === 'setInterval');
    ck.ob('flag polling uses the configured interval, at least the minimum', t.length === 1 && t[0].delay === C(want), { at, what: `interval ${v[0]}: polls every ${t.map((x) => show(x.delay, r.s)).join() || 'never'} instead of ${want}`, key: v[0] });
  }
}
function flagsAndTimeouts(ck) {
  const W = new HttpWorld(ck, {});
  const at = W.loc('start');
  const B = [...ABSENT, ['true', true], ['false', false]];
  const dflt = (v, d) => (v[1] === undefined || v[1] === null ? d : v[1]);
  for (const v of [...ABSENT, ['set', 1234], ['set small', 1]]) for (const r of started(W, withOpt({}, 'fetchTimeoutMillis', v)))
    for (const q of W.requests(r.s)) ck.ob(RULE, q.timeout === C(dflt(v, 10000)), { at: q.e.loc, what: `fetchTimeoutMillis ${v[0]}: the ${q.kind} request times out after ${show(q.timeout, r.s)}`, key: 'fetchTimeoutMillis' });
  for (const v of B) {
    for (const r of started(W, withOpt({}, 'pollOnStart', v))) ck.ob(RULE, (W.timersOf(r.s).some((t) => t.kind === 'setInterval')) === dflt(v, true), { at, what: `pollOnStart ${v[0]}`, key: 'pollOnStart' });
    for (const r of started(W, withOpt({}, 'fetchOnStart', v))) ck.ob(RULE, W.requests(r.s).some((x) => x.kind === 'variants') === dflt(v, true), { at, what: `fetchOnStart ${v[0]}`, key: 'fetchOnStart' });
  }
  // failures
  for (const v of B) {
    for (const k of ['throwOnError', 'retryFetchOnFailure']) {
      for (const o of W.client(withOpt({}, k, v))) {
        W.variants = (s) => { const [x, v] = W.err(s, 'FetchError', [500, 'm']); Object.assign(s, x.clone()); return [v, 'throw']; };
        for (const r of W.call(o.s, o.v, 'fetch', user(W, o.s))) {
          const got = k === 'throwOnError' ? r.kind === 'throw' : W.timersOf(r.s).length > 0;
          ck.ob(RULE, got === dflt(v, k !== 'throwOnError'), { at: W.loc('fetch'), what: `${k} ${v[0]}: a failing fetch ${got ? 'does' : 'does not'} ${k === 'throwOnError' ? 'reject' : 'retry'}`, key: k });
        }
        W.variants = () => [{}, 'ret'];
      }
    }
  }
}
function sources(ck) {
  const W = new HttpWorld(ck, {});
  const at = W.loc('variant');
  const sv = { key: W.sym('sk', D.S), value: W.sym('sv', D.S) }, iv = { key: W.sym('ik', D.S), value: W.sym('iv', D.S) }, fv = { key: W.sym('fk', D.S), value: W.sym('fv', D.S) };
  W.variants = () => [{ a: sv }, 'ret'];
  for (const v of [...ABSENT, ['localStorage', 'localStorage'], ['initialVariants', 'initialVariants']]) for (const o of W.client(withOpt({ automaticExposureTracking: false, initialVariants: { a: iv } }, 'source', v)))
    for (const r of W.call(o.s, o.v, 'fetch', user(W, o.s))) for (const q of W.call(r.s, o.v, 'variant', [C('a')]))
      ck.ob(RULE, q.kind === 'ret' && W.is(q.s, q.v, v[1] === 'initialVariants' ? iv : sv) === true, { at, what: `source ${v[0]}: lookup gives ${show(q.v, q.s).slice(0, 100)}`, key: 'source' });
  for (const v of [...ABSENT, ['set', { a: iv }]]) for (const o of W.client(withOpt({ automaticExposureTracking: false }, 'initialVariants', v))) {
    if (!ck.ob('the client can be constructed', o.kind === 'ret', { at, what: 'initialVariants ' + v[0], key: 'initialVariants' })) continue;
    for (const q of W.call(o.s, o.v, 'variant', [C('a')])) ck.ob(RULE, q.kind === 'ret' && W.is(q.s, q.v, v[1] ? iv : {}) === true, { at, what: `initialVariants ${v[0]}: lookup ${q.kind === 'ret' ? 'gives ' + show(q.v, q.s).slice(0, 100) : 'throws'}`, key: 'initialVariants' });
  }
  for (const v of [...ABSENT, ['empty', {}], ['set', fv]]) for (const o of W.client(withOpt({ automaticExposureTracking: false }, 'fallbackVariant', v)))
    for (const q of W.call(o.s, o.v, 'variant', [C('zz')])) ck.ob(RULE, q.kind === 'ret' && W.is(q.s, q.v, v[1] === fv ? fv : {}) === true, { at, what: `fallbackVariant ${v[0]}: lookup ${q.kind === 'ret' ? 'gives ' + show(q.v, q.s).slice(0, 100) : 'throws'}`, key: 'fallbackVariant' });
  const flag = JSON.stringify([{ key: 'f', variants: { on: { key: 'on', value: 'on' } }, segments: [{ variant: 'on' }], metadata: { evaluationMode: 'local' } }]);
  for (const v of [...ABSENT, ['set', flag], ['empty list', '[]']]) for (const o of W.client(withOpt({ automaticExposureTracking: false }, 'initialFlags', v))) {
    if (!ck.ob('the client can be constructed', o.kind === 'ret', { at, what: 'initialFlags ' + v[0], key: 'initialFlags' })) continue;
    for (const q of W.call(o.s, o.v, 'variant', [C('f')])) ck.ob(RULE, q.kind === 'ret' && W.is(q.s, W.get(q.s, q.v, 'key') || C(undefined), v[1] === flag ? 'on' : undefined) === true, { at, what: `initialFlags ${v[0]}: lookup gives ${show(q.v, q.s).slice(0, 100)}`, key: 'initialFlags' });
  }
}
function others(ck) {
  const W = new HttpWorld(ck, { callbacks: { getUser: { user_id: 'provided' } } });
  const at = W.loc('variant');
  const track = W.sym('track', D.X);
  W.variants = () => [{ a: { key: 'on', value: 'on' } }, 'ret'];
  const B = [...ABSENT, ['true', true], ['false', false]];
  for (const v of B) for (const o of W.client(withOpt({ exposureTrackingProvider: { track } }, 'automaticExposureTracking', v)))
    for (const r of W.call(o.s, o.v, 'fetch', user(W, o.s))) for (const q of W.call(r.s, o.v, 'variant', [C('a')])) {
      const n = q.s.events().filter((e) => e.name === 'callback:track').length;
      ck.ob(RULE, n === (v[1] === false ? 0 : 1), { at, what: `automaticExposureTracking ${v[0]}: a lookup tracks ${n} exposures`, key: 'automaticExposureTracking' });
    }
  for (const v of [...ABSENT, ['set', { track }]]) for (const o of W.client(withOpt({}, 'exposureTrackingProvider', v))) for (const r of W.call(o.s, o.v, 'fetch', user(W, o.s))) for (const q of W.call(r.s, o.v, 'exposure', [C('a')]))
    ck.ob(RULE, q.kind === 'ret' && q.s.events().some((e) => e.name === 'callback:track') === !!v[1], { at: W.loc('exposure'), what: `exposureTrackingProvider ${v[0]}`, key: 'exposureTrackingProvider' });
  for (const v of [...ABSENT, ['set', { track, setUserProperty: track, unsetUserProperty: track }]]) for (const o of W.client(withOpt({}, 'analyticsProvider', v))) for (const r of W.call(o.s, o.v, 'fetch', user(W, o.s))) for (const q of W.call(r.s, o.v, 'exposure', [C('a')]))
    ck.ob(RULE, q.kind === 'ret' && q.s.events().some((e) => e.name === 'callback:track') === !!v[1], { at: W.loc('exposure'), what: `analyticsProvider ${v[0]}`, key: 'analyticsProvider' });
  for (const v of [...ABSENT, ['set', 'mine']]) for (const o of W.client(withOpt({}, 'instanceName', v))) for (const r of W.call(o.s, o.v, 'fetch', user(W, o.s))) {
    const want = v[1] || '$default_instance';
    const keys = [...W.storedKeys(r.s, 'local'), ...W.storedKeys(r.s, 'session')];
    ck.ob(RULE, keys.length > 0 && keys.every((k) => k.includes(want)), { at: W.loc('fetch'), what: `instanceName ${v[0]}: storage names ${keys.join()}`, key: 'instanceName' });
  }
  const getUser = W.sym('getUser', D.X);
  for (const v of [...ABSENT, ['set', { getUser }]]) for (const o of W.client(withOpt({}, 'userProvider', v))) for (const r of W.call(o.s, o.v, 'fetch', [W.val(o.s, {})])) {
    const has = r.s.events().some((e) => e.name === 'callback:getUser');
    ck.ob(RULE, r.kind === 'ret' && has === !!v[1], { at: W.loc('fetch'), what: `userProvider ${v[0]}: ${has ? 'consulted' : 'not consulted'}`, key: 'userProvider' });
  }
  // the default http client is the browser's
  const P = new ClientWorld(ck, { netNames: [], events: ['fetch', /(^|\.)fetch$/, /^callback:/] });
  for (const v of ABSENT) for (const o of P.client(withOpt({ retryFetchOnFailure: false }, 'httpClient', v))) ck.ob('the client can be constructed', o.kind === 'ret', { at, what: 'httpClient ' + v[0], key: 'httpClient' });
}
