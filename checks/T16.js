'use strict';
const { World } = require('./world');
const { C, D, UNDEF, term, show } = require('../engine/lib');
exports.technique = 'exhaustive abstract interpretation of the configuration merge and of the client constructor over all layer combinations';
exports.explanation =
  'The merge of built-in defaults, install-snippet configuration and page configuration is interpreted for every combination of layers in which each of several settings (top-level, nested and consent fields) is given, and the resulting setting is compared with the layer order; the constructor of the web client is interpreted likewise, looking at the configuration the experiment SDK and the behavioural targeting receive. Inputs and built-in defaults stay unchanged.';
const SETTINGS = { useDefaultNavigationHandler: [false, true], redirectConfig: [{ encodeRedirectInUrl: true }, { encodeRedirectInCookie: false }], serverZone: ['US', 'EU'], rtbtSessionTimeout: [1, 2] };
const DEFAULTS = { useDefaultNavigationHandler: true, redirectConfig: { encodeRedirectInUrl: false, encodeRedirectInCookie: true } };
exports.run = function (ck) { merge(ck); client(ck); };
const put = (layer, k, v) => ({ ...(layer || {}), [k]: v });
function layers() {
  let list = [[{}, undefined]];
  for (const [k, [a, b]] of Object.entries(SETTINGS)) list = list.flatMap(([o, p]) => [[o, p], [put(o, k, a), p], [o, put(p, k, b)], [put(o, k, a), put(p, k, b)]]);
  return [...list, [{}, {}], [{ custom: 1 }, { custom: 2 }], [{}, null]];
}
const expected = (own, page) => ({ ...DEFAULTS, ...own, ...page });
function merge(ck) {
  const f = ck.fn('mergeWithWindowConfig', 'experiment-tag');
  const file = ck.p.sources.find((x) => /experiment-tag[/\\]src[/\\]util[/\\]config\.ts$/.test(x.fileName)) || f.getSourceFile();
  const W = new World(ck, file, '', {});
  const at = ck.loc(f);
  const s0 = W.start();
  const run = (own, page, f2) => {
    for (const [x, fn] of W.exported(s0, 'mergeWithWindowConfig', 'experiment-tag')) {
      const s = x.clone();
      const a = W.val(s, own), g = W.val(s, page === undefined ? {} : { experimentConfig: page });
      const what = `snippet ${JSON.stringify(own)}, page ${JSON.stringify(page)}`;
      const outs = W.callValue(s, fn, [a, g]);
      ck.ob('the merge has one result', outs.length === 1 && outs[0].kind === 'ret', { at: ck.loc(outs[0] && outs[0].node) || at, what, key: 'one' });
      for (const o of outs) {
        if (o.kind !== 'ret') continue;
        f2(o, what);
        ck.ob('the merge leaves its inputs alone', W.is(o.s, a, own) === true && W.is(o.s, g, page === undefined ? {} : { experimentConfig: page }) === true, { at, what, key: 'inputs' });
        for (const p of W.callValue(o.s, fn, [W.val(o.s, {}), W.val(o.s, {})])) ck.ob('the merge leaves the defaults alone', p.kind === 'ret' && Object.entries(DEFAULTS).every(([k, v]) => W.is(p.s, W.get(p.s, p.v, k), v) === true) && W.is(p.s, W.get(p.s, p.v, 'consentOptions'), {}) === true, { at, what, key: 'defaults' });
      }
    }
  };
  for (const [own, page] of layers())
    run(own, page, (o, what) => {
      const e = expected(own, page);
      for (const k of [...Object.keys(SETTINGS), 'custom', 'instanceName']) ck.ob('the page wins over the snippet and that over the default', W.is(o.s, W.get(o.s, o.v, k), e[k]) === true, () => ({ at, what: `${what}: ${k} is ${show(W.get(o.s, o.v, k), o.s)} instead of ${JSON.stringify(e[k])}`, key: k }));
    });
  const CO = [undefined, {}, { consentRequired: true }, { consentRequired: false }, { consentStatus: 'granted' }, { consentStatus: 'denied' }, { consentRequired: true, consentStatus: 'pending' }, { consentRequired: true, consentStatus: 'granted' }];
  for (const a of CO) for (const b of CO) for (const none of b === undefined ? [true, false] : [false]) {
    const own = a === undefined ? {} : { consentOptions: a }, page = none ? undefined : b === undefined ? { serverZone: 'EU' } : { consentOptions: b };
    run(own, page, (o, what) => {
      const e = { ...a, ...b }, v = W.get(o.s, o.v, 'consentOptions');
      ck.ob('consent options are merged field by field', W.is(o.s, v, e) === true, () => ({ at, what: `${what}: consent options ${show(v, o.s)} instead of ${JSON.stringify(e)}`, key: 'consent' }));
    });
  }
}
// the client runs on the merged configuration
function client(ck) {
  const W = new World(ck, 'DefaultWebExperimentClient', 'experiment-tag', {
    budget: 5e7, smallSize: Infinity, globals: ['document', 'location'],
    model: (I, s, ctx, info, W) => {
      const n = info.name || '';
      if (/isLocalStorageAvailable$/.test(n)) return [[s, C(true)]];
      if (/clearIfErasedElsewhere$/.test(n)) return [[I.emit(s, ctx, { name: 'erasedElsewhere', args: info.args, node: info.node }), UNDEF]];
      if (n === 'new SessionManager') { const r = I.emit(s, ctx, { name: 'session', args: info.args, node: info.node }).clone(); return [[r, W.val(r, {})]]; }
      if (n === 'new EventStorageManager') { const r = s.clone(); return [[r, W.val(r, {})]]; }
      if (/Experiment(\.|$)|(^|\.)initialize(WithAmplitudeAnalytics)?$/.test(n) && /initialize/.test(n)) {
        const r = I.emit(s, ctx, { name: 'sdk', args: info.args, node: info.node }).clone();
        return [[r, W.val(r, { all: W.sym('all', D.X) })]];
      }
    },
    callbacks: { all: () => ({}) },
  });
  const at = ck.loc(W.cls);
  const g = W.globalObject();
  let n = 0;
  for (const [own, page] of [...layers(), [{ fetchTimeoutMillis: 7 }, undefined], [{ fetchTimeoutMillis: 7 }, { fetchTimeoutMillis: 8 }], [{ instanceName: 'a' }, { instanceName: 'b' }], [{ consentOptions: { consentRequired: true } }, { consentOptions: { consentStatus: 'granted' } }]]) {
    let s = W.start();
    for (const k of ['webExperiment', 'WebExperiment']) s = W.set(s, g, k, UNDEF);
    s = W.set(s, g, 'experimentConfig', page).clone();
    const outs = W.make([C('api-key'), W.val(s, { initialFlags: '[]', pageObjects: '{}', behavioralTargetingRules: '{"flag":{}}' }), W.val(s, own)], s);
    const what = `snippet ${JSON.stringify(own)}, page ${JSON.stringify(page)}`;
    ck.ob('the client is created', outs.length >= 1 && outs.every((o) => o.kind === 'ret'), { at: ck.loc(outs[0] && outs[0].node) || at, what, key: 'create' });
    for (const o of outs) {
      if (o.kind !== 'ret') continue;
      const ev = o.s.events().filter((e) => e.name === 'sdk');
      ck.ob('the experiment SDK is initialised once', ev.length === 1 && ev[0].args[0] && W.is(o.s, ev[0].args[0], 'api-key') === true, { at, what, key: 'sdk' });
      for (const e of ev) {
        n++;
        const want = { fetchTimeoutMillis: 1000, ...expected(own, page) };
        for (const k of [...Object.keys(SETTINGS), 'fetchTimeoutMillis', 'instanceName', 'custom']) ck.ob('the experiment SDK runs on the merged configuration', W.is(o.s, W.get(o.s, e.args[1], k), want[k]) === true, () => ({ at: e.loc || at, what: `${what}: ${k} is ${show(W.get(o.s, e.args[1], k), o.s)} instead of ${JSON.stringify(want[k])}`, key: 'sdk:' + k }));
      }
      const ses = o.s.events().filter((x) => x.name === 'session');
      ck.ob('the session runs on the merged timeout', ses.length === 1 && W.is(o.s, ses[0].args[1], expected(own, page).rtbtSessionTimeout) === true, { at: (ses[0] && ses[0].loc) || at, what, key: 'timeout' });
      for (const e of o.s.events().filter((x) => x.name === 'erasedElsewhere')) ck.ob('erasure uses the merged instance name', W.is(o.s, e.args[1], expected(own, page).instanceName) === true, { at: e.loc || at, what, key: 'erased' });
    }
  }
  ck.notes.push(`client constructor: ${n} configurations`);
  ck.atLeast('the experiment SDK runs on the merged configuration', 100);
}
