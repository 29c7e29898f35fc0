'use strict';
const { Lookups, KEY, PASSES } = require('./lookup');
const { C, D, show } = require('../engine/lib');
exports.technique = 'abstract interpretation of lookups and explicit exposures on the constructed client for every presence combination of the variant sources; every emitted exposure is compared with the prescribed one';
exports.explanation =
  'The client is constructed abstractly with an exposure tracking provider and an analytics integration, for every combination of configured source, flag kind, stored, initial, inline and configured fallback variant and of automatic exposure tracking. The exposures handed to provider and integration must be exactly those prescribed: variant key for assignments, no variant for defaults, nothing for plain fallbacks or opted-out variants, and none on lookup when automatic tracking is off. The cached variants stay unchanged by tracking.';
exports.run = function (ck) {
  for (const web of [false, true]) for (const pass of PASSES(ck)) for (const entry of ['variant', 'exposure', 'silent']) {
    if (web && !ck.thorough && (entry !== 'exposure' || pass.flag.length > 4)) continue;
    const W = new Lookups(ck, { globals: web ? ['location'] : [], callbacks: { plug: true, getUser: { user_id: 'u' } } });
    const at = W.loc('exposure');
    const track = W.sym('track', D.X), plug = W.sym('plug', D.X), user = W.sym('getUser', D.X);
    W.each2((s) => ({ exposureTrackingProvider: W.val(s, { track }), automaticExposureTracking: entry === 'silent' ? false : undefined, ...(web ? { internalInstanceNameSuffix: 'web' } : {}) }), (sc0, w0) => {
      const base = w0.s.clone();
      const plugin = W.val(base, { type: 'integration', track: plug, getUser: user });
      for (const w of W.call(base, w0.self, 'addPlugin', [plugin]).map((o) => ({ s: o.s, self: w0.self })))
      for (const inline of entry === 'variant' ? ['none', 'string'] : ['none']) {
        const sc = { ...sc0, inline };
        const e = W.expected(sc);
        const args = [C(KEY)];
        const s = w.s.clone();
        if (inline !== 'none') args.push(W.val(s, W.inline(inline)));
        const n = s.events().length;
        for (const o of W.call(s, w.self, entry === 'exposure' ? 'exposure' : 'variant', args)) {
          const what = `${web ? 'web ' : ''}${entry}: ${W.describe(sc)}`;
          if (!ck.ob('a lookup never throws', o.kind === 'ret', { at: ck.loc(o.node) || at, what, key: 'throw' })) continue;
          const ev = o.s.events().slice(n);
          const direct = ev.filter((x) => x.name === 'callback:track'), plugged = ev.filter((x) => x.name === 'callback:plug');
          const want = entry === 'silent' ? undefined : W.exposure(sc, e);
          const k = `${e.from}${e.hasDefault ? '+default' : ''}`;
          ck.ob('exposures are tracked exactly when prescribed', direct.length === (want ? 1 : 0) && plugged.length >= (want ? 1 : 0) && (want || !plugged.length), { at: (direct[0] || plugged[0] || { loc: at }).loc, what: `${what}: ${direct.length} exposures to the provider, ${plugged.length} to the integration; the variant comes from ${e.from}${e.hasDefault ? ' with a default' : ''}`, key: 'when:' + entry + ':' + k });
          if (!want) continue;
          for (const [x, exp] of [...direct.map((d) => [d, d.args[0]]), ...plugged.map((p) => [p, W.get(o.s, p.args[0], 'eventProperties')])]) {
            const r = o.s;
            let w2 = want;
            if (web) {
              const url = W.get(r, exp, 'metadata', 'url'), time = W.get(r, exp, 'time');
              w2 = { ...want, ...(url ? { metadata: { ...(want.metadata || {}), url } } : {}), time };
            }
            ck.ob('the exposure carries the prescribed contents', W.is(r, exp, w2) === true, { at: x.loc, what: `${what}: tracked ${show(exp, r).slice(0, 200)}`, key: 'what:' + k });
          }
          const type = want.metadata && want.metadata.exposureEvent ? 'shown' : want.metadata && want.metadata.deliveryMethod === 'web' ? '$impression' : '$exposure';
          for (const p of plugged) ck.ob('the integration receives the prescribed event type', W.is(o.s, W.get(o.s, p.args[0], 'eventType'), type) === true, { at: p.loc, what: `${what}: event type ${show(W.get(o.s, p.args[0], 'eventType'), o.s)}`, key: 'type' });
          // tracking leaves the cached variants alone
          for (const q of W.call(o.s, w.self, 'variant', args)) ck.ob('tracking an exposure does not change the variant', q.kind === 'ret' && W.is(q.s, q.v, e.variant) === true, { at, what: `${what}: a later lookup gives ${show(q.v, q.s).slice(0, 160)}`, key: 'intact' + (web ? ':web' : '') });
        }
      }
    }, pass);
  }
  ck.atLeast('the exposure carries the prescribed contents', 200);
};
