'use strict';
const { Lookups, KEY, PASSES } = require('./lookup');
const { C, D, show } = require('../engine/lib');
exports.technique = 'abstract interpretation of lookups with exposure tracking on the constructed client for every presence combination of the variant sources; the reported source is compared with the true origin';
exports.explanation =
  'The client is constructed abstractly with a deprecated analytics provider, which is told the source of every exposure, for every combination of configured source, flag kind, stored, initial, inline and configured fallback variant. The source, variant and key reported must be those of the origin the returned value really has, and assignments and fallbacks must be reported through the calls meant for them.';
exports.run = function (ck) {
  for (const pass of PASSES(ck)) for (const entry of ['variant', 'exposure']) {
    const W = new Lookups(ck, {});
    const at = W.loc('exposure');
    const fns = Object.fromEntries(['track', 'setUserProperty', 'unsetUserProperty'].map((n) => [n, W.sym(n, D.X)]));
    W.each2((s) => ({ analyticsProvider: W.val(s, fns), automaticExposureTracking: entry === 'variant' }), (sc0, w) => {
      for (const inline of entry === 'variant' ? ['none', 'string', ...(ck.thorough ? ['object'] : [])] : ['none']) {
        const sc = { ...sc0, inline };
        const e = W.expected(sc);
        const args = [C(KEY)];
        const s = w.s.clone();
        if (inline !== 'none') args.push(W.val(s, W.inline(inline)));
        const n = s.events().length;
        for (const o of W.call(s, w.self, entry, args)) {
          const what = `${entry}: ${W.describe(sc)}`;
          if (!ck.ob('a lookup never throws', o.kind === 'ret', { at: ck.loc(o.node) || at, what, key: 'throw' })) continue;
          const ev = o.s.events().slice(n).filter((x) => /^callback:/.test(x.name));
          const md = e.variant.metadata;
          const k = `${sc.source}/${sc.flag}/${e.from}`;
          if (md && md.trackExposure === false) { ck.ob('no report when the variant opts out of exposures', !ev.length, { at, what, key: 'optout' }); continue; }
          const names = ev.map((x) => x.name.slice(9)).join();
          const asFallback = e.fallback || !e.variant.value;
          ck.ob('an assignment is reported as one and a fallback as one', names === (asFallback ? 'unsetUserProperty' : 'setUserProperty,track'), { at: ev[0] ? ev[0].loc : at, what: `${what}: reported by ${names || 'nothing'} although the variant is ${asFallback ? 'a fallback or has no value' : 'an assigned one'}`, key: 'calls:' + k });
          for (const x of ev) {
            const src = W.get(o.s, x.args[0], 'properties', 'source');
            ck.ob('the reported source is the true origin', e.tags.some((t) => src === C(t)), { at: x.loc, what: `${what}: the variant comes from ${e.from} but ${show(src, o.s)} is reported`, key: 'tag:' + k });
            const val = W.get(o.s, x.args[0], 'properties', 'variant');
            ck.ob('the reported variant is the returned one', W.is(o.s, val, e.variant.value) === true && W.get(o.s, x.args[0], 'properties', 'key') === C(KEY), { at: x.loc, what: `${what}: reports ${show(val, o.s)}`, key: 'value:' + k });
            const v = W.get(o.s, x.args[0], 'variant');
            ck.ob('the reported variant is the returned one', e.from === 'nothing' || W.is(o.s, v, e.variant) === true, { at: x.loc, what: `${what}: reports the variant ${show(v, o.s).slice(0, 120)}`, key: 'variant:' + k });
          }
        }
      }
    }, pass);
  }
  ck.atLeast('the reported source is the true origin', 500);
};
