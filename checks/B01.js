'use strict';
const { Lookups, KEY, INLINE, PASSES } = require('./lookup');
const { C, show } = require('../engine/lib');
exports.technique = 'abstract interpretation of variant lookup on the constructed client for every presence combination of the variant sources, with symbolic variant contents';
exports.explanation =
  'The client is constructed abstractly for every combination of configured source, flag kind, stored, initial, inline and configured fallback variant; keys, values and payloads are symbolic. The variant returned by a lookup must be the one of the highest-priority source in the documented order, with its contents unchanged, and a second lookup must agree.';
exports.run = function (ck) {
  const W = new Lookups(ck, {});
  const at = W.loc('variant');
  const seen = new Set();
  for (const pass of PASSES(ck)) W.each2(() => ({}), (sc0, w) => {
    for (const inline of INLINE) {
      const sc = { ...sc0, inline };
      const e = W.expected(sc);
      seen.add(sc.source + '/' + (/^local/.test(sc.flag) ? 'local' : /^remote/.test(sc.flag) ? 'remote' : 'none') + '/' + e.from);
      const s = w.s.clone();
      const fb = W.inline(inline);
      const args = inline === 'none' ? [C(KEY)] : [C(KEY), W.val(s, fb)];
      for (const o of W.call(s, w.self, 'variant', args)) {
        if (!ck.ob('a lookup never throws', o.kind === 'ret', { at: ck.loc(o.node) || at, what: W.describe(sc), key: 'throw' })) continue;
        const good = W.is(o.s, o.v, e.variant) === true;
        const k = `${sc.source}/${sc.flag}/${e.from}`;
        ck.ob('the variant of the highest-priority source is returned unchanged', good, { at, what: `${W.describe(sc)}: returns ${show(o.v, o.s).slice(0, 160)} instead of the ${e.from} variant`, key: k });
      }
    }
  }, pass);
  for (const m of ['local', 'remote', 'none']) for (const src of ['localStorage', 'initialVariants'])
    for (const f of ['inline', 'initial', 'config', 'nothing', ...(m === 'local' ? ['local'] : ['stored'])])
      ck.ob('every source decides some lookup', seen.has(`${src}/${m}/${f}`) || (m === 'remote' && f === 'nothing'), { at, what: `${src}/${m}/${f}`, key: 'reach' });
  ck.atLeast('the variant of the highest-priority source is returned unchanged', 800);
};
