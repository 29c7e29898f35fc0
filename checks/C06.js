'use strict';
const L = require('../engine/lib');
const EC = require('./eval-common');
const { D, C, U, N, derives, isGet, isIn, show, showFacts } = L;
const { X } = D;
const { Effects } = require('../engine/effects');
exports.technique = 'abstract interpretation of whole-flag evaluation with spread-order tracking, plus effect summaries';
exports.explanation =
  'For every path that returns a variant the abstract result object is read back: outside "metadata" it must be exactly the configured variant, and "metadata" must layer flag, segment and variant metadata in this order for every key. Effect summaries show that evaluation writes to none of the three metadata objects.';
exports.run = function (ck) {
  const fnP = ck.fn('EvaluationEngine.evaluate', 'experiment-core');
  for (const entry of ['evaluate', 'evaluateWithTraces']) {
    const fn = ck.fn('EvaluationEngine.' + entry, 'experiment-core');
    const r = EC.flagScenario(ck, (h) => ({ context: h.obj({}), flags: h.arr([EC.twoSegments(h)]) }), { fn });
    const at = ck.loc(fn);
    const seen = new Set();
    for (const o of r.outs) {
      if (o.kind !== 'ret') { ck.ob('evaluation does not throw on absent metadata', false, { at, what: `${entry} throws ${show(o.v, o.s)}`, key: entry, detail: showFacts(o.s) }); continue; }
      const map = entry === 'evaluate' ? o.v : EC.resultOf(r.I, o.s, o.v, 'results');
      const res = map && EC.resultOf(r.I, o.s, map, 'f1');
      if (!res || res === L.UNDEF) continue;
      const i = ['V1', 'V2'].findIndex((n) => derives(o.s, res, (x) => x.k === 't' && x.op === 'get' && isIn(x.args[0], 'VARS') && isIn(x.args[1], n)));
      const isVar = (x) => x.k === 't' && x.op === 'get' && isIn(x.args[0], 'VARS') && isIn(x.args[1], 'V' + (i + 1));
      const ro = res.k === 'o' ? o.s.heap.get(res.loc) : undefined;
      const why = (w) => ({ at, what: `${entry}: ${w}: ${show(res, o.s)}`, key: entry + w, detail: showFacts(o.s) });
      if (!ck.ob('the result is a copy of the configured variant', i >= 0 && ro && ro.entries[0] && ro.entries[0].t === 's' && isVar(ro.entries[0].v), why('the returned object is not a copy of the chosen variant'))) continue;
      seen.add(i);
      ck.ob('only metadata differs from the configured variant', ro.entries.slice(1).every((e) => e.t === 'p' && e.k === 'metadata'), why('other fields are changed'));
      const e = ro.entries.slice(1).filter((x) => x.k === 'metadata').pop();
      const m = e && e.v;
      const mo = m && m.k === 'o' ? o.s.heap.get(m.loc) : undefined;
      if (!ck.ob('metadata is a merged object', !!mo, why('metadata is not merged'))) continue;
      const lay = [];
      for (const x of mo.entries) {
        if (x.t !== 's') { lay.push('extra:' + x.k); continue; }
        if (!(r.I.maskOf(o.s, x.v) & ~(U | N))) continue; // spreading nothing
        lay.push(isIn(x.v, 'FM') ? 'flag' : isIn(x.v, 'SM' + (i + 1)) ? 'segment' : isGet(x.v, 'metadata', isVar) ? 'variant' : show(x.v, o.s));
      }
      const present = (t) => !!(r.I.maskOf(o.s, t) & ~(U | N));
      const want = [['flag', r.sym('FM', X | U)], ['segment', r.sym('SM' + (i + 1), X | U)]].filter(([, t]) => present(t)).map(([n]) => n);
      const vm = L.prop(r.I, o.s, ro.entries[0].v, 'metadata');
      if (!vm || present(vm)) want.push('variant');
      ck.ob('metadata layers flag, segment, variant in this order', lay.join() === want.join(), why(`metadata is layered ${lay.join(' < ') || 'from nothing'} instead of ${want.join(' < ')}`));
    }
    ck.ob('both segments can decide', seen.has(0) && seen.has(1), { at, what: `${entry}: only ${[...seen]} decide`, key: entry });
  }
  const E = new Effects().analyse([fnP, ck.fn('EvaluationEngine.evaluateWithTraces', 'experiment-core')]);
  for (const f of [fnP, ck.fn('EvaluationEngine.evaluateWithTraces', 'experiment-core')]) {
    const s = E.of(f);
    ck.ob('configuration is never written', ![...s.mut.keys()].some((r) => r.startsWith('P')), () => { const [r, m] = [...s.mut][0]; const [at, x] = [...m][0]; return { at, what: `${ck.p.fnName(f)}: ${x.how}`, key: ck.p.fnName(f) + r }; });
  }
  ck.atLeast('metadata layers flag, segment, variant in this order', 10);
};
