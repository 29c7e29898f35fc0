'use strict';
const L = require('../engine/lib');
const EC = require('./eval-common');
const { D, C, showFacts } = L;
const { X, U } = D;
exports.technique = 'relational abstract interpretation: both evaluation entries on the same symbolic flags, path by path';
exports.explanation =
  'Plain and traced evaluation are analysed on the same symbolic flag lists (conditions, buckets, metadata and dependent flags left open). For every pair of paths whose facts are compatible, the returned flag-to-variant maps must be structurally identical.';
const cases = {
  'two segments': (h) => ({ context: h.obj({}), flags: h.arr([EC.twoSegments(h)]) }),
  'two segments, no conditions': (h) => {
    const seg1 = h.obj({ variant: h.optStr('V1'), metadata: h.sym('SM1', X | U) }), seg2 = h.obj({ variant: h.optStr('V2'), metadata: h.sym('SM2', X | U) });
    return { context: h.obj({}), flags: h.arr([h.obj({ key: C('f1'), variants: h.sym('VARS', X), segments: h.arr([seg1, seg2]), metadata: h.sym('FM', X | U) })]) };
  },
  'three segments': (h) => {
    const seg = (i) => h.obj({ conditions: h.arr([h.arr([h.cond(h.str('q' + i))])]), variant: h.optStr('W' + i), metadata: h.sym('WM' + i, X | U) });
    return { context: h.obj({}), flags: h.arr([h.obj({ key: C('f1'), variants: h.sym('VARS', X), segments: h.arr([seg(1), seg(2), seg(3)]), metadata: h.sym('FM', X | U) })]) };
  },
  'empty lists': (h) => {
    const seg1 = h.obj({ conditions: h.arr([]), variant: h.optStr('V1') }), seg2 = h.obj({ conditions: h.arr([h.arr([])]), variant: h.optStr('V2') });
    return { context: h.obj({}), flags: h.arr([h.obj({ key: C('f1'), variants: h.sym('VARS', X), segments: h.arr([seg1, seg2]) }), h.obj({ key: C('f2'), variants: h.sym('VARS2', X), segments: h.arr([]) })]) };
  },
  'bucketing': (h) => ({ context: h.obj({ u: h.sym('uid', D.S | D.E | U | D.N) }), flags: h.arr([EC.bucketFlag(h)]) }),
  'dependent flag': (h) => {
    const f1 = h.obj({ key: C('f1'), variants: h.sym('VARS', X), segments: h.arr([h.obj({ conditions: h.arr([h.arr([h.cond(h.str('m1'))])]), variant: h.optStr('V1'), metadata: h.sym('SM1', X | U) })]) });
    const f2 = h.obj({ key: C('f2'), variants: h.sym('VARS2', X), segments: h.arr([h.obj({ conditions: h.arr([h.arr([h.cond(h.str('m2'), ['result', 'f1', 'key'])])]), variant: h.optStr('V2') })]) });
    return { context: h.obj({}), flags: h.arr([f1, f2]) };
  },
};
const hasWit = (t) => t.k === 't' && (t.op === 'wit' || t.args.some((a) => a && a.k && hasWit(a)));
exports.run = function (ck) {
  const plainFn = ck.fn('EvaluationEngine.evaluate', 'experiment-core'), tracedFn = ck.fn('EvaluationEngine.evaluateWithTraces', 'experiment-core');
  for (const [name, build] of Object.entries(cases)) {
    const a = EC.flagScenario(ck, build, { fn: plainFn }), b = EC.flagScenario(ck, build, { fn: tracedFn });
    const seen = { a: new Set(), b: new Set() };
    a.outs.forEach((x, i) =>
      b.outs.forEach((y, j) => {
        const s = EC.joint(a.I, x.s, y.s);
        if (!s) return;
        seen.a.add(i); seen.b.add(j);
        // existential facts of the two runs are not comparable; the quantifier-free paths decide
        if ([...s.facts.values()].some((f) => hasWit(f.term))) return;
        if (x.kind === 'throw' || y.kind === 'throw') { ck.ob('both entries fail alike', x.kind === y.kind, { at: ck.loc(tracedFn), what: `${name}: one entry throws where the other returns`, key: name, detail: showFacts(s) }); return; }
        const res = b.I.constOf(y.s, y.v) ? undefined : EC.resultOf(b.I, y.s, y.v, 'results');
        const p = EC.canon(a.I, x.s, x.v, s), q = res ? EC.canon(b.I, y.s, res, s) : 'no results';
        ck.ob('plain and traced results agree on every common path', p === q, { at: ck.loc(tracedFn), what: `${name}: on the same path plain evaluation returns ${L.show(x.v, x.s)} and traced evaluation ${res ? L.show(res, y.s) : 'nothing'}`, key: name, detail: showFacts(s) });
      }));
    ck.ob('every path of one entry has a counterpart in the other', seen.a.size === a.outs.length && seen.b.size === b.outs.length, { at: ck.loc(tracedFn), what: `${name}: some path of ${seen.a.size === a.outs.length ? 'traced' : 'plain'} evaluation has no counterpart`, key: name });
  }
  ck.atLeast('plain and traced results agree on every common path', 60);
};
