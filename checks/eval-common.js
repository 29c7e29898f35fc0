'use strict';
// Drives the exported condition evaluation with one condition on one property.
const L = require('../engine/lib');
const { D, C, U, N, term, UNDEF } = L;
const { S, E, T, F, X, Z } = D;
exports.OPS = {
  pairs: [['is', 'is not'], ['contains', 'does not contain'], ['set is', 'set is not'], ['set contains', 'set does not contain'], ['set contains any', 'set does not contain any'], ['regex match', 'regex does not match']],
};
const objOf = (I, s, loc, props) => I.newObj(s, loc, { entries: Object.entries(props).map(([k, v]) => ({ t: 'p', k, v })) });
const arrOf = (I, s, loc, elems, dyn = []) => I.newObj(s, loc, { kind: 'arr', elems, dyn });
exports.objOf = objOf;
exports.arrOf = arrOf;
exports.typeOf = (ck, fn, i, ...path) => {
  const c = ck.p.checker;
  let t = c.getTypeAtLocation(fn.parameters[i]);
  for (const k of path) {
    t = c.getNonNullableType(t);
    if (k === '*') t = c.getIndexTypeOfType(t, 1);
    else { const sym = c.getPropertyOfType(t, k); t = sym && c.getTypeOfSymbol(sym); }
    if (!t) return undefined;
  }
  return t;
};
// one condition  p <op> values;  kind: null | string | list
exports.condition = function (ck, op, kind, opts = {}) {
  const fn = ck.fn('EvaluationEngine.evaluateConditions', 'experiment-core');
  const I = ck.interp({
    watch: () => true,
    smallSize: Infinity,
    opaque: (n) => /^SemanticVersion\./.test(n),
    pure: (i) => /^SemanticVersion|^RegExp|^new RegExp/.test(i.name),
    model: (I, s, ctx, info) => (opts.parsable && /^SemanticVersion\.parse$/.test(info.name) ? [[s, term('call', [info.name, '-', ...info.args], { mask: X })]] : undefined),
  });
  const s = I.state();
  const VAL = term('in', ['values', 'v'], { mask: X, type: exports.typeOf(ck, fn, 1, '*', '*', 'values') });
  const P = term('in', [kind === 'null' ? 'absent' : 'prop', 'p'], { mask: kind === 'null' ? U | N : S | E, type: ck.p.checker.getStringType() });
  const value = kind === 'list' ? arrOf(I, s, 'plist', [], [term('elem', [term('in', ['plist', 'p'], { mask: X })], { mask: S, type: ck.p.checker.getStringType() })]) : P;
  const target = objOf(I, s, 'target', { context: objOf(I, s, 'ctx', { user: objOf(I, s, 'user', { p: value }) }), result: objOf(I, s, 'res', {}) });
  const sel = arrOf(I, s, 'sel', [C('context'), C('user'), C('p')]);
  const cond = objOf(I, s, 'cond', { selector: sel, op: C(op), values: opts.values ? arrOf(I, s, 'vals', opts.values) : VAL });
  const conds = arrOf(I, s, 'conds', [arrOf(I, s, 'inner', [cond])]);
  return { I, fn, s, P, VAL, outs: I.run(fn, { state: s, args: [target, conds] }) };
};
// ---- whole-flag scenarios ----------------------------------------------------
// A condition whose truth is exactly  v === '(none)'  for a symbolic string v.
const NONE_STR = C('(none)');
exports.NONE_STR = NONE_STR;
exports.flagScenario = function (ck, build, cfg = {}) {
  const I = ck.interp({
    watch: () => true,
    smallSize: Infinity,
    opaque: (n) => n === 'hash32x86' || (cfg.opaque && cfg.opaque(n)),
    pure: (i) => i.name === 'hash32x86' || (cfg.pure && cfg.pure(i)),
  });
  const s = I.state();
  const str = ck.p.checker.getStringType();
  let n = 0;
  const h = {
    I, s,
    sym: (name, mask, type) => term('in', [name, 'sc'], { mask, type }),
    str: (name) => term('in', [name, 'sc'], { mask: S, type: str }),
    optStr: (name) => term('in', [name, 'sc'], { mask: S | U, type: str }),
    obj: (props) => objOf(I, s, 'o' + n++, props),
    arr: (elems) => arrOf(I, s, 'a' + n++, elems),
    cond: (v, selector = ['context', 'absent']) => h.obj({ selector: h.arr(selector.map((x) => (x.k ? x : C(x)))), op: C('is'), values: h.arr([v]) }),
  };
  const { context, flags } = build(h);
  const fn = cfg.fn || ck.fn('EvaluationEngine.evaluate', 'experiment-core');
  return { ...h, fn, context, flags, outs: I.run(fn, { state: s.clone(), args: [context, flags] }) };
};
exports.held = (s, v) => { const f = s.facts.get(v.id); return f && f.eq === NONE_STR ? true : f && f.ne && f.ne.includes(NONE_STR) ? false : undefined; };
// conjunction of the path facts of two states, or undefined when contradictory
exports.joint = (I, a, b) => {
  let s = a.clone();
  for (const f of b.facts.values()) {
    s = I.refine(s, f.term, f.mask, f.eq);
    if (!s) return undefined;
    for (const c of f.ne || []) { s = I.assume(s, I.eqTerm(s, f.term, c, false), false); if (!s) return undefined; }
  }
  return s;
};
// structural normal form of a value; spreads of absent values disappear
exports.canon = (I, s, v, facts = s, d = 0) => {
  if (!v || d > 12) return '~';
  if (v.k === 't') { const c = I.constOf(facts, v); return c ? JSON.stringify(c.v) ?? 'undefined' : '#' + v.id; }
  if (v.k === 'c') return JSON.stringify(v.v) ?? 'undefined';
  if (v.k !== 'o') return '#' + v.id;
  const o = s.heap.get(v.loc);
  if (!o) return '?';
  const go = (x) => exports.canon(I, s, x, facts, d + 1);
  if (o.kind === 'arr') return '[' + o.elems.map(go).join(',') + (o.dyn.length ? ';' + o.dyn.map(go).sort().join(',') : '') + ']';
  const out = [];
  for (const e of o.entries) {
    if (e.t === 's') { if (I.maskOf(facts, e.v) & ~(U | N)) out.push('...' + go(e.v)); }
    else if (e.t === 'x') out.push('-' + e.k);
    else out.push((e.k && e.k.k ? '[' + go(e.k) + ']' : e.k) + ':' + go(e.v));
  }
  return '{' + out.join(',') + '}';
};
// a flag with two segments, the first with conditions (m1 and m2) or m3
exports.twoSegments = (h, p = '') => {
  const seg1 = h.obj({ conditions: h.arr([h.arr([h.cond(h.str(p + 'm1')), h.cond(h.str(p + 'm2'))]), h.arr([h.cond(h.str(p + 'm3'))])]), variant: h.optStr(p + 'V1'), metadata: h.sym(p + 'SM1', X | U) });
  const seg2 = h.obj({ variant: h.optStr(p + 'V2'), metadata: h.sym(p + 'SM2', X | U) });
  return h.obj({ key: C(p || 'f1'), variants: h.sym(p + 'VARS', X), segments: h.arr([seg1, seg2]), metadata: h.sym(p + 'FM', X | U) });
};
exports.resultOf = (I, s, v, key) => {
  const o = v.k === 'o' ? s.heap.get(v.loc) : undefined;
  if (!o) return undefined;
  const e = o.entries.filter((x) => x.t === 'p' && x.k === key).pop();
  return e ? e.v : UNDEF;
};
// one flag, one bucketed segment with two allocations of two distributions
exports.bucketFlag = (h) => {
  const num = (n) => h.sym(n, Z | X, undefined);
  const dist = (n) => h.obj({ variant: h.str('D' + n), range: h.arr([num('ds' + n), num('de' + n)]) });
  const alloc = (n) => h.obj({ range: h.arr([num('as' + n), num('ae' + n)]), distributions: h.arr([dist(n + '0'), dist(n + '1')]) });
  const bucket = h.obj({ selector: h.arr([C('context'), C('u')]), salt: h.str('SALT'), allocations: h.arr([alloc('0'), alloc('1')]) });
  const seg = h.obj({ bucket, variant: h.optStr('DEF') });
  return h.obj({ key: C('f1'), variants: h.sym('VARS', X), segments: h.arr([seg]) });
};
