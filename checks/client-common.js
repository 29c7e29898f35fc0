'use strict';
// Shared model of the browser client for the checks of its public API.
const L = require('../engine/lib');
const { ts, D, C, U, N, term, derives, isGet, isCall, isIn, prop } = L;
const { ALL, X, S, E, F, T } = D;

// fields of a class by what the class stores in them (not by field name)
function fieldsByInit(ck, cls) {
  const out = new Map(); // field -> initialiser expression
  const visit = (n) => {
    if (ts.isBinaryExpression(n) && n.operatorToken.kind === ts.SyntaxKind.EqualsToken && ts.isPropertyAccessExpression(n.left) && n.left.expression.kind === ts.SyntaxKind.ThisKeyword) {
      if (!out.has(n.left.name.text)) out.set(n.left.name.text, n.right);
    }
    ts.forEachChild(n, visit);
  };
  visit(cls);
  for (const m of cls.members) if (ts.isPropertyDeclaration(m) && m.initializer && !out.has(m.name.getText())) out.set(m.name.getText(), m.initializer);
  return out;
}
function fieldFrom(ck, cls, calleeName) {
  for (const [f, e] of fieldsByInit(ck, cls)) {
    let hit = false;
    const v = (n) => {
      if (hit) return;
      if ((ts.isCallExpression(n) || ts.isNewExpression(n)) && !ts.isFunctionLike(n)) {
        const s = ck.p.symbolOf(ts.isPropertyAccessExpression(n.expression) ? n.expression.name : n.expression);
        if (s && s.name === calleeName) { hit = true; return; }
      }
      if (!ts.isFunctionLike(n)) ts.forEachChild(n, v);
    };
    v(e);
    if (hit) return f;
  }
  return undefined;
}
const BOUND = new Set([
  'EvaluationEngine.evaluate', 'topologicalSort', 'convertUserToContext', 'convertEvaluationVariantToVariant',
  'LoadStoreCache.get', 'LoadStoreCache.getAll',
]);
const client = (ck) => ck.cls('ExperimentClient', 'experiment-browser');
function clientInterp(ck, cfg = {}) {
  const bound = new Set([...BOUND, ...(cfg.bound || [])]);
  const unbound = new Set(cfg.unbound || []);
  const noise = /^(ConsoleLogger|AmpLogger)\./;
  return ck.interp({
    opaque: (n) => (bound.has(n) && !unbound.has(n)) || noise.test(n) || (cfg.opaque && cfg.opaque(n)),
    pure: (i) => BOUND.has(i.name) && /^(LoadStoreCache.get|LoadStoreCache.getAll|EvaluationEngine.evaluate|topologicalSort|convertUserToContext|convertEvaluationVariantToVariant)$/.test(i.name),
    ...cfg,
    ...(cfg.opaque ? { opaque: (n) => (bound.has(n) && !unbound.has(n)) || noise.test(n) || cfg.opaque(n) } : {}),
  });
}
// set a path below `this` to a mask / constant in the state
function given(I, s, self, path, how) {
  let v = self;
  for (const k of path) {
    v = prop(I, s, v, k);
    if (!v) throw new Error('no path ' + path.join('.'));
  }
  if (how.eq !== undefined) return I.assume(s, I.eqTerm(s, v, C(how.eq), false), true);
  if (how.ne !== undefined) return I.assume(s, I.eqTerm(s, v, C(how.ne), false), false);
  if (how.truthy !== undefined) return I.assume(s, v, how.truthy);
  return I.refine(s, v, how.mask);
}
module.exports = { fieldsByInit, fieldFrom, client, clientInterp, given, BOUND };
