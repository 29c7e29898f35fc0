'use strict';
const { ts, getProgram, REPO } = require('./program');
const D = require('./domain');
const { Interp, Budget } = require('./interp');
const { U, N, F, Z, E, T, X, S, ALL, C, UNDEF, NULL, TRUE, FALSE, O, term, FN, CLS, State } = D;

// fresh state with a module scope
Interp.prototype.state = function () {
  const s = new State();
  s.wScopes().set('mod', { parent: null, vars: new Map(), captured: true });
  return s;
};
Interp.prototype.ctx0 = function () {
  return { fn: null, prefix: 'E', scope: 'mod', throws: [], stack: [], loop: 0 };
};
// symbolic input of a declared parameter
Interp.prototype.input = function (fn, i) {
  const p = fn.parameters[i];
  if (!p) return UNDEF;
  const type = this.checker.getTypeAtLocation(p);
  return term('in', [p.name.getText().replace(/\s+/g, ''), String(i)], { mask: this.typeMask(type), type });
};
Interp.prototype.self = function (cls) {
  return term('this', [cls.name.text], { mask: X, cls, type: this.checker.getTypeAtLocation(cls.name) });
};
/* analyse an entry function.
   opts: {state, args: array|fn(inputs)->array, thisVal}
   returns {outcomes:[{s,v,kind:'ret'|'throw'}]} */
Interp.prototype.run = function (fn, opts = {}) {
  const ctx = opts.ctx || this.ctx0();
  const s = opts.state || this.state();
  const cls = fn.parent && (ts.isClassDeclaration(fn.parent) ? fn.parent : ts.isPropertyDeclaration(fn.parent) && ts.isClassDeclaration(fn.parent.parent) ? fn.parent.parent : null);
  const isStatic = cls && (ts.getCombinedModifierFlags(fn) & ts.ModifierFlags.Static);
  let thisVal = opts.thisVal || (cls ? (isStatic ? CLS(cls) : this.self(cls)) : undefined);
  const inputs = (fn.parameters || []).filter((p) => !p.dotDotDotToken).map((_, i) => this.input(fn, i));
  const args = opts.args ? (typeof opts.args === 'function' ? opts.args(inputs) : opts.args) : inputs;
  ctx.throws = [];
  const res = this.callFn(s, ctx, fn, opts.scope || 'mod', thisVal, args, opts.node || fn);
  const out = res.map(([x, v]) => ({ s: x, v, kind: 'ret' }));
  for (const t of ctx.throws) out.push({ s: t.s, v: t.v, kind: 'throw', node: t.node });
  return out;
};
// ---- printing --------------------------------------------------------------
function show(v, s, d = 0) {
  if (!v) return '∅';
  if (d > 7) return '…';
  const sh = (x) => (x && x.k ? show(x, s, d + 1) : String(x).replace(/^E[>\d.#~]*/, '').slice(-24));
  switch (v.k) {
    case 'c': return v.v instanceof RegExp ? String(v.v) : v.v === undefined ? 'undefined' : JSON.stringify(v.v) ?? String(v.v);
    case 'f': return 'fn:' + getProgram().fnName(v.node);
    case 'cls': return 'class ' + (v.decl.name ? v.decl.name.text : '');
    case 'b': return 'builtin ' + v.name;
    case 'o': {
      const o = s && s.heap.get(v.loc);
      if (!o) return '&' + v.loc.slice(-12);
      if (o.kind === 'arr') return '[' + [...o.elems.map((e) => show(e, s, d + 1)), ...o.dyn.map((e) => '*' + show(e, s, d + 1))].join(', ') + ']' + (o.filters ? '|filter' : '');
      return (o.cls ? o.cls.name.text : o.kind === 'obj' ? '' : o.kind) + '{' + o.entries.map((e) => (e.t === 's' ? '...' + show(e.v, s, d + 1) : e.t === 'x' ? '-' + sh(e.k) : (e.k && e.k.k ? '[' + show(e.k, s, d + 1) + ']' : e.k) + ':' + show(e.v, s, d + 1))).join(', ') + '}';
    }
  }
  switch (v.op) {
    case 'in': return '$' + v.args[0];
    case 'this': return 'this';
    case 'get': return sh(v.args[0]) + (v.args[1] && v.args[1].k ? '[' + sh(v.args[1]) + ']' : '.' + v.args[1]) + (v.args[2] ? '′' : '');
    case 'not': return '!' + sh(v.args[0]);
    case 'eq': return '(' + sh(v.args[0]) + ' === ' + sh(v.args[1]) + ')';
    case 'lt': return '(' + sh(v.args[0]) + ' < ' + sh(v.args[1]) + ')';
    case 'call': return v.args[0] + '(' + v.args.slice(1).filter((a) => a && a.k).map(sh).join(', ') + ')';
    case 'tmpl': return '`' + v.args.map((a) => (a.k === 'c' ? a.v : '${' + sh(a) + '}')).join('') + '`';
    case 'global': return v.args[0];
    case 'glob': return v.meta.name;
    case 'static': return sh(v.args[0]) + '.' + v.args[1];
    case 'elem': return sh(v.args[0]) + '[*]';
    case 'wit': return sh(v.args[1]) + (v.args[0] === 'elem' ? '[∃]' : '{∃key}');
    case 'keyof': return 'key∈' + sh(v.args[0]);
  }
  return v.op + '(' + v.args.filter((a) => a !== undefined).map(sh).join(', ') + ')';
}
function maskName(m) {
  const n = [];
  if (m & U) n.push('undef'); if (m & N) n.push('null'); if (m & F) n.push('false'); if (m & Z) n.push('0'); if (m & E) n.push("''"); if (m & T) n.push('true'); if (m & S) n.push('str'); if (m & X) n.push('obj/num');
  return n.join('|');
}
function showFacts(s, filter) {
  const out = [];
  for (const [, f] of s.facts) {
    if (filter && !filter(f)) continue;
    out.push(show(f.term, s) + ':' + (f.eq ? '=' + show(f.eq) : maskName(f.mask)) + (f.ne ? ' ≠' + f.ne.map((x) => show(x)).join(',') : ''));
  }
  return out.join('; ');
}
const showEv = (ev, s) => `${ev.name}(${[ev.recv ? show(ev.recv, s) + ' ::' : '', ...ev.args.map((a) => show(a, s))].filter(Boolean).join(', ')})${ev.loop ? ' [loop]' : ''}${ev.detached ? ' [detached]' : ''} at ${ev.loc}`;

module.exports = { ts, getProgram, REPO, D, Interp, Budget, show, showFacts, showEv, maskName };
