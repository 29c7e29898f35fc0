'use strict';
// Interprocedural effect and alias analysis over the type-checked syntax tree
// (flow-insensitive, summary based). An abstract root is
//   'F'      an object allocated by the function itself
//   'P<i>'   parameter i itself, 'P<i>*' an object below it    'T', 'T*'  the receiver
//   'G'      a module-level or global object
// A(e): what e itself may be;  C(e): what is reachable below it.
const { ts, getProgram } = require('./program');
const K = ts.SyntaxKind;
const uni = (...ss) => { const r = new Set(); for (const s of ss) for (const x of s) r.add(x); return r; };
const NONE = new Set();
const FRESH = { a: new Set(['F']), c: NONE };
const PRIM = { a: NONE, c: NONE };
const below = (v) => ({ a: v.c, c: v.c });
const MUTATORS = new Set('push pop shift unshift splice sort reverse fill copyWithin set add delete clear append setDate setTime setFullYear setHours setMinutes setSeconds setMonth'.split(' '));
const KEEP = new Set('sort reverse fill copyWithin set add'.split(' '));
const PICK = new Set('find pop shift at get findLast'.split(' '));
const COPY = new Set('map filter slice concat splice flat flatMap entries values keys reduce forEach some every join indexOf includes findIndex'.split(' '));
// methods of the built-in collections and strings which only read
const READERS = new Set('has get includes indexOf lastIndexOf keys values entries join at concat toString valueOf split match replace replaceAll search flat test toFixed'.split(' '));
const STRING_ONLY = new Set('toLowerCase toUpperCase trim trimStart trimEnd startsWith endsWith charAt charCodeAt codePointAt padStart padEnd substring substr normalize'.split(' '));
const PURE_GLOBALS = new Set('Object Array String Number Boolean Math JSON RegExp Map Set WeakMap WeakSet Error TypeError RangeError SyntaxError Symbol BigInt undefined NaN Infinity parseInt parseFloat isNaN isFinite encodeURIComponent decodeURIComponent encodeURI decodeURI Uint8Array Int8Array Uint16Array Uint32Array Int32Array ArrayBuffer DataView Promise Reflect'.split(' '));

class Effects {
  constructor() {
    this.p = getProgram();
    this.checker = this.p.checker;
    this.sum = new Map(); // fn -> summary
    this.fns = new Set();
  }
  // analyse everything reachable from the entries to a fixpoint
  analyse(entries) {
    for (const f of entries) this.need(f);
    for (let i = 0; i < 30; i++) {
      this.changed = false;
      for (const f of [...this.fns]) this.pass(f);
      if (!this.changed) return this;
    }
    return this;
  }
  need(f) {
    if (!this.fns.has(f)) {
      this.fns.add(f);
      this.sum.set(f, { ret: { a: new Set(), c: new Set() }, mut: new Map(), ext: new Map(), calls: new Set(), callSites: 0 });
      this.changed = true;
    }
    return this.sum.get(f);
  }
  // effects of f: mutation roots with sites, external effects with sites
  of(f) { return this.sum.get(f); }
  pass(fn) {
    const S = this.sum.get(fn);
    const before = this.size(S);
    const A = new Pass(this, fn, S);
    A.run();
    if (this.size(S) !== before) this.changed = true;
  }
  size(S) {
    let n = S.ret.a.size + S.ret.c.size + S.ext.size;
    for (const m of S.mut.values()) n += 1 + m.size;
    if (S.into) for (const s of S.into.values()) n += s.size;
    return n;
  }
}
class Pass {
  constructor(E, fn, S) {
    Object.assign(this, { E, fn, S, checker: E.checker, p: E.p });
    this.vars = new Map(); // symbol -> {a,c}
    this.fnRet = new Map(); // nested fn -> value
  }
  run() {
    for (let i = 0; i < 12; i++) {
      this.ch = false;
      this.fn.parameters.forEach((p, k) => this.bind(p.name, { a: new Set(['P' + k]), c: new Set(['P' + k + '*']) }));
      for (const p of this.fn.parameters) if (p.initializer) this.bind(p.name, this.ev(p.initializer));
      this.body(this.fn, (v) => { this.S.ret.a = uni(this.S.ret.a, v.a); this.S.ret.c = uni(this.S.ret.c, v.c); });
      if (!this.ch) break;
    }
  }
  body(fn, ret) {
    if (!fn.body) return;
    if (!ts.isBlock(fn.body)) { ret(this.ev(fn.body)); return; }
    this.stmts(fn.body, ret);
  }
  stmts(n, ret) {
    if (ts.isReturnStatement(n)) { if (n.expression) ret(this.ev(n.expression)); return; }
    if (ts.isVariableDeclaration(n)) { if (n.initializer) this.bind(n.name, this.ev(n.initializer)); return; }
    if (ts.isForOfStatement(n) || ts.isForInStatement(n)) {
      const c = this.ev(n.expression);
      const el = ts.isForInStatement(n) ? PRIM : below(c);
      if (ts.isVariableDeclarationList(n.initializer)) this.bind(n.initializer.declarations[0].name, el);
      else this.assign(n.initializer, el, n);
      this.stmts(n.statement, ret);
      return;
    }
    if (ts.isFunctionDeclaration(n)) { this.fnVal(n); return; }
    if (ts.isClassLike(n)) return;
    if (ts.isExpression(n)) { this.ev(n); return; }
    ts.forEachChild(n, (c) => this.stmts(c, ret));
  }
  prim(node) {
    try {
      const t = this.checker.getTypeAtLocation(node);
      const ok = (x) => !!(x.flags & (ts.TypeFlags.StringLike | ts.TypeFlags.NumberLike | ts.TypeFlags.BooleanLike | ts.TypeFlags.Undefined | ts.TypeFlags.Null | ts.TypeFlags.Void | ts.TypeFlags.BigIntLike));
      return t.isUnion() ? t.types.every(ok) : ok(t);
    } catch (e) { return false; }
  }
  addVar(sym, v) {
    const o = this.vars.get(sym);
    if (!o) { this.vars.set(sym, { a: new Set(v.a), c: new Set(v.c) }); this.ch = true; return; }
    const n = o.a.size + o.c.size;
    for (const x of v.a) o.a.add(x);
    for (const x of v.c) o.c.add(x);
    if (o.a.size + o.c.size !== n) this.ch = true;
  }
  bind(name, v) {
    if (ts.isIdentifier(name)) {
      const s = this.checker.getSymbolAtLocation(name);
      if (s) this.addVar(s, this.prim(name) ? PRIM : v);
      return;
    }
    for (const e of name.elements) {
      if (ts.isOmittedExpression(e)) continue;
      if (e.initializer) this.bind(e.name, this.ev(e.initializer));
      this.bind(e.name, e.dotDotDotToken ? { a: new Set(['F']), c: v.c } : below(v));
    }
  }
  mutate(v, node, how) {
    for (const r of v.a) {
      if (r === 'F') continue;
      if (!this.S.mut.has(r)) this.S.mut.set(r, new Map());
      const m = this.S.mut.get(r);
      const k = this.p.loc(node);
      if (!m.has(k)) m.set(k, { how, node });
    }
  }
  ext(name, node) {
    const k = name + '@' + this.p.loc(node);
    if (!this.S.ext.has(k)) this.S.ext.set(k, { name, node });
  }
  // the content of the variable(s) behind an expression grows
  grow(e, v) {
    let x = e;
    while (ts.isPropertyAccessExpression(x) || ts.isElementAccessExpression(x) || ts.isNonNullExpression(x) || ts.isParenthesizedExpression(x) || ts.isAsExpression(x)) x = x.expression;
    if (ts.isIdentifier(x)) {
      const s = this.p.symbolOf(x);
      if (s) this.addVar(s, { a: NONE, c: uni(v.a, v.c) });
    } else if (ts.isCallExpression(x)) for (const a of x.arguments) this.grow(a, v);
  }
  assign(t, v, node) {
    while (ts.isParenthesizedExpression(t) || ts.isAsExpression(t) || ts.isNonNullExpression(t)) t = t.expression;
    if (ts.isIdentifier(t)) {
      const s = this.p.symbolOf(t);
      if (!s) return;
      const d = (s.declarations || [])[0];
      if (d && this.isModuleLevel(d)) { this.mutate({ a: new Set(['G']) }, node, 'assigns module variable ' + t.text); return; }
      this.addVar(s, this.prim(t) ? PRIM : v);
      return;
    }
    if (ts.isPropertyAccessExpression(t) || ts.isElementAccessExpression(t)) {
      const b = this.ev(t.expression);
      if (ts.isElementAccessExpression(t)) this.ev(t.argumentExpression);
      this.mutate(b, node, 'writes ' + t.getText().slice(0, 60));
      this.grow(t.expression, v);
      return;
    }
    if (ts.isArrayLiteralExpression(t)) { for (const e of t.elements) this.assign(e, below(v), node); return; }
    if (ts.isObjectLiteralExpression(t)) for (const p of t.properties) this.assign(ts.isPropertyAssignment(p) ? p.initializer : p.name, below(v), node);
  }
  isModuleLevel(d) {
    for (let n = d.parent; n; n = n.parent) {
      if (ts.isFunctionLike(n)) return false;
      if (ts.isClassLike(n)) return false;
      if (ts.isSourceFile(n)) return true;
    }
    return false;
  }
  fnVal(f) {
    if (!this.fnRet.has(f)) this.fnRet.set(f, { a: new Set(), c: new Set() });
    const r = this.fnRet.get(f);
    for (const p of f.parameters) if (p.initializer) this.bind(p.name, this.ev(p.initializer));
    this.body(f, (v) => { const n = r.a.size + r.c.size; for (const x of v.a) r.a.add(x); for (const x of v.c) r.c.add(x); if (r.a.size + r.c.size !== n) this.ch = true; });
    return { a: new Set(['F']), c: NONE, fn: f };
  }
  ev(n) {
    const r = this.ev0(n);
    if (r.fn) return r;
    return r.a.size || r.c.size ? (this.prim(n) ? PRIM : r) : r;
  }
  ev0(n) {
    switch (n.kind) {
      case K.ParenthesizedExpression: case K.NonNullExpression: case K.AsExpression: case K.AwaitExpression: case K.TypeAssertionExpression: case K.SatisfiesExpression: return this.ev(n.expression);
      case K.ThisKeyword: return { a: new Set(['T']), c: new Set(['T*']) };
      case K.SuperKeyword: return { a: new Set(['T']), c: new Set(['T*']) };
      case K.Identifier: return this.ident(n);
      case K.PropertyAccessExpression: case K.ElementAccessExpression: {
        const b = this.ev(n.expression);
        if (ts.isElementAccessExpression(n)) this.ev(n.argumentExpression);
        if (ts.isIdentifier(n.expression) && n.expression.text === 'Math' && n.name && n.name.text === 'random') this.ext('Math.random', n);
        return below(b);
      }
      case K.ObjectLiteralExpression: {
        let c = NONE;
        for (const p of n.properties) {
          if (ts.isSpreadAssignment(p)) c = uni(c, this.ev(p.expression).c);
          else if (ts.isPropertyAssignment(p)) { const v = this.ev(p.initializer); c = uni(c, v.a, v.c); if (ts.isComputedPropertyName(p.name)) this.ev(p.name.expression); }
          else if (ts.isShorthandPropertyAssignment(p)) { const v = this.ident(p.name); c = uni(c, v.a, v.c); }
          else if (ts.isFunctionLike(p)) this.fnVal(p);
        }
        return { a: new Set(['F']), c };
      }
      case K.ArrayLiteralExpression: {
        let c = NONE;
        for (const e of n.elements) { const v = ts.isSpreadElement(e) ? { a: NONE, c: this.ev(e.expression).c } : this.ev(e); c = uni(c, v.a, v.c); }
        return { a: new Set(['F']), c };
      }
      case K.ArrowFunction: case K.FunctionExpression: return this.fnVal(n);
      case K.ConditionalExpression: { this.ev(n.condition); const x = this.ev(n.whenTrue), y = this.ev(n.whenFalse); return { a: uni(x.a, y.a), c: uni(x.c, y.c) }; }
      case K.BinaryExpression: return this.binary(n);
      case K.PrefixUnaryExpression: case K.PostfixUnaryExpression:
        if (n.operator === K.PlusPlusToken || n.operator === K.MinusMinusToken) this.assign(n.operand, PRIM, n);
        else this.ev(n.operand);
        return PRIM;
      case K.DeleteExpression: {
        const t = n.expression;
        if (ts.isPropertyAccessExpression(t) || ts.isElementAccessExpression(t)) { this.mutate(this.ev(t.expression), n, 'deletes ' + t.getText().slice(0, 60)); if (ts.isElementAccessExpression(t)) this.ev(t.argumentExpression); }
        return PRIM;
      }
      case K.CallExpression: return this.call(n);
      case K.NewExpression: return this.construct(n);
      case K.TaggedTemplateExpression: this.ev(n.tag); this.ev(n.template); return FRESH;
      case K.TemplateExpression: for (const s of n.templateSpans) this.ev(s.expression); return PRIM;
      case K.SpreadElement: return this.ev(n.expression);
      case K.TypeOfExpression: case K.VoidExpression: this.ev(n.expression); return PRIM;
      case K.RegularExpressionLiteral: return FRESH;
      case K.MetaProperty: return { a: new Set(['G']), c: new Set(['G']) };
      case K.YieldExpression: if (n.expression) this.ev(n.expression); return FRESH;
      case K.ClassExpression: return FRESH;
    }
    if (ts.isLiteralExpression(n) || n.kind === K.TrueKeyword || n.kind === K.FalseKeyword || n.kind === K.NullKeyword) return PRIM;
    ts.forEachChild(n, (c) => { if (ts.isExpression(c)) this.ev(c); });
    return PRIM;
  }
  ident(n) {
    if (n.text === 'undefined') return PRIM;
    const s = this.p.symbolOf(n);
    if (!s) return { a: new Set(['G']), c: new Set(['G']) };
    if (this.vars.has(s)) return this.vars.get(s);
    const d = (s.declarations || [])[0];
    if (!d) return PRIM;
    if (!this.p.isRepo(d)) {
      // ambient global
      if (!PURE_GLOBALS.has(n.text)) this.ext('global ' + n.text, n);
      return PRIM;
    }
    if (ts.isFunctionLike(d)) return { a: new Set(['F']), c: NONE, fn: d };
    if (ts.isClassLike(d) || ts.isEnumDeclaration(d)) return PRIM;
    if (ts.isVariableDeclaration(d) && this.isModuleLevel(d)) {
      const init = d.initializer;
      if (init && ts.isFunctionLike(init)) return { a: new Set(['F']), c: NONE, fn: init };
      const isConst = d.parent.flags & ts.NodeFlags.Const;
      if (!isConst) this.ext('module variable ' + n.text, n);
      if (this.prim(n)) return PRIM;
      return { a: new Set(['G']), c: new Set(['G']), init };
    }
    if (ts.isVariableDeclaration(d) || ts.isParameter(d) || ts.isBindingElement(d)) return { a: NONE, c: NONE };
    return PRIM;
  }
  binary(n) {
    const op = n.operatorToken.kind;
    if (op >= K.FirstAssignment && op <= K.LastAssignment) {
      const v = this.ev(n.right);
      this.assign(n.left, v, n);
      return v;
    }
    const x = this.ev(n.left), y = this.ev(n.right);
    if (op === K.AmpersandAmpersandToken || op === K.BarBarToken || op === K.QuestionQuestionToken || op === K.CommaToken) return { a: uni(x.a, y.a), c: uni(x.c, y.c) };
    return PRIM;
  }
  // function values handed to a call run with parameters drawn from its operands
  feed(v, args) {
    if (!v.fn) return;
    if (this.fnRet.has(v.fn)) { for (const p of v.fn.parameters) this.bind(p.name, args); return; }
    // a named function used as callback
    const s = this.E.need(v.fn);
    for (const [r, m] of s.mut) if (/^P/.test(r)) for (const { node, how } of m.values()) this.mutate(args, node, how);
    this.inherit(s, v.fn);
  }
  inherit(s) { this.S.calls.add(s); }
  call(n) {
    const callee = n.expression;
    const args = n.arguments.map((a) => this.ev(a));
    this.S.callSites++;
    const sig = this.checker.getResolvedSignature(n);
    let d = sig && sig.declaration;
    let recv;
    if (ts.isPropertyAccessExpression(callee) || ts.isElementAccessExpression(callee)) recv = this.ev(callee.expression);
    else if (callee.kind === K.SuperKeyword) recv = { a: new Set(['T']), c: new Set(['T*']) };
    const all = { a: uni(...args.map((x) => x.a), ...args.map((x) => x.c), recv ? recv.c : NONE), c: uni(...args.map((x) => x.c), recv ? recv.c : NONE) };
    const fv = !recv ? this.ev(callee) : undefined;
    if (fv && fv.fn) d = fv.fn;
    if (d && this.p.isRepo(d) && d.body) {
      // nested closures are analysed in place
      if (this.fnRet.has(d)) {
        d.parameters.forEach((p, i) => args[i] && this.bind(p.name, args[i]));
        for (const v of args) this.feed(v, all);
        return this.fnRet.get(d);
      }
      const s = this.E.need(d);
      this.inherit(s);
      for (const v of args) this.feed(v, all);
      const at = (r) => {
        if (r === 'F') return { a: new Set(['F']), c: NONE };
        if (r === 'G') return { a: new Set(['G']), c: new Set(['G']) };
        const v = r[0] === 'T' ? recv : args[parseInt(r.slice(1), 10)];
        if (!v) return PRIM;
        return r.endsWith('*') ? below(v) : v;
      };
      for (const [r, m] of s.mut) for (const { node, how } of m.values()) this.mutate(at(r), node, how);
      return { a: uni(...[...s.ret.a].map((r) => at(r).a)), c: uni(...[...s.ret.a].map((r) => at(r).c), ...[...s.ret.c].filter((r) => r !== 'F').map((r) => uni(at(r).a, at(r).c))) };
    }
    for (const v of args) this.feed(v, all);
    const lam = args.filter((v) => v.fn && this.fnRet.has(v.fn)).map((v) => this.fnRet.get(v.fn));
    const lamR = { a: uni(...lam.map((v) => v.a)), c: uni(...lam.map((v) => v.c)) };
    if (recv) {
      const name = ts.isPropertyAccessExpression(callee) ? callee.name.text : '';
      const ob = callee.expression;
      const g = ts.isIdentifier(ob) && !this.vars.has(this.p.symbolOf(ob)) ? ob.text : '';
      if (g === 'Object' || g === 'Reflect') {
        if (/^(assign|defineProperty|defineProperties|setPrototypeOf|freeze|seal|set|deleteProperty)$/.test(name) && args[0]) {
          this.mutate(args[0], n, `${g}.${name}`);
          if (name === 'assign') this.grow(n.arguments[0], { a: NONE, c: uni(...args.slice(1).map((x) => x.c)) });
          return name === 'assign' ? { a: args[0].a, c: uni(args[0].c, ...args.slice(1).map((x) => x.c)) } : args[0];
        }
        return { a: new Set(['F']), c: all.c };
      }
      if (g === 'JSON' || g === 'Math' || g === 'Number' || g === 'String') return FRESH;
      if (g === 'Array') return { a: new Set(['F']), c: uni(all.a, all.c, lamR.a, lamR.c) };
      if (/^(toLocale\w*|localeCompare|getTimezoneOffset)$/.test(name)) this.ext(name, n);
      if (MUTATORS.has(name) && !this.prim(ob)) {
        this.mutate(recv, n, `${ob.getText().slice(0, 40)}.${name}()`);
        this.grow(ob, { a: uni(...args.map((x) => x.a)), c: uni(...args.map((x) => x.c)) });
        if (KEEP.has(name)) return recv;
      }
      // a stateful regular expression that outlives the call
      if (/^(exec|test)$/.test(name) && [...recv.a].some((r) => r !== 'F')) {
        const init = this.initOf(ob);
        if (!init || !ts.isRegularExpressionLiteral(init) || /\/[a-z]*[gy][a-z]*$/.test(init.text)) {
          const t = this.checker.getTypeAtLocation(ob);
          if (t.symbol && t.symbol.name === 'RegExp') this.mutate(recv, n, `${ob.getText()}.${name}() advances a shared stateful regular expression`);
        }
      }
      if (PICK.has(name)) return below(recv);
      if (COPY.has(name)) return { a: uni(['F'], name === 'reduce' ? uni(lamR.a, all.a) : NONE), c: uni(recv.c, ...args.map((x) => uni(x.a, x.c)), lamR.a, lamR.c) };
      if (this.prim(ob)) return FRESH;
      const decl = d && !this.p.isRepo(d) ? d.getSourceFile().fileName : '';
      // a receiver whose type was lost (any): methods only strings have
      if (!d && STRING_ONLY.has(name)) return FRESH;
      if (!d && READERS.has(name)) return { a: uni(['F'], recv.a, recv.c, all.a), c: uni(recv.c, all.a, all.c) };
      if (!d || !decl || !/lib\.es|lib\.dom\.iterable/.test(decl)) this.ext('call ' + callee.getText().slice(0, 50), n);
      return { a: uni(['F'], recv.a, recv.c, all.a), c: uni(recv.c, all.a, all.c) };
    }
    if (fv && !ts.isIdentifier(callee)) return { a: uni(['F'], all.a, fv.a, fv.c), c: uni(all.a, all.c) };
    // a function-typed parameter or variable: its effects are those of the caller's function value
    return { a: uni(['F'], all.a), c: uni(all.a, all.c) };
  }
  initOf(e) {
    if (!ts.isIdentifier(e)) return undefined;
    const s = this.p.symbolOf(e);
    const d = s && (s.declarations || []).find((x) => ts.isVariableDeclaration(x));
    return d && d.initializer;
  }
  construct(n) {
    const args = (n.arguments || []).map((a) => this.ev(a));
    const sig = this.checker.getResolvedSignature(n);
    const d = sig && sig.declaration;
    const c = uni(...args.map((x) => uni(x.a, x.c)));
    const nm = n.expression.getText();
    if (d && this.p.isRepo(d) && d.body) {
      const s = this.E.need(d);
      this.inherit(s);
      for (const [r, m] of s.mut) {
        if (r[0] === 'T' || r === 'F') continue;
        const v = r === 'G' ? { a: new Set(['G']) } : args[parseInt(r.slice(1), 10)];
        const tgt = v && r.endsWith('*') ? below(v) : v;
        if (tgt) for (const { node, how } of m.values()) this.mutate(tgt, node, how);
      }
      return { a: new Set(['F']), c };
    }
    if (nm === 'Date' && !args.length) this.ext('new Date()', n);
    else if (ts.isIdentifier(n.expression)) {
      const s = this.p.symbolOf(n.expression);
      const dd = s && (s.declarations || [])[0];
      if (dd && !this.p.isRepo(dd) && !PURE_GLOBALS.has(nm) && !(nm === 'Date' && args.length)) this.ext('new ' + nm, n);
    }
    for (const v of args) this.feed(v, { a: c, c });
    return { a: new Set(['F']), c: nm === 'Set' || nm === 'Map' || nm === 'Array' ? uni(...args.map((x) => x.c)) : c };
  }
}
// all external effects reachable from a function
Effects.prototype.extOf = function (f) {
  const out = new Map(), seen = new Set(), st = [this.sum.get(f)];
  while (st.length) {
    const s = st.pop();
    if (!s || seen.has(s)) continue;
    seen.add(s);
    for (const [k, v] of s.ext) out.set(k, v);
    for (const c of s.calls) st.push(c);
  }
  return out;
};
module.exports = { Effects };
