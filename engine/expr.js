'use strict';
// Expression semantics over the abstract domain.
const { ts } = require('./program');
const D = require('./domain');
const { U, N, F, Z, E, T, X, S, ALL, TRUTHY, FALSY, C, UNDEF, NULL, TRUE, FALSE, O, term, FN, CLS, BUILTIN, nodeKey, constKind, not } = D;
const { Interp } = require('./interp');
const K = ts.SyntaxKind;
const I = Interp.prototype;

I.evalExpr = function (s, ctx, node) {
  this.tick();
  switch (node.kind) {
    case K.ParenthesizedExpression:
    case K.AsExpression:
    case K.TypeAssertionExpression:
    case K.SatisfiesExpression:
      return this.evalExpr(s, ctx, node.expression);
    case K.NonNullExpression:
      return this.mapStates(this.evalExpr(s, ctx, node.expression), (s1, v) => {
        const [, nn] = this.splitNullish(s1, v);
        return nn ? [[nn, v]] : [];
      });
    case K.NumericLiteral: return [[s, C(Number(node.text))]];
    case K.StringLiteral:
    case K.NoSubstitutionTemplateLiteral: return [[s, C(node.text)]];
    case K.TrueKeyword: return [[s, TRUE]];
    case K.FalseKeyword: return [[s, FALSE]];
    case K.NullKeyword: return [[s, NULL]];
    case K.RegularExpressionLiteral: return [[s, term('regex', [node.text], { mask: X })]];
    case K.ThisKeyword: return [[s, ctx.thisVal || term('global', ['this'], { mask: ALL })]];
    case K.SuperKeyword: return [[s, ctx.thisVal || UNDEF]];
    case K.Identifier: return this.evalIdent(s, ctx, node);
    case K.TemplateExpression: return this.evalTemplate(s, ctx, node);
    case K.ArrowFunction:
    case K.FunctionExpression: {
      const r = s.clone();
      this.capture(r, ctx.scope);
      return [[r, FN(node, ctx.scope, node.kind === K.ArrowFunction ? ctx.thisVal : null, ctx.detached ? 'd' : '')]];
    }
    case K.ClassExpression: return [[s, CLS(node)]];
    case K.ObjectLiteralExpression: return this.evalObject(s, ctx, node);
    case K.ArrayLiteralExpression: return this.evalArray(s, ctx, node);
    case K.ConditionalExpression: {
      const { t, f } = this.cond(s, ctx, node.condition);
      const out = [];
      for (const x of t) out.push(...this.evalExpr(x, ctx, node.whenTrue));
      for (const x of f) out.push(...this.evalExpr(x, ctx, node.whenFalse));
      return this.mergePairs(out);
    }
    case K.BinaryExpression: return this.evalBinary(s, ctx, node);
    case K.PrefixUnaryExpression:
    case K.PostfixUnaryExpression: return this.evalUnary(s, ctx, node);
    case K.TypeOfExpression:
      return this.mapStates(this.evalExpr(s, ctx, node.expression), (s1, v) => [[s1, this.typeofV(s1, v)]]);
    case K.VoidExpression:
      return this.mapStates(this.evalExpr(s, { ...ctx, voided: true }, node.expression), (s1, v) => [[this.floating(s1, ctx, v, node.expression), UNDEF]]);
    case K.DeleteExpression: return this.evalDelete(s, ctx, node);
    case K.AwaitExpression:
      return this.mapStates(this.evalExpr(s, ctx, node.expression), (s1, v) => this.doAwait(s1, ctx, v, node));
    case K.SpreadElement: return this.evalExpr(s, ctx, node.expression);
    case K.PropertyAccessExpression:
    case K.ElementAccessExpression:
    case K.CallExpression:
      return this.evalChain(s, ctx, node).map(([a, b]) => [a, b]);
    case K.NewExpression: return this.evalNew(s, ctx, node);
    case K.TaggedTemplateExpression: return [[s, term('tagged', [String(nodeKey(node))])]];
    case K.OmittedExpression: return [[s, UNDEF]];
    case K.ExpressionWithTypeArguments: return this.evalExpr(s, ctx, node.expression);
  }
  return [[s, term('expr', [ts.SyntaxKind[node.kind] + nodeKey(node)])]];
};

I.mergePairs = function (list) {
  if (list.length < 2) return list;
  return this.mergeOut(list.map(([s, v]) => ({ s, v }))).map((o) => [o.s, o.v]);
};

I.capture = function (s, scope) {
  for (let i = scope; i !== null && i !== undefined; ) {
    const sc = s.scopes.get(i);
    if (!sc || sc.captured) return;
    s.wScopes().set(i, { ...sc, captured: true });
    i = sc.parent;
  }
};

I.typeofV = function (s, v) {
  if (v.k === 'c') return C(v.v === null ? 'object' : typeof v.v);
  if (v.k === 't' && v.meta && v.meta.func) return C('function');
  if (v.k === 't' && v.op === 'get' && this.cfg.hostFunctions && this.cfg.hostFunctions.includes(v.args[1])) return C('function');
  if (v.k === 'f' || v.k === 'cls' || v.k === 'b') return C('function');
  if (v.k === 'o') return C('object');
  const m = this.maskOf(s, v);
  if (!(m & ~(E | S))) return C('string');
  if (!(m & ~(F | T))) return C('boolean');
  if (m === U) return C('undefined');
  return term('typeof', [v]);
};

// condition -> {t: states, f: states}
I.cond = function (s, ctx, node) {
  while (ts.isParenthesizedExpression(node) || ts.isAsExpression(node)) node = node.expression;
  if (ts.isPrefixUnaryExpression(node) && node.operator === K.ExclamationToken) {
    const r = this.cond(s, ctx, node.operand);
    return { t: r.f, f: r.t };
  }
  if (ts.isBinaryExpression(node)) {
    const op = node.operatorToken.kind;
    if (op === K.AmpersandAmpersandToken) {
      const a = this.cond(s, ctx, node.left);
      const t = [], f = [...a.f];
      for (const x of a.t) {
        const b = this.cond(x, ctx, node.right);
        t.push(...b.t); f.push(...b.f);
      }
      return { t: this.merge(t), f: this.merge(f) };
    }
    if (op === K.BarBarToken) {
      const a = this.cond(s, ctx, node.left);
      const t = [...a.t], f = [];
      for (const x of a.f) {
        const b = this.cond(x, ctx, node.right);
        t.push(...b.t); f.push(...b.f);
      }
      return { t: this.merge(t), f: this.merge(f) };
    }
  }
  const t = [], f = [];
  for (const [s1, v] of this.evalExpr(s, ctx, node)) {
    const [a, b] = this.split(s1, v);
    if (a) t.push(a);
    if (b) f.push(b);
  }
  return { t: this.merge(t), f: this.merge(f) };
};

I.evalIdent = function (s, ctx, node) {
  const name = node.text;
  if (name === 'undefined') return [[s, UNDEF]];
  if (name === 'NaN') return [[s, C(NaN)]];
  if (name === 'Infinity') return [[s, C(Infinity)]];
  const sc = s.lookup(ctx.scope, name);
  if (sc !== undefined) return [[s, s.scopes.get(sc).vars.get(name)]];
  return this.evalGlobalSym(s, ctx, this.p.symbolOf(node), name, node);
};

I.evalGlobalSym = function (s, ctx, sym, name, node) {
  if (sym) {
    if (name in this.cfg.globals || sym.name in this.cfg.globals) {
      const g = this.cfg.globals[sym.name in this.cfg.globals ? sym.name : name];
      const r = s.clone();
      return [[r, g(this, r)]];
    }
    for (const d of sym.declarations || []) {
      // a constant a library declares with its value
      if (!this.p.isRepo(d)) {
        if (ts.isVariableDeclaration(d) && d.initializer && ts.isStringLiteral(d.initializer) && d.parent.flags & ts.NodeFlags.Const) return [[s, C(d.initializer.text)]];
        continue;
      }
      if (ts.isFunctionDeclaration(d)) {
        const b = sym.declarations.find((x) => ts.isFunctionDeclaration(x) && x.body);
        if (b) return [[s, FN(b, 'mod', null)]];
      }
      if (ts.isClassDeclaration(d)) return [[s, CLS(d)]];
      if (ts.isEnumDeclaration(d)) return [[s, BUILTIN('enum:' + d.name.text)]];
      if (ts.isVariableDeclaration(d)) return this.evalModuleVar(s, ctx, sym, d);
    }
  }
  if (this.cfg.absent && this.cfg.absent.includes(name)) return [[s, UNDEF]];
  return [[s, term('global', [name], { mask: X, type: node && this.checker.getTypeAtLocation(node) })]];
};

I.modKey = (d) => d.name.getText() + '@' + nodeKey(d);
I.evalModuleVar = function (s, ctx, sym, d) {
  const key = this.modKey(d);
  const isConst = (ts.getCombinedNodeFlags(d) & ts.NodeFlags.Const) !== 0;
  for (const scn of ['mod', 'modlet']) {
    const sc = s.scopes.get(scn);
    if (sc && sc.vars.has(key)) return [[s, sc.vars.get(key)]];
  }
  const type = this.checker.getTypeAtLocation(d);
  const init = d.initializer;
  // a literal needs no memory of its own
  if (isConst && init && this.p.isRepo(d)) {
    let e = init;
    while (ts.isAsExpression(e) || ts.isParenthesizedExpression(e)) e = e.expression;
    if (ts.isStringLiteralLike(e)) return [[s, C(e.text)]];
    if (ts.isNumericLiteral(e)) return [[s, C(Number(e.text.replace(/_/g, '')))]];
    if (e.kind === K.TrueKeyword || e.kind === K.FalseKeyword) return [[s, C(e.kind === K.TrueKeyword)]];
  }
  // whole-program mode: the initialiser runs once per history, on first use
  const ml = s.scopes.get('modlet');
  if (this.cfg.moduleInit && ts.isVariableStatement(d.parent.parent) && ts.isIdentifier(d.name) && (isConst || !(ml && ml.vars.has('*havoc'))) && this.p.isRepo(d) && !d.getSourceFile().isDeclarationFile) {
    const scn = isConst ? 'mod' : 'modlet';
    let e = init;
    while (e && (ts.isAsExpression(e) || ts.isParenthesizedExpression(e))) e = e.expression;
    if (e && (ts.isArrowFunction(e) || ts.isFunctionExpression(e)) && isConst) return [[s, FN(e, 'mod', null)]];
    const mctx = { fn: d, thisVal: undefined, throws: ctx.throws, stack: ctx.stack, loop: 0, scope: 'mod', prefix: 'mod:' + key };
    return (init ? this.evalExpr(s, mctx, init) : [[s, UNDEF]]).map(([x, v]) => {
      const s1 = x.clone();
      if (!s1.scopes.has(scn)) s1.wScopes().set(scn, { parent: null, vars: new Map(), captured: true });
      s1.setVar(scn, key, v);
      return [s1, v];
    });
  }
  if (isConst && init) {
    let e = init;
    while (ts.isAsExpression(e) || ts.isParenthesizedExpression(e) || ts.isSatisfiesExpression?.(e)) e = e.expression;
    if (ts.isArrowFunction(e) || ts.isFunctionExpression(e)) return [[s, FN(e, 'mod', null)]];
    const hasCall = (n) => ts.isNewExpression(n) || ts.isCallExpression(n) || ts.isAwaitExpression(n) || (!ts.isFunctionLike(n) && !!ts.forEachChild(n, (c) => hasCall(c) || undefined));
    const pureCallOk = !hasCall(e);
    if (pureCallOk && !this.p.mutatedSymbols.has(sym) && ts.isVariableStatement(d.parent.parent)) {
      const mctx = { fn: d, thisVal: undefined, throws: [], stack: ctx.stack, loop: 0, scope: 'mod', prefix: 'mod:' + key };
      const r = this.evalExpr(s, mctx, init);
      if (r.length === 1) {
        const s1 = r[0][0].clone();
        if (!s1.scopes.has('mod')) s1.wScopes().set('mod', { parent: null, vars: new Map(), captured: true });
        s1.setVar('mod', key, r[0][1]);
        return [[s1, r[0][1]]];
      }
    }
    if (ts.isObjectLiteralExpression(e) || hasCall(e)) return [[s, term('glob', [key], { mask: hasCall(e) && !ts.isNewExpression(e) ? this.typeMask(type) : X, type, name: d.name.getText(), decl: d })]];
  }
  return [[s, term('glob', isConst ? [key] : [key, s.epoch], { mask: this.typeMask(type), type, name: d.name.getText(), decl: d })]];
};

I.evalTemplate = function (s, ctx, node) {
  let list = [[s, [C(node.head.text)]]];
  for (const span of node.templateSpans) {
    const nx = [];
    for (const [s1, parts] of list)
      for (const [s2, v] of this.evalExpr(s1, ctx, span.expression)) nx.push([s2, [...parts, v, C(span.literal.text)]]);
    list = nx;
  }
  return list.map(([s1, parts]) => [s1, this.tmpl(s1, parts)]);
};
I.tmpl = function (s, parts) {
  const out = [];
  for (let p of parts) {
    const c = this.constOf(s, p);
    if (c) p = C(String(c.v));
    const add = p.k === 't' && p.op === 'tmpl' ? p.args : [p];
    for (const a of add) {
      if (a.k === 'c' && a.v === '') continue;
      const l = out[out.length - 1];
      if (a.k === 'c' && l && l.k === 'c') out[out.length - 1] = C(String(l.v) + String(a.v));
      else out.push(a);
    }
  }
  if (!out.length) return C('');
  if (out.length === 1 && out[0].k === 'c') return C(String(out[0].v));
  return term('tmpl', out);
};

// ------------------------------------------------------------ objects -------
I.siteLoc = function (ctx, node) { return ctx.prefix + ':' + nodeKey(node) + (ctx.loop ? 'L' + ctx.loop : ''); };
I.copyEntries = function (s, v) {
  if (v.k === 'c' || v.k === 'f' || v.k === 'cls' || v.k === 'b') return [];
  const o = this.obj(s, v);
  if (v.k === 'o') {
    if (!o) return [];
    if (o.kind === 'arr') return (o.elems || []).map((e, i) => ({ t: 'p', k: String(i), v: e }));
    return o.entries.slice();
  }
  const m = this.maskOf(s, v);
  if (!(m & ~(U | N | F | Z | E | T))) return [];
  const out = [{ t: 's', v }];
  if (o) out.push(...o.entries);
  return out;
};
I.evalObject = function (s, ctx, node) {
  let list = [[s, []]];
  const then = (f) => {
    const nx = [];
    for (const [s1, es] of list) for (const r of f(s1, es)) nx.push(r);
    list = nx;
  };
  for (const p of node.properties) {
    if (ts.isSpreadAssignment(p)) {
      then((s1, es) => this.evalExpr(s1, ctx, p.expression).map(([s2, v]) => [s2, [...es, ...this.copyEntries(s2, v)]]));
    } else if (ts.isPropertyAssignment(p)) {
      if (ts.isComputedPropertyName(p.name)) {
        then((s1, es) => {
          const r = [];
          for (const [s2, k] of this.evalExpr(s1, ctx, p.name.expression))
            for (const [s3, v] of this.evalExpr(s2, ctx, p.initializer)) {
              const kc = this.constOf(s3, k);
              r.push([s3, [...es, kc ? { t: 'p', k: String(kc.v), v } : { t: 'd', k, v }]]);
            }
          return r;
        });
      } else {
        const k = p.name.text !== undefined ? p.name.text : p.name.getText();
        then((s1, es) => this.evalExpr(s1, ctx, p.initializer).map(([s2, v]) => [s2, [...es.filter((e) => !(e.t === 'p' && e.k === k)), { t: 'p', k, v }]]));
      }
    } else if (ts.isShorthandPropertyAssignment(p)) {
      const k = p.name.text;
      then((s1, es) => {
        const sc = s1.lookup(ctx.scope, k);
        const r = sc !== undefined ? [[s1, s1.scopes.get(sc).vars.get(k)]] : k === 'undefined' ? [[s1, UNDEF]] : this.evalGlobalSym(s1, ctx, this.p.unalias(this.checker.getShorthandAssignmentValueSymbol(p)), k, p.name);
        return r.map(([s2, v]) => [s2, [...es, { t: 'p', k, v }]]);
      });
    } else if (ts.isMethodDeclaration(p) || ts.isGetAccessor(p)) {
      const k = p.name.getText();
      then((s1, es) => {
        const r = s1.clone();
        this.capture(r, ctx.scope);
        return [[r, [...es, { t: ts.isGetAccessor(p) ? 'g' : 'p', k, v: FN(p, ctx.scope, null) }]]];
      });
    }
  }
  const loc = this.siteLoc(ctx, node);
  const type = this.checker.getContextualType(node);
  return list.map(([s1, es]) => {
    const r = s1.clone();
    // later duplicates of constant keys shadow earlier ones
    return [r, this.newObj(r, loc, { kind: 'obj', entries: es, typeName: type && type.symbol ? type.symbol.name : undefined })];
  });
};
I.evalArray = function (s, ctx, node) {
  let list = [[s, { elems: [], dyn: [] }]];
  for (const e of node.elements) {
    const nx = [];
    for (const [s1, a] of list)
      for (const [s2, v] of this.evalExpr(s1, ctx, ts.isSpreadElement(e) ? e.expression : e)) {
        if (ts.isSpreadElement(e)) {
          const o = this.obj(s2, v);
          if (o && o.kind === 'arr') nx.push([s2, { elems: [...a.elems, ...o.elems], dyn: [...a.dyn, ...o.dyn] }]);
          else {
            const col = this.collection(s2, v);
            if (col.exact && !a.dyn.length) nx.push([s2, { elems: [...a.elems, ...col.alts], dyn: [] }]);
            else nx.push([s2, { elems: a.elems, dyn: [...a.dyn, ...(col.exact ? col.alts : [this.elemOf(s2, v)])] }]);
          }
        } else nx.push([s2, a.dyn.length ? { elems: a.elems, dyn: [...a.dyn, v] } : { elems: [...a.elems, v], dyn: a.dyn }]);
      }
    list = nx;
  }
  const loc = this.siteLoc(ctx, node);
  return list.map(([s1, a]) => {
    const r = s1.clone();
    return [r, this.newObj(r, loc, { kind: 'arr', entries: [], elems: a.elems, dyn: a.dyn, order: true })];
  });
};
// generic element of a collection value
I.elemOf = function (s, v) {
  const o = this.obj(s, v);
  if (o && o.kind === 'arr') {
    const all = [...o.elems, ...o.dyn];
    if (all.length === 1) return all[0];
    if (all.length === 0) return UNDEF;
    return term('oneof', all, { mask: all.reduce((m, a) => m | this.maskOf(s, a), 0) });
  }
  if (v.k === 't' && v.op === 'keys') return term('keyof', [v.args[0]], { mask: S | E });
  if (v.k === 't' && v.op === 'values') return this.readDyn(s, v.args[0], term('keyof', [v.args[0]], { mask: S | E }));
  let mask = ALL, type;
  if (v.k === 't' && v.meta.type) {
    const t = v.meta.type;
    const et = this.checker.getIndexTypeOfType(this.nonNull(t), ts.IndexKind.Number);
    if (et) { mask = this.typeMask(et); type = et; if (mask & X) mask &= ~(U | N); }
  }
  return term('elem', [v], { mask, type });
};
I.nonNull = function (t) { return this.checker.getNonNullableType(t); };
// what a collection was filled from (kept on the term: the object may be gone)
const srcOf = (o) => {
  const vs = [];
  for (const v of [...(o.elems || []), ...(o.dyn || []), ...o.entries.flatMap((e) => [e.k && e.k.k ? e.k : null, e.v])]) if (v && v.k === 't' && !vs.includes(v)) vs.push(v);
  return vs.length ? [term('src', vs)] : [];
};
I.srcOf = srcOf;
I.readDyn = function (s, base, key) {
  const c = this.constOf(s, key);
  if (c) return this.lookup(s, base, String(c.v));
  if (key.k === 't' && key.op === 'idx' && key.args[0] === base) return key.args[1];
  const o = this.obj(s, base);
  if (o) {
    for (let i = o.entries.length - 1; i >= 0; i--) {
      const e = o.entries[i];
      if ((e.t === 'd' || e.t === 'x') && e.k === key) return e.t === 'd' ? e.v : UNDEF;
      if (e.t === 's') break;
    }
    if (o.kind === 'arr') {
      const el = this.elemOf(s, base);
      return el;
    }
    if (!o.open && o.entries.length && !o.entries.some((e) => e.t === 's')) {
      const vs = o.entries.filter((e) => e.t !== 'x').map((e) => e.v);
      return term('dynget', [base, key, ...vs], { mask: vs.reduce((m, a) => m | this.maskOf(s, a), U) });
    }
    if (!o.open && !o.entries.length && base.k === 'o') return UNDEF;
  }
  if (key.k === 't' && key.op === 'lv' && base.k === 't') return this.elemOf(s, base);
  if (base.k !== 't') return term('dynget', [base, key]);
  let type = base.meta.type, mask = ALL;
  if (type) {
    const it = this.checker.getIndexTypeOfType(this.nonNull(type), ts.IndexKind.String) || this.checker.getIndexTypeOfType(this.nonNull(type), ts.IndexKind.Number);
    type = it;
    if (it) mask = this.typeMask(it);
  }
  return term('get', [base, key], { mask, type });
};

// look a constant key up; returns a single value (possibly a 'pick' term)
I.lookup = function (s, base, key, node) {
  const o = this.obj(s, base);
  const alts = [];
  const fin = (v) => {
    if (!alts.length) return v;
    const list = [...alts, v].filter((x, i, a) => i === a.length - 1 || a.indexOf(x) === i);
    if (list.length === 2 && list[1] === UNDEF && list[0].op === 'get') return list[0];
    return term('pick', list, { mask: list.reduce((m, a) => m | this.maskOf(s, a), 0), type: list[0].meta && list[0].meta.type });
  };
  if (o) {
    if (o.kind === 'arr' && /^\d+$/.test(key)) {
      const i = Number(key);
      if (i < o.elems.length) return o.elems[i];
      if (!o.dyn.length) return UNDEF;
      return term('idx', [base, key]);
    }
    for (let i = o.entries.length - 1; i >= 0; i--) {
      const e = o.entries[i];
      if (e.t === 'p' || e.t === 'g') { if (e.k === key) return fin(e.t === 'g' ? term('getter', [e.v]) : e.v); }
      else if (e.t === 'x') { if (e.k === key || (e.k.k === 'c' && String(e.k.v) === key)) return fin(UNDEF); }
      else if (e.t === 'd') {
        if (e.k.k === 'c' && String(e.k.v) !== key) continue;
        if (this.maskOf(s, e.k) & ALL && e.k.op === 'keyof' && false) continue;
        alts.push(e.v);
      } else if (e.t === 's') alts.push(this.getTerm(s, e.v, key, node));
    }
    if (o.open) return fin(this.getTerm(s, o.open, key, node));
    return fin(UNDEF);
  }
  if (base.k === 't') return this.getTerm(s, base, key, node);
  return UNDEF;
};

I.getTerm = function (s, base, key, node) {
  let type, mutable = false, mask = ALL;
  const bt = base.meta && base.meta.type;
  let sym;
  if (bt) {
    sym = this.checker.getPropertyOfType(this.nonNull(bt), key);
    if (sym) {
      const d = sym.valueDeclaration || (sym.declarations || [])[0];
      if (d) { try { type = this.checker.getTypeOfSymbolAtLocation(sym, d); } catch (e) { /* keep untyped */ } }
    } else {
      type = this.checker.getIndexTypeOfType(this.nonNull(bt), ts.IndexKind.String);
    }
  }
  const cls = base.meta && base.meta.cls;
  if (!sym && cls) {
    const m = this.p.findMember(cls, key);
    if (m && m.name) { sym = this.checker.getSymbolAtLocation(m.name); if (ts.isPropertyDeclaration(m)) type = this.checker.getTypeAtLocation(m); }
  }
  if (sym) {
    for (const d of sym.declarations || []) {
      if (ts.isPropertyDeclaration(d) && this.p.isRepo(d)) {
        mutable = !(ts.getCombinedModifierFlags(d) & ts.ModifierFlags.Readonly) && !(d.initializer && ts.isFunctionLike(d.initializer));
      }
    }
  }
  if (type) mask = this.typeMask(type);
  if (base.k === 't' && base.op === 'glob') mutable = true;
  const args = [base, key];
  if (mutable && s.epoch) args.push('@' + s.epoch);
  return term('get', args, { mask, type });
};

// property read with accessor/method resolution -> list of [state, value]
// a rejected promise nobody waits for
I.floating = function (s, ctx, v, node) {
  if (!v || v.k !== 't' || v.op !== 'rejected' || !this.isEvent('unhandled')) return s;
  return this.emit(s, ctx, { name: 'unhandled', args: [v.args[0]], node });
};
I.readProp = function (s, ctx, base, key, node) {
  if (this.cfg.propRead) { const m = this.cfg.propRead(this, s, ctx, base, key, node); if (m) return m; }
  if (this.cfg.readThrow && this.cfg.readThrow(base, key, s)) {
    ctx.throws.push({ s, v: term('err', ['read ' + key], { mask: X, from: key }), node });
    return [];
  }
  const c = base.k === 't' ? this.constOf(s, base) : undefined;
  if (c && (c.v === null || c.v === undefined || typeof c.v === 'string')) base = c;
  if (base.k === 'c') {
    if (base.v === undefined || base.v === null) {
      ctx.throws.push({ s, v: term('TypeError', [key], { mask: X }), node });
      return [];
    }
    if (typeof base.v === 'string' && key === 'length') return [[s, C(base.v.length)]];
    if (typeof base.v === 'string' && /^\d+$/.test(key)) return [[s, C(base.v[Number(key)])]];
    if (typeof key === 'string' && !(key in Object(base.v))) return [[s, UNDEF]];
    return [[s, term('get', [base, key])]];
  }
  const o = this.obj(s, base);
  const own = o && o.entries.some((e) => ((e.t === 'p' || e.t === 'x') && e.k === key));
  if (!own) {
    if (base.k === 'cls') return this.readStatic(s, ctx, base, key);
    if (o && o.kind === 'arr' && key === 'length') {
      if (!o.dyn.length) return [[s, C(o.elems.length)]];
      return [[s, term('len', [base, 'v' + (o.ver || ''), ...srcOf(o)], { mask: Z | X })]];
    }
    if (o && (o.kind === 'map' || o.kind === 'set') && key === 'size') {
      if (!o.open && o.entries.every((e) => e.t === 'p' || (e.t === 'd' && this.distinctKey(e.k)))) return [[s, C(o.entries.length)]];
      return [[s, term('len', [base, String(o.entries.length), 'v' + (o.ver || ''), ...srcOf(o)], { mask: Z | X })]];
    }
    const cls = this.clsOf(s, base);
    if (cls) {
      const m = this.p.findMember(cls, key);
      if (m) {
        if (ts.isGetAccessor(m)) return this.callFn(s, ctx, m, 'mod', base, [], node);
        if (ts.isMethodDeclaration(m)) return [[s, FN(m, 'mod', base)]];
        if (ts.isPropertyDeclaration(m) && m.initializer && ts.isFunctionLike(m.initializer) && (!o || o.open)) return [[s, FN(m.initializer, 'mod', base)]];
      }
    }
  }
  if (key === 'length' && base.k === 't') return [[s, term('len', o && o.ver ? [base, 'v' + o.ver] : [base], { mask: Z | X })]];
  if (o && o.entries.some((e) => e.t === 'g' && e.k === key)) {
    const g = o.entries.find((e) => e.t === 'g' && e.k === key);
    return this.callFn(s, ctx, g.v.node, g.v.scope, base, [], node);
  }
  return [[s, this.lookup(s, base, key, node)]];
};
I.readStatic = function (s, ctx, base, key) {
  for (let c = base.decl; c; c = this.p.superClass(c)) {
    for (const m of c.members) {
      if (!m.name || m.name.getText() !== key) continue;
      if (!(ts.getCombinedModifierFlags(m) & ts.ModifierFlags.Static)) continue;
      if (ts.isMethodDeclaration(m) && m.body) return [[s, FN(m, 'mod', base)]];
      if (ts.isPropertyDeclaration(m)) {
        const ro = ts.getCombinedModifierFlags(m) & ts.ModifierFlags.Readonly;
        const loc = 't:' + base.id;
        const o = s.heap.get(loc);
        const e = o && o.entries.find((x) => x.t === 'p' && x.k === key);
        if (e) return [[s, e.v]];
        const type = this.checker.getTypeAtLocation(m);
        if (ro && m.initializer) {
          return this.evalExpr(s, { fn: m, thisVal: base, throws: [], stack: ctx.stack, loop: 0, scope: 'mod', prefix: 'static:' + key }, m.initializer);
        }
        return [[s, term('static', [base, key], { mask: this.typeMask(type), type })]];
      }
    }
  }
  if (key === 'name') return [[s, C(base.decl.name ? base.decl.name.text : '')]];
  return [[s, term('get', [base, key])]];
};

I.evalChain = function (s, ctx, node) {
  if (ts.isParenthesizedExpression(node) || ts.isNonNullExpression(node) || ts.isAsExpression(node)) return this.evalExpr(s, ctx, node).map(([a, b]) => [a, b, false]);
  if (ts.isPropertyAccessExpression(node) || ts.isElementAccessExpression(node)) {
    const es = ts.isPropertyAccessExpression(node) ? this.checker.getSymbolAtLocation(node.name) : undefined;
    if (es && es.flags & ts.SymbolFlags.EnumMember && es.valueDeclaration) {
      const cv = this.checker.getConstantValue(es.valueDeclaration);
      if (cv !== undefined) return [[s, C(cv), false]];
    }
    // namespace import member
    const bs = ts.isIdentifier(node.expression) ? this.p.symbolOf(node.expression) : undefined;
    if (bs && bs.flags & ts.SymbolFlags.ValueModule && ts.isPropertyAccessExpression(node) && s.lookup(ctx.scope, node.expression.text) === undefined) {
      return this.evalGlobalSym(s, ctx, this.p.symbolOf(node.name), node.name.text, node).map(([a, b]) => [a, b, false]);
    }
    const out = [];
    for (const [s1, b, short] of this.evalChainBase(s, ctx, node)) {
      if (short) { out.push([s1, UNDEF, true]); continue; }
      if (ts.isPropertyAccessExpression(node)) {
        for (const [s2, v] of this.readProp(s1, ctx, b, node.name.text, node)) out.push([s2, v, false]);
      } else {
        for (const [s2, k] of this.evalExpr(s1, ctx, node.argumentExpression)) {
          const kc = this.constOf(s2, k);
          if (kc) for (const [s3, v] of this.readProp(s2, ctx, b, String(kc.v), node)) out.push([s3, v, false]);
          else out.push([s2, this.readDyn(s2, b, k), false]);
        }
      }
    }
    return out;
  }
  if (ts.isCallExpression(node)) return this.evalCall(s, ctx, node);
  return this.evalExpr(s, ctx, node).map(([a, b]) => [a, b, false]);
};
// evaluates node.expression of an access, handling ?. short circuit
I.evalChainBase = function (s, ctx, node) {
  const out = [];
  for (const [s1, b, short] of this.evalChain(s, ctx, node.expression)) {
    if (short) { out.push([s1, b, !!(node.flags & ts.NodeFlags.OptionalChain)]); if (!(node.flags & ts.NodeFlags.OptionalChain)) out[out.length - 1][2] = false; continue; }
    if (node.questionDotToken) {
      const [nul, nn] = this.splitNullish(s1, b);
      if (nul) out.push([nul, UNDEF, true]);
      if (nn) out.push([nn, b, false]);
    } else out.push([s1, b, false]);
  }
  return out;
};

// ------------------------------------------------------------ operators -----
I.binop = function (s, op, a, b, node) {
  const ca = this.constOf(s, a), cb = this.constOf(s, b);
  const bothConst = ca && cb;
  switch (op) {
    case K.EqualsEqualsEqualsToken: return this.eqTerm(s, a, b, false);
    case K.ExclamationEqualsEqualsToken: return not(this.eqTerm(s, a, b, false));
    case K.EqualsEqualsToken: return this.eqTerm(s, a, b, true);
    case K.ExclamationEqualsToken: return not(this.eqTerm(s, a, b, true));
    case K.LessThanToken: return bothConst ? C(ca.v < cb.v) : this.ltTerm(s, a, b, ca, cb);
    case K.GreaterThanToken: return bothConst ? C(ca.v > cb.v) : this.ltTerm(s, b, a, cb, ca);
    case K.LessThanEqualsToken: return bothConst ? C(ca.v <= cb.v) : not(this.ltTerm(s, b, a, cb, ca));
    case K.GreaterThanEqualsToken: return bothConst ? C(ca.v >= cb.v) : not(this.ltTerm(s, a, b, ca, cb));
    case K.PlusToken: {
      if (bothConst) return C(ca.v + cb.v);
      const isStr = (v) => v.k === 'c' ? typeof v.v === 'string' : v.k === 't' && (v.op === 'tmpl' || !(this.maskOf(s, v) & ~(S | E)));
      let strNode = false;
      if (node) { try { strNode = !!(this.checker.getTypeAtLocation(node).flags & ts.TypeFlags.StringLike); } catch (e) { /* synthetic */ } }
      if (isStr(a) || isStr(b) || strNode) return this.tmpl(s, [a, b]);
      return term('bin:+', [a, b], { mask: Z | X | S | E });
    }
    case K.InstanceOfKeyword: return this.instanceOf(s, a, b);
    case K.InKeyword: {
      if (b.k === 'o' && ca) {
        const o = s.heap.get(b.loc);
        if (o && !o.open && o.entries.every((e) => e.t === 'p')) return C(o.entries.some((e) => e.k === String(ca.v)));
      }
      return term('in', [a, b]);
    }
  }
  if (bothConst && typeof ca.v === 'number' && typeof cb.v === 'number') {
    const x = ca.v, y = cb.v;
    switch (op) {
      case K.MinusToken: return C(x - y);
      case K.AsteriskToken: return C(x * y);
      case K.SlashToken: return C(x / y);
      case K.PercentToken: return C(x % y);
    }
  }
  return term('bin:' + ts.tokenToString(op), [a, b], { mask: Z | X });
};
// sizes and indices are never negative
const natural = (v) => v.k === 't' && (v.op === 'len' || (v.op === 'lv' && v.args[1] === '#i'));
const searchPos = (v) => v.k === 't' && v.op === 'call' && typeof v.args[0] === 'string' && /^(String|Array)\.(indexOf|lastIndexOf|findIndex|search)$/.test(v.args[0]);
I.ltTerm = function (s, a, b, ca, cb) {
  if (cb && typeof cb.v === 'number') {
    if (natural(a)) {
      if (cb.v <= 0) return FALSE;
      if (cb.v <= 1) return this.eqTerm(s, a, C(0), false);
    }
    if (searchPos(a) && cb.v > -1 && cb.v <= 0) return this.eqTerm(s, a, C(-1), false);
  }
  if (ca && typeof ca.v === 'number') {
    if (natural(b)) {
      if (ca.v < 0) return TRUE;
      if (ca.v < 1) return not(this.eqTerm(s, b, C(0), false));
    }
    if (searchPos(b) && ca.v >= -1 && ca.v < 0) return not(this.eqTerm(s, b, C(-1), false));
  }
  return term('lt', [a, b]);
};
I.instanceOf = function (s, a, b) {
  if (a.k === 'c') return FALSE;
  const cn = b.k === 'cls' ? (b.decl.name ? b.decl.name.text : '?') : b.k === 't' && b.op === 'global' ? b.args[0] : null;
  const ao = this.obj(s, a);
  if (a.k === 'o' && ao && ao.cls && b.k === 'cls') {
    for (let c = ao.cls; c; c = this.p.superClass(c)) if (c === b.decl) return TRUE;
    return FALSE;
  }
  if (a.k === 'o' && ao && !ao.cls && !ao.open && b.k === 'cls') return FALSE;
  if (a.k === 't' && a.op === 'err' && a.meta.host && b.k === 'cls') return FALSE;
  if (a.k === 't' && a.meta.cls && b.k === 'cls') {
    for (let c = a.meta.cls; c; c = this.p.superClass(c)) if (c === b.decl) return TRUE;
  }
  return term('instanceof', [a, cn || b]);
};
const ASSIGN = {
  [K.PlusEqualsToken]: K.PlusToken, [K.MinusEqualsToken]: K.MinusToken, [K.AsteriskEqualsToken]: K.AsteriskToken,
  [K.SlashEqualsToken]: K.SlashToken, [K.PercentEqualsToken]: K.PercentToken, [K.AmpersandEqualsToken]: K.AmpersandToken,
  [K.BarEqualsToken]: K.BarToken, [K.CaretEqualsToken]: K.CaretToken, [K.LessThanLessThanEqualsToken]: K.LessThanLessThanToken,
  [K.GreaterThanGreaterThanEqualsToken]: K.GreaterThanGreaterThanToken, [K.GreaterThanGreaterThanGreaterThanEqualsToken]: K.GreaterThanGreaterThanGreaterThanToken,
};
I.evalBinary = function (s, ctx, node) {
  const op = node.operatorToken.kind;
  if (op === K.CommaToken) return this.mapStates(this.evalExpr(s, ctx, node.left), (s1) => this.evalExpr(s1, ctx, node.right));
  if (op === K.AmpersandAmpersandToken || op === K.BarBarToken || op === K.QuestionQuestionToken) {
    return this.mergePairs(
      this.mapStates(this.evalExpr(s, ctx, node.left), (s1, v) => {
        const out = [];
        if (op === K.QuestionQuestionToken) {
          const [nul, nn] = this.splitNullish(s1, v);
          if (nn) out.push([nn, v]);
          if (nul) out.push(...this.evalExpr(nul, ctx, node.right));
        } else {
          const [t, f] = this.split(s1, v);
          if (op === K.BarBarToken) {
            if (t) out.push([t, v]);
            if (f) out.push(...this.evalExpr(f, ctx, node.right));
          } else {
            if (f) out.push([f, this.constOf(f, v) || v]);
            if (t) out.push(...this.evalExpr(t, ctx, node.right));
          }
        }
        return out;
      }),
    );
  }
  if (op === K.EqualsToken) {
    return this.mapStates(this.evalExpr(s, ctx, node.right), (s1, v) => this.assign(s1, ctx, node.left, v, node).map((s2) => [s2, v]));
  }
  if (op === K.QuestionQuestionEqualsToken || op === K.BarBarEqualsToken || op === K.AmpersandAmpersandEqualsToken) {
    return this.mapStates(this.evalExpr(s, ctx, node.left), (s1, v) => {
      const [skip, doit] = op === K.QuestionQuestionEqualsToken ? this.splitNullish(s1, v).reverse() : op === K.BarBarEqualsToken ? this.split(s1, v) : this.split(s1, v).reverse();
      const out = [];
      if (skip) out.push([skip, v]);
      if (doit) for (const [s2, r] of this.evalExpr(doit, ctx, node.right)) for (const s3 of this.assign(s2, ctx, node.left, r, node)) out.push([s3, r]);
      return out;
    });
  }
  if (ASSIGN[op]) {
    return this.mapStates(this.evalExpr(s, ctx, node.left), (s1, a) =>
      this.mapStates(this.evalExpr(s1, ctx, node.right), (s2, b) => {
        const v = this.binop(s2, ASSIGN[op], a, b, node);
        return this.assign(s2, ctx, node.left, v, node).map((s3) => [s3, v]);
      }),
    );
  }
  return this.mapStates(this.evalExpr(s, ctx, node.left), (s1, a) =>
    this.mapStates(this.evalExpr(s1, ctx, node.right), (s2, b) => {
      // comparing null/undefined decided, otherwise a provenance term
      return [[s2, this.binop(s2, op, a, b, node)]];
    }),
  );
};
I.evalUnary = function (s, ctx, node) {
  const op = node.operator;
  if (op === K.PlusPlusToken || op === K.MinusMinusToken) {
    return this.mapStates(this.evalExpr(s, ctx, node.operand), (s1, v) => {
      const nv = this.binop(s1, op === K.PlusPlusToken ? K.PlusToken : K.MinusToken, v, C(1));
      return this.assign(s1, ctx, node.operand, nv, node).map((s2) => [s2, node.kind === K.PrefixUnaryExpression ? nv : v]);
    });
  }
  return this.mapStates(this.evalExpr(s, ctx, node.operand), (s1, v) => {
    const c = this.constOf(s1, v);
    if (op === K.ExclamationToken) {
      const d = this.decide(s1, v);
      return [[s1, d !== undefined ? C(!d) : not(v)]];
    }
    if (c) return [[s1, C(op === K.MinusToken ? -c.v : op === K.PlusToken ? +c.v : ~c.v)]];
    return [[s1, term('un:' + ts.tokenToString(op), [v], { mask: Z | X })]];
  });
};

// ------------------------------------------------------------ assignment ----
I.assign = function (s, ctx, target, v, node) {
  while (ts.isParenthesizedExpression(target) || ts.isAsExpression(target) || ts.isNonNullExpression(target)) target = target.expression;
  if (ts.isIdentifier(target)) {
    const sc = s.lookup(ctx.scope, target.text);
    const r = s.clone();
    if (sc !== undefined) {
      r.setVar(sc, target.text, v);
      return [r];
    }
    const sym = this.p.symbolOf(target);
    const d = sym && (sym.declarations || []).find((x) => ts.isVariableDeclaration(x));
    if (d) {
      let r2 = r;
      const info = { name: 'write:' + target.text, node, recv: term('global', ['module']), key: target.text, args: [v] };
      if (this.cfg.write(info)) r2 = this.emit(r, ctx, info);
      if (!r2.scopes.has('modlet')) r2.wScopes().set('modlet', { parent: null, vars: new Map(), captured: true });
      r2.setVar('modlet', this.modKey(d), v);
      return [r2];
    }
    return [r];
  }
  if (ts.isPropertyAccessExpression(target)) {
    const out = [];
    for (const [s1, b] of this.evalExpr(s, ctx, target.expression)) out.push(...this.writeProp(s1, ctx, b, C(target.name.text), v, node || target));
    return out;
  }
  if (ts.isElementAccessExpression(target)) {
    const out = [];
    for (const [s1, b] of this.evalExpr(s, ctx, target.expression))
      for (const [s2, k] of this.evalExpr(s1, ctx, target.argumentExpression)) out.push(...this.writeProp(s2, ctx, b, this.constOf(s2, k) || k, v, node || target));
    return out;
  }
  if (ts.isArrayLiteralExpression(target)) {
    let list = [s];
    target.elements.forEach((e, i) => {
      list = list.flatMap((x) => this.readProp(x, ctx, v, String(i), e).flatMap(([y, ev]) => this.assign(y, ctx, e, ev, e)));
    });
    return list;
  }
  if (ts.isObjectLiteralExpression(target)) {
    let list = [s];
    for (const p of target.properties) {
      if (ts.isShorthandPropertyAssignment(p)) list = list.flatMap((x) => this.readProp(x, ctx, v, p.name.text, p).flatMap(([y, ev]) => this.assign(y, ctx, p.name, ev, p)));
      else if (ts.isPropertyAssignment(p)) list = list.flatMap((x) => this.readProp(x, ctx, v, p.name.getText(), p).flatMap(([y, ev]) => this.assign(y, ctx, p.initializer, ev, p)));
    }
    return list;
  }
  return [s];
};
I.writeProp = function (s, ctx, base, key, v, node) {
  if (this.cfg.propWrite) { const m = this.cfg.propWrite(this, s, ctx, base, key, v, node); if (m) return m; }
  const c = base.k === 't' ? this.constOf(s, base) : base.k === 'c' ? base : undefined;
  if (c && (c.v === undefined || c.v === null)) {
    ctx.throws.push({ s, v: term('TypeError', [key], { mask: X }), node });
    return [];
  }
  let r = s.clone();
  // setters
  const cls = base.k !== 'c' ? this.clsOf(r, base) : undefined;
  if (cls && key.k === 'c') {
    for (let c2 = cls; c2; c2 = this.p.superClass(c2)) {
      const m = c2.members.find((x) => ts.isSetAccessor(x) && x.name.getText() === key.v);
      if (m) return this.callFn(r, ctx, m, 'mod', base, [v], node).map(([x]) => x);
    }
  }
  const info = { name: 'write', node, recv: base, key: key.k === 'c' ? String(key.v) : undefined, keyV: key, args: [key, v], cls: cls && cls.name && cls.name.text };
  if (this.cfg.write(info, this, r, ctx)) r = this.emit(r, ctx, info);
  if (base.k === 'c') return [r];
  const [loc, o] = this.ensureObj(r, base);
  if (o.kind === 'arr' && !(key.k === 'c' && key.v !== 'length' && !/^\d+$/.test(String(key.v)))) {
    if (key.k === 'c' && key.v === 'length') {
      r.wHeap().set(loc, { ...o, elems: v.k === 'c' && v.v === 0 ? [] : o.elems, dyn: v.k === 'c' && v.v === 0 ? [] : o.dyn });
      return [r];
    }
    if (key.k === 'c' && /^\d+$/.test(String(key.v)) && Number(key.v) <= o.elems.length && !o.dyn.length) {
      const elems = o.elems.slice();
      elems[Number(key.v)] = v;
      r.wHeap().set(loc, { ...o, elems });
    } else if (!o.dyn.includes(v)) r.wHeap().set(loc, { ...o, dyn: [...o.dyn, v] });
    return [r];
  }
  let es;
  if (key.k === 'c') {
    const k = String(key.v);
    es = o.entries.filter((e) => !((e.t === 'p' || e.t === 'x') && e.k === k));
    es.push({ t: 'p', k, v });
  } else {
    es = o.entries.filter((e) => !((e.t === 'd' || e.t === 'x') && e.k === key && true));
    es.push({ t: 'd', k: key, v });
  }
  r.wHeap().set(loc, { ...o, entries: es });
  return [r];
};
I.evalDelete = function (s, ctx, node) {
  let t = node.expression;
  while (ts.isParenthesizedExpression(t) || ts.isNonNullExpression(t)) t = t.expression;
  if (!ts.isPropertyAccessExpression(t) && !ts.isElementAccessExpression(t)) return [[s, TRUE]];
  const out = [];
  for (const [s1, b] of this.evalExpr(s, ctx, t.expression)) {
    const keys = ts.isPropertyAccessExpression(t) ? [[s1, C(t.name.text)]] : this.evalExpr(s1, ctx, t.argumentExpression);
    for (const [s2, k0] of keys) {
      const k = this.constOf(s2, k0) || k0;
      let r = s2.clone();
      const info = { name: 'delete', node, recv: b, key: k.k === 'c' ? String(k.v) : undefined, keyV: k, args: [k] };
      if (this.cfg.write(info, this, r, ctx)) r = this.emit(r, ctx, info);
      if (b.k !== 'c') {
        const [loc, o] = this.ensureObj(r, b);
        const kk = k.k === 'c' ? String(k.v) : k;
        const es = o.entries.filter((e) => e.k !== kk);
        if (o.open || o.entries.some((e) => e.t === 's' || e.t === 'd')) es.push({ t: 'x', k: kk });
        r.wHeap().set(loc, { ...o, entries: es });
      }
      out.push([r, TRUE]);
    }
  }
  return out;
};

// ------------------------------------------------------------ await ---------
I.havocShared = function (s, tag, settled) {
  if (!this.cfg.havoc) return s;
  // a concrete history: nothing else runs between a settled promise and its reaction
  if (settled && this.cfg.moduleInit) return s;
  const r = s.clone();
  r.epoch = tag;
  for (const [loc, o] of r.heap) {
    if (!loc.startsWith('t:')) continue;
    const es = o.entries.filter((e) => {
      if (e.t !== 'p') return o.kind !== 'open' || !(o.cls || (o.open && o.open.meta && (o.open.meta.cls || o.open.op === 'glob')));
      return !this.isMutableField(o.open, e.k);
    });
    if (es.length !== o.entries.length) r.wHeap().set(loc, { ...o, entries: es, epoch: tag });
  }
  if (r.scopes.has('modlet') || this.cfg.moduleInit) r.wScopes().set('modlet', { parent: null, vars: new Map([['*havoc', UNDEF]]), captured: true });
  return r;
};
I.isMutableField = function (base, key) {
  if (!base) return false;
  if (base.op === 'glob') return true;
  if (base.k === 'cls') return true;
  const cls = (base.meta && base.meta.cls) || (base.meta && this.clsOfType(base.meta.type));
  if (!cls) return false;
  const m = this.p.findMember(cls, key);
  if (!m || !ts.isPropertyDeclaration(m)) return false;
  return !(ts.getCombinedModifierFlags(m) & ts.ModifierFlags.Readonly) && !(m.initializer && ts.isFunctionLike(m.initializer));
};
I.doAwait = function (s, ctx, v, node) {
  const tag = 'a' + nodeKey(node) + '|' + ctx.prefix.length;
  if (ctx.detachable && !s.det) { s = s.clone(); s.det = true; }
  if (v.k === 't' && v.op === 'resolved') return this.doAwaitInner(this.havocShared(s, tag, true), ctx, v.args[0]);
  if (v.k === 't' && v.op === 'rejected') {
    ctx.throws.push({ s: this.havocShared(s, tag, true), v: v.args[0], node });
    return [];
  }
  if (v.k === 'c') return [[this.havocShared(s, tag, true), v]];
  if (v.k === 't' && v.op === 'all') {
    // Promise.all of known promises: first rejection rejects
    const s1 = this.havocShared(s, tag);
    const rej = v.args.find((a) => a.k === 't' && a.op === 'rejected');
    if (rej) { ctx.throws.push({ s: s1, v: rej.args[0], node }); return []; }
    let list = [[s1, []]];
    for (const a of v.args) {
      const nx = [];
      for (const [x, acc] of list) for (const [y, w] of this.awaitValue(x, ctx, a, node)) nx.push([y, [...acc, w]]);
      list = nx;
    }
    return list.map(([x, acc]) => {
      const r = x.clone();
      return [r, this.newObj(r, this.siteLoc(ctx, node), { kind: 'arr', entries: [], elems: acc, dyn: [] })];
    });
  }
  return this.awaitValue(this.havocShared(s, tag), ctx, v, node);
};
I.doAwaitInner = function (s, ctx, v) {
  if (v.k === 't' && v.op === 'resolved') return this.doAwaitInner(s, ctx, v.args[0]);
  if (v.k === 't' && v.op === 'rejected') { ctx.throws.push({ s, v: v.args[0] }); return []; }
  return [[s, v]];
};
I.awaitValue = function (s, ctx, v, node) {
  if (v.k === 'c') return [[s, v]];
  if (v.k === 't' && (v.op === 'resolved' || v.op === 'rejected')) return this.doAwaitInner(s, ctx, v);
  if (v.k === 'o') return [[s, v]];
  if (v.k !== 't') return [[s, v]];
  if (v.op === 'awaited') return [[s, v]];
  let sure = false;
  if (v.op === 'promise' && v.args[1]) {
    const o = s.heap.get(v.args[1]);
    const e = o && o.entries[0];
    if (e) return this.doAwaitInner(s, ctx, e.k === 'resolve' ? this.asPromise(s, e.v) : term('rejected', [e.v], { mask: X, node }), node);
    sure = v.args[2] === 'sure';
  }
  const isProm = !(v.meta.type && v.meta.type.symbol && !/Promise/.test(v.meta.type.symbol.name)) ;
  if (!isProm) return [[s, v]];
  if (!sure && this.cfg.awaitMayThrow(v)) {
    const e = s.clone();
    ctx.throws.push({ s: e, v: term('err', [v], { mask: X }), node });
  }
  let type, mask = ALL;
  try {
    const pt = v.meta.type && this.checker.getAwaitedType(v.meta.type);
    if (pt) { type = pt; mask = this.typeMask(pt); }
  } catch (e) { /* untyped */ }
  return [[s, term('awaited', [v], { type, mask })]];
};
