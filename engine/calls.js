'use strict';
// Call resolution, in-context analysis of repository callees, boundary calls.
const { ts } = require('./program');
const D = require('./domain');
const { U, N, F, Z, E, T, X, S, ALL, C, UNDEF, NULL, TRUE, FALSE, O, term, FN, CLS, BUILTIN, nodeKey, not } = D;
const { Interp } = require('./interp');
const K = ts.SyntaxKind;
const I = Interp.prototype;

const strip = (n) => {
  while (ts.isParenthesizedExpression(n) || ts.isNonNullExpression(n) || ts.isAsExpression(n)) n = n.expression;
  return n;
};
I.sigDecl = function (node) {
  try {
    const sig = this.checker.getResolvedSignature(node);
    return sig && sig.declaration;
  } catch (e) { return undefined; }
};
// name of an external / boundary callee, e.g. "Storage.setItem", "JSON.parse"
I.extName = function (node) {
  const callee = strip(node.expression);
  if (ts.isPropertyAccessExpression(callee)) {
    const m = callee.name.text;
    const sym = this.checker.getSymbolAtLocation(callee.name);
    const par = sym && sym.parent;
    if (par && par.name && !/^["_]/.test(par.name)) return par.name + '.' + m;
    if (ts.isIdentifier(callee.expression)) return callee.expression.text + '.' + m;
    const t = this.checker.getTypeAtLocation(callee.expression);
    const tn = t && t.symbol && t.symbol.name;
    return (tn && !/^__/.test(tn) ? tn : 'any') + '.' + m;
  }
  if (ts.isIdentifier(callee)) return callee.text;
  if (ts.isElementAccessExpression(callee)) return 'any.[]';
  return 'expr()';
};
I.isEvent = function (name) {
  const e = this.cfg.events;
  if (!e) return false;
  let m = this._evm || (this._evm = new Map());
  if (!m.has(name)) m.set(name, e.some((x) => (x instanceof RegExp ? x.test(name) : x === name)));
  return m.get(name);
};
// can this function reach a recorded effect?
I.reaches = function (fn) {
  if (this._reach.has(fn)) return this._reach.get(fn);
  this._reach.set(fn, false);
  let r = false;
  const visit = (n) => {
    if (r) return;
    if (ts.isCallExpression(n) || ts.isNewExpression(n)) {
      const nm = ts.isNewExpression(n) ? 'new ' + n.expression.getText() : this.extName(n);
      if (this.isEvent(nm)) { r = true; return; }
      const d = this.sigDecl(n);
      if (d && this.p.isRepo(d)) {
        if (this.isEvent(this.p.fnName(d))) { r = true; return; }
        if (d.body && this.reaches(d)) { r = true; return; }
        if (ts.isMethodSignature(d) && d.parent.name && this.cfg.implementers[d.parent.name.text]) {
          const m = this.p.findFn(this.cfg.implementers[d.parent.name.text] + '.' + d.name.getText());
          if (m && m.body && this.reaches(m)) { r = true; return; }
        }
      }
      if (ts.isNewExpression(n) && !d) {
        const s = this.p.symbolOf(n.expression);
        const cd = s && (s.declarations || []).find((x) => ts.isClassDeclaration(x) && this.p.isRepo(x));
        if (cd && this.reaches(cd)) { r = true; return; }
      }
    }
    if (this.cfg.writeKeys && ts.isBinaryExpression(n) && n.operatorToken.kind >= K.FirstAssignment && n.operatorToken.kind <= K.LastAssignment) {
      const l = strip(n.left);
      const k = ts.isPropertyAccessExpression(l) ? l.name.text : ts.isIdentifier(l) ? l.text : '[]';
      if (this.cfg.writeKeys(k)) { r = true; return; }
    }
    if (this.cfg.writeKeys && ts.isDeleteExpression(n) && this.cfg.writeKeys('delete')) { r = true; return; }
    if (ts.isIdentifier(n) && n.parent && !(ts.isPropertyAccessExpression(n.parent) && false)) {
      const p = n.parent;
      if (!(p.name === n && (ts.isFunctionLike(p) || ts.isVariableDeclaration(p) || ts.isPropertyDeclaration(p) || ts.isPropertySignature?.(p)))) {
        const s = this.p.symbolOf(n);
        if (s && s.declarations)
          for (const d0 of s.declarations) {
            if (!this.p.isRepo(d0)) continue;
            let d = d0;
            if ((ts.isVariableDeclaration(d) || ts.isPropertyDeclaration(d)) && d.initializer) d = d.initializer;
            if (ts.isFunctionLike(d) && d.body && this.reaches(d)) { r = true; return; }
          }
      }
    }
    ts.forEachChild(n, visit);
  };
  ts.forEachChild(fn, visit);
  this._reach.set(fn, r);
  return r;
};

I.evalArgs = function (s, ctx, args) {
  let list = [[s, []]];
  for (const a of args || []) {
    const nx = [];
    for (const [s1, vs] of list)
      for (const [s2, v] of this.evalExpr(s1, ctx, ts.isSpreadElement(a) ? a.expression : a)) {
        if (ts.isSpreadElement(a)) {
          const o = this.obj(s2, v);
          if (o && o.kind === 'arr' && !o.dyn.length) nx.push([s2, [...vs, ...o.elems]]);
          else if (!(o && o.kind === 'arr') && this.collection(s2, v).exact) nx.push([s2, [...vs, ...this.collection(s2, v).alts]]);
          else { const arr = [...vs, this.elemOf(s2, v)]; arr.spread = v; nx.push([s2, arr]); }
        } else { const arr = [...vs, v]; if (vs.spread) arr.spread = vs.spread; nx.push([s2, arr]); }
      }
    list = nx;
  }
  return list;
};

I.evalCall = function (s, ctx, node) {
  this.callSites.add(node);
  const callee = strip(node.expression);
  const out = [];
  if (callee.kind === K.SuperKeyword) {
    for (const [s1, args] of this.evalArgs(s, ctx, node.arguments)) {
      const cls = this.enclosingClass(node);
      const sup = cls && this.p.superClass(cls);
      if (sup) for (const x of this.runConstructor(s1, ctx, sup, ctx.thisVal, args, node)) out.push([x, UNDEF, false]);
      else out.push([s1, UNDEF, false]);
    }
    return out;
  }
  if (callee.kind === K.ImportKeyword) return [[s, term('call', ['import', String(nodeKey(node))]), false]];
  if (ts.isPropertyAccessExpression(callee) || ts.isElementAccessExpression(callee)) {
    const bs = ts.isPropertyAccessExpression(callee) && ts.isIdentifier(callee.expression) ? this.p.symbolOf(callee.expression) : undefined;
    const isNs = bs && bs.flags & ts.SymbolFlags.ValueModule && s.lookup(ctx.scope, callee.expression.text) === undefined;
    if (!isNs) {
      for (const [s1, b, short] of this.evalChainBase(s, ctx, callee)) {
        if (short) { out.push([s1, UNDEF, !!(node.flags & ts.NodeFlags.OptionalChain)]); continue; }
        const keys = ts.isPropertyAccessExpression(callee) ? [[s1, C(callee.name.text)]] : this.evalExpr(s1, ctx, callee.argumentExpression);
        for (const [s2, k] of keys) {
          if (node.questionDotToken && k.k === 'c' && b.k !== 'c') {
            // optional call: split on the callee's presence
            const vs = this.readProp(s2, ctx, b, String(k.v), callee);
            for (const [s3, fv] of vs) {
              const [nul, nn] = this.splitNullish(s3, fv);
              if (nul) out.push([nul, UNDEF, true]);
              if (nn) for (const [s4, args] of this.evalArgs(nn, ctx, node.arguments)) for (const [s5, v] of this.callMethod(s4, ctx, b, k, args, node)) out.push([s5, v, false]);
            }
            continue;
          }
          for (const [s3, args] of this.evalArgs(s2, ctx, node.arguments))
            for (const [s4, v] of this.callMethod(s3, ctx, b, k, args, node)) out.push([s4, v, false]);
        }
      }
      return out;
    }
  }
  for (const [s1, fv0] of this.evalExpr(s, ctx, callee)) {
    let list = [s1];
    if (node.questionDotToken) {
      const [nul, nn] = this.splitNullish(s1, fv0);
      if (nul) out.push([nul, UNDEF, true]);
      list = nn ? [nn] : [];
    }
    for (const s2 of list)
      for (const [s3, args] of this.evalArgs(s2, ctx, node.arguments))
        for (const [s4, v] of this.callValue(s3, ctx, fv0, undefined, args, node)) out.push([s4, v, false]);
  }
  return out;
};
I.enclosingClass = function (node) {
  for (let n = node; n; n = n.parent) if (ts.isClassDeclaration(n) || ts.isClassExpression(n)) return n;
};

// what was attached to a pending promise with then/catch/finally runs once it is settled
I.runReactions = function (s, ctx, loc, node) {
  const q = s.heap.get('R:' + loc);
  if (!q) return [s];
  const e = s.heap.get(loc).entries[0];
  let list = [s.clone()];
  list[0].wHeap().delete('R:' + loc);
  const p = e.k === 'resolve' ? this.asPromise(s, e.v) : term('rejected', [e.v], { mask: X, node });
  if (p.k === 't' && p.op === 'promise' && p.args[1] && p.args[1] !== loc && s.heap.get(p.args[1]) && !s.heap.get(p.args[1]).entries.length) {
    // resolved with another pending promise: wait for that one
    for (const el of q.elems) list = list.map((x) => this.addReaction(x, p.args[1], el.data));
    return list;
  }
  for (const el of q.elems) {
    const { key, args, loc2, node: at } = el.data;
    list = list.flatMap((x) => {
      const c2 = this.sub(ctx, { throws: [], detachable: true });
      return this.promiseMethod(x, c2, p, key, args, at).flatMap(([y, v]) => {
        const r = y.clone();
        r.wHeap().set(loc2, { kind: 'promise', entries: [{ t: 'p', k: 'resolve', v }] });
        return this.runReactions(r, ctx, loc2, at);
      });
    });
  }
  return list;
};
I.addReaction = function (s, loc, data) {
  const r = s.clone();
  const q = r.heap.get('R:' + loc);
  r.wHeap().set('R:' + loc, { kind: 'reactions', entries: [], elems: [...(q ? q.elems : []), { k: 'c', id: -1, data }], dyn: [] });
  return r;
};
I.callValue = function (s, ctx, fv, self, args, node, nameHint) {
  const c = fv.k === 't' ? this.constOf(s, fv) || fv : fv;
  if (fv.k === 'f') return this.callFn(s, ctx, fv.node, fv.scope, fv.self || self, args, node);
  if (c.k === 'c') {
    ctx.throws.push({ s, v: term('TypeError', ['call'], { mask: X }), node });
    return [];
  }
  if (fv.k === 'b') {
    const m = fv.name.split(':');
    if (m[0] === 'resolve' || m[0] === 'reject') {
      const loc = fv.name.slice(m[0].length + 1);
      const r = s.clone();
      const o = r.heap.get(loc);
      if (!o || o.entries.length) return [[r, UNDEF]];
      r.wHeap().set(loc, { ...o, entries: [{ t: 'p', k: m[0], v: args[0] || UNDEF }] });
      return this.runReactions(r, ctx, loc, node).map((x) => [x, UNDEF]);
    }
    if (m[0] === 'bound') return this.callValue(s, ctx, fv.data[0], fv.data[1], [...fv.data.slice(2), ...args], node);
  }
  if (fv.k === 't' && (fv.op === 'oneof' || fv.op === 'pick' || fv.op === 'dynget') && fv.args.some((a) => a.k === 'f')) {
    const out = [];
    for (const a of fv.args) if (a.k === 'f') out.push(...this.callFn(s, ctx, a.node, a.scope, a.self || self, args, node));
    return out;
  }
  if (fv.k === 't' && fv.op === 'global') {
    const r = this.globalFn(s, ctx, fv.args[0], args, node);
    if (r) return r;
    return this.extCall(s, ctx, { name: fv.args[0], recv: undefined, args, node });
  }
  // a bound host function is called as the function it binds
  if (fv.k === 't' && fv.op === 'call' && /(^|\.)bind$/.test(fv.args[0]) && fv.args[1] && fv.args[1].k === 't') return this.callValue(s, ctx, fv.args[1], fv.args[2], [...fv.args.slice(3).filter((a) => a && a.k), ...args], node);
  // a function value whose declaration is statically known
  const d = this.sigDecl(node);
  if (d && d.body && this.p.isRepo(d) && !ts.isArrowFunction(d) && ctx.stack.length && fv.k === 't' && fv.op !== 'in') return this.callFn(s, ctx, d, 'mod', self, args, node);
  // a function handed in by the caller keeps its identity wherever it is stored
  let name = fv.k === 't' && fv.op === 'in' && fv.args[1] === 'h' ? 'callback:' + fv.args[0] : nameHint;
  if (!name) {
    if (fv.k === 't' && fv.op === 'get' && typeof fv.args[1] === 'string') name = this.termOwner(fv) + '.' + fv.args[1];
    else if (fv.k === 't' && fv.op === 'in') name = 'callback:' + fv.args[0];
    else if (fv.k === 't' && fv.op === 'glob') name = fv.meta.name;
    else name = this.extName(node);
  }
  return this.extCall(s, ctx, { name, recv: self || (fv.k === 't' && fv.op === 'get' ? fv.args[0] : undefined), args, node, fv });
};
I.termOwner = function (t) {
  const b = t.args[0];
  const ty = b && b.meta && b.meta.type;
  if (ty) {
    const nn = this.nonNull(ty);
    if (nn.aliasSymbol) return nn.aliasSymbol.name;
    if (nn.symbol && !/^__/.test(nn.symbol.name)) return nn.symbol.name;
  }
  if (b && b.meta && b.meta.cls) return b.meta.cls.name.text;
  return 'any';
};

const PURE = /^(String|Number|Boolean|RegExp|Math|JSON|Object|ObjectConstructor|ArrayConstructor|NumberConstructor|StringConstructor|URLSearchParams|URL|Array|ReadonlyArray|Map|Set|ReadonlyMap|ReadonlySet)\.|^(parseInt|parseFloat|isNaN|isFinite|encodeURIComponent|decodeURIComponent|encodeURI|decodeURI|atob|btoa|String|Number|Boolean)$/;
I.extCall = function (s, ctx, info) {
  const { node } = info;
  const args = info.args || [];
  let r = s;
  if (this.cfg.model) {
    const m = this.cfg.model(this, s, ctx, info);
    if (m) return m;
  }
  if (this.isEvent(info.name) && (!this.cfg.eventFilter || this.cfg.eventFilter(info, this, s, ctx))) r = this.emit(r, ctx, { name: info.name, recv: info.recv, args, node });
  if (!this.muted) this.opaqueCalls.set(info.name, (this.opaqueCalls.get(info.name) || 0) + 1);
  const pure = PURE.test(info.name) || (this.cfg.pure && this.cfg.pure(info));
  if (this.cfg.mayThrow(info)) {
    ctx.throws.push({ s: r.clone(), v: term('err', [info.name, nodeKey(node) + ''], { mask: X, from: info.name }), node });
  }
  // callbacks handed to the outside world run later, in a disturbed store
  if (this.cfg.callbacks) {
    for (const a of args) if (a.k === 'f') this.runCallback(r, ctx, a, node);
  }
  let type;
  try { type = info.type || this.checker.getTypeAtLocation(node); } catch (e) { /* untyped */ }
  const targs = [info.name, info.recv || '-', ...args];
  if (!pure) targs.push(ctx.prefix + '@' + nodeKey(node));
  let mask = this.typeMask(type);
  if (info.isNew || /(^|\.)bind$/.test(info.name)) mask = X;
  const t = term('call', targs, { type, mask, name: info.name });
  return [[r, t]];
};
I.runCallback = function (s, ctx, fv, node) {
  if (ctx.stack.includes(fv.node)) return;
  const r = this.havocShared(s, 'cb' + nodeKey(node));
  const c2 = { ...ctx, throws: [], detached: true, detachable: false };
  const ps = (fv.node.parameters || []).map((p, i) => term('cbarg', [String(nodeKey(fv.node)), String(i)], (() => { const type = this.checker.getTypeAtLocation(p); return { type, mask: this.typeMask(type) & ~((this.typeMask(type) & X) ? 0 : 0) }; })()));
  const res = this.callFn(r, c2, fv.node, fv.scope, fv.self, ps, node);
  if (this.cfg.onCallback) this.cfg.onCallback({ node, fn: fv.node, throws: c2.throws, res, ctx });
};

I.isAsync = (fn) => !!(fn.modifiers && fn.modifiers.some((m) => m.kind === K.AsyncKeyword));
I.isFloating = function (node) {
  let p = node && node.parent;
  while (p && (ts.isParenthesizedExpression(p) || ts.isAsExpression(p) || ts.isNonNullExpression(p))) p = p.parent;
  return !!p && (ts.isExpressionStatement(p) || ts.isVoidExpression(p));
};
const argUse = new Map();
I.usesArguments = function (fn) {
  if (!argUse.has(fn)) {
    let found = false;
    const walk = (n) => {
      if (found || (n !== fn && ts.isFunctionLike(n) && !ts.isArrowFunction(n))) return;
      if (ts.isIdentifier(n) && n.text === 'arguments' && !(ts.isPropertyAccessExpression(n.parent) && n.parent.name === n)) { found = true; return; }
      ts.forEachChild(n, walk);
    };
    if (fn.body) walk(fn.body);
    argUse.set(fn, found);
  }
  return argUse.get(fn);
};
I.callFn = function (s, ctx, fn, scope, self, args, node) {
  this.tick();
  const name = this.p.fnName(fn);
  const sigType = () => { try { const sg = this.checker.getSignatureFromDeclaration(fn); return sg && this.checker.getReturnTypeOfSignature(sg); } catch (e) { return undefined; } };
  const asOpaque = (why) => {
    if (!this.muted) this.opaqueCalls.set('repo:' + name + ' (' + why + ')', (this.opaqueCalls.get('repo:' + name + ' (' + why + ')') || 0) + 1);
    const save = this.cfg.callbacks;
    const r = this.extCall(s, ctx, { name, recv: self, args, node: node || fn, type: sigType(), repo: true, fn });
    this.cfg.callbacks = save;
    return r;
  };
  if (!fn.body || (ts.isConstructorDeclaration(fn) && false)) return asOpaque('no body');
  if (this.cfg.opaque(name, fn, this)) return asOpaque('boundary');
  if (this.cfg.model) {
    const m = this.cfg.model(this, s, ctx, { name, recv: self, args, node: node || fn, repo: true, fn });
    if (m) return m;
  }
  if (ctx.stack.includes(fn) && (!this.cfg.recurse || ctx.stack.filter((x) => x === fn).length > this.cfg.recurse)) return asOpaque('recursion');
  if (ctx.stack.length >= this.cfg.maxDepth) return asOpaque('depth');
  if (ctx.stack.length && this.size(fn) > this.cfg.smallSize && !this.cfg.forceInline(name, fn) && !this.reaches(fn) && !args.some((a) => a.k === 'f' && this.reaches(a.node))) return asOpaque('no relevant effect');
  let s0 = s;
  if (this.isEvent('enter:' + name)) s0 = this.emit(s0, ctx, { name: 'enter:' + name, recv: self, args, node: node || fn });
  if (!this.muted) this.fnsSeen.add(fn);
  const prefix = ctx.prefix + '>' + nodeKey(node || fn) + '.' + nodeKey(fn);
  const sid = prefix;
  const async = this.isAsync(fn);
  const floating = async && this.isFloating(node);
  const c2 = {
    fn, prefix, scope: sid, throws: [], stack: [...ctx.stack, fn], loop: ctx.loop, detached: ctx.detached,
    detachable: floating || ctx.detachable, thisVal: ts.isArrowFunction(fn) ? self : self,
  };
  let st = s0.clone();
  const det0 = st.det;
  st.wScopes().set(sid, { parent: scope, vars: new Map(), captured: false });
  if (!st.scopes.has('mod')) st.wScopes().set('mod', { parent: null, vars: new Map(), captured: true });
  let states = [st];
  (fn.parameters || []).forEach((p, i) => {
    if (p.name.getText() === 'this') return;
    states = states.flatMap((x) => {
      let v;
      const idx = i - (fn.parameters[0] && fn.parameters[0].name.getText() === 'this' ? 1 : 0);
      if (p.dotDotDotToken) {
        const r = x.clone();
        const rest = args.slice(idx);
        const o = this.newObj(r, prefix + ':rest' + nodeKey(p), { kind: 'arr', entries: [], elems: args.spread ? [] : rest, dyn: args.spread ? rest : [] });
        return this.bindPattern(r, c2, p.name, o);
      }
      v = idx < args.length ? args[idx] : UNDEF;
      return this.bindWithDefault(x, c2, p, v);
    });
    if (ts.isParameterPropertyDeclaration?.(p, p.parent) && self) {
      states = states.map((x) => {
        const r = x.clone();
        const v = r.scopes.get(sid).vars.get(p.name.getText());
        const [loc, o] = this.ensureObj(r, self);
        r.wHeap().set(loc, { ...o, entries: [...o.entries.filter((e) => e.k !== p.name.getText()), { t: 'p', k: p.name.getText(), v }] });
        return r;
      });
    }
  });
  if (!ts.isArrowFunction(fn) && !args.spread && this.usesArguments(fn)) states = states.map((x) => {
    const r = x.clone();
    const o = this.newObj(r, prefix + ':arguments', { kind: 'arr', entries: [], elems: [...args], dyn: [] });
    const sc = r.scopes.get(sid);
    r.wScopes().set(sid, { ...sc, vars: new Map([...sc.vars, ['arguments', o]]) });
    return r;
  });
  let rets = [];
  for (const x of states) {
    if (ts.isBlock(fn.body)) {
      for (const o of this.execBlock(x, c2, fn.body.statements, fn.body)) {
        if (o.type === 'r') rets.push({ s: o.s, v: o.v });
        else rets.push({ s: o.s, v: UNDEF });
      }
    } else for (const [y, v] of this.evalExpr(x, c2, fn.body)) rets.push({ s: y, v });
  }
  const clean = (x, v) => {
    const r = this.gc(x, prefix, [v, self, ...args].filter(Boolean));
    if (r.det === det0) return r;
    const q = r.clone();
    q.det = det0;
    return q;
  };
  if (async) {
    rets = rets.map((o) => ({ s: o.s, v: this.asPromise(o.s, o.v) }));
    for (const t of c2.throws) rets.push({ s: t.s, v: term('rejected', [t.v], { mask: X, node: t.node }) });
  } else for (const t of c2.throws) ctx.throws.push({ ...t, s: clean(t.s, t.v) });
  rets = this.mergeOut(rets.map((o) => ({ s: clean(o.s, o.v), v: o.v })));
  if (this.isEvent('exit:' + name)) rets = rets.map((o) => ({ s: this.emit(o.s, ctx, { name: 'exit:' + name, recv: self, args: [o.v], node: node || fn }), v: o.v }));
  return rets.map((o) => [o.s, o.v]);
};
I.asPromise = function (s, v) {
  if (v.k === 't' && (v.op === 'resolved' || v.op === 'rejected' || v.op === 'promise' || v.op === 'all')) return v;
  if (v.k === 't' && v.meta.type && v.meta.type.symbol && /^Promise/.test(v.meta.type.symbol.name)) return v;
  return term('resolved', [v], { mask: X });
};
I.bindWithDefault = function (s, ctx, p, v) {
  if (!p.initializer) return this.bindPattern(s, ctx, p.name, v);
  const m = this.maskOf(s, v);
  const out = [];
  if (m & ~U) {
    const nn = v.k === 't' && m & U ? this.refine(s, v, ALL & ~U) : s;
    if (nn) out.push(...this.bindPattern(nn, ctx, p.name, v));
  }
  if (m & U) {
    const un = v.k === 't' ? this.refine(s, v, U) : s;
    if (un) for (const [x, d] of this.evalExpr(un, ctx, p.initializer)) out.push(...this.bindPattern(x, ctx, p.name, d));
  }
  return out;
};
I.bindPattern = function (s, ctx, name, v) {
  if (ts.isIdentifier(name)) {
    const r = s.clone();
    r.setVar(ctx.scope, name.text, v);
    return [r];
  }
  let list = [s];
  if (ts.isObjectBindingPattern(name)) {
    const c = v.k === 'c' ? v : v.k === 't' ? this.constOf(s, v) : undefined;
    if (c && (c.v === undefined || c.v === null)) { ctx.throws.push({ s, v: term('TypeError', ['destructure'], { mask: X }), node: name }); return []; }
    const used = [];
    for (const e of name.elements) {
      if (e.dotDotDotToken) {
        list = list.flatMap((x) => {
          const r = x.clone();
          const es = this.copyEntries(r, v).filter((z) => !used.includes(z.k));
          const o = this.newObj(r, this.siteLoc(ctx, e), { kind: 'obj', entries: [...es, ...(es.some((z) => z.t === 's') ? used.map((k) => ({ t: 'x', k })) : [])] });
          return this.bindPattern(r, ctx, e.name, o);
        });
        continue;
      }
      const key = e.propertyName ? e.propertyName : e.name;
      if (ts.isComputedPropertyName(key)) {
        list = list.flatMap((x) => this.evalExpr(x, ctx, key.expression).flatMap(([y, k]) => this.bindWithDefault(y, ctx, e, this.readDyn(y, v, k))));
        continue;
      }
      const k = key.text !== undefined ? key.text : key.getText();
      used.push(k);
      list = list.flatMap((x) => this.readProp(x, ctx, v, k, e).flatMap(([y, ev]) => this.bindWithDefault(y, ctx, e, ev)));
    }
    return list;
  }
  name.elements.forEach((e, i) => {
    if (ts.isOmittedExpression(e)) return;
    if (e.dotDotDotToken) {
      list = list.flatMap((x) => {
        const r = x.clone();
        const o0 = this.obj(r, v);
        const o = this.newObj(r, this.siteLoc(ctx, e), { kind: 'arr', entries: [], elems: o0 && o0.kind === 'arr' ? o0.elems.slice(i) : [], dyn: o0 && o0.kind === 'arr' ? o0.dyn : [this.elemOf(r, v)] });
        return this.bindPattern(r, ctx, e.name, o);
      });
      return;
    }
    list = list.flatMap((x) => {
      if (v.k === 't' && v.op === 'pair') return this.bindWithDefault(x, ctx, e, v.args[i] || UNDEF);
      return this.readProp(x, ctx, v, String(i), e).flatMap(([y, ev]) => this.bindWithDefault(y, ctx, e, ev));
    });
  });
  return list;
};

// ------------------------------------------------------------ new -----------
I.evalNew = function (s, ctx, node) {
  this.callSites.add(node);
  return this.mapStates(this.evalExpr(s, ctx, node.expression), (s1, cv) =>
    this.mapStates(this.evalArgs(s1, ctx, node.arguments), (s2, args) => this.construct(s2, ctx, cv, args, node)),
  );
};
I.construct = function (s, ctx, cv, args, node) {
  if (cv.k === 'cls') {
    const name = cv.decl.name ? cv.decl.name.text : 'class';
    const info = { name: 'new ' + name, args, node, isNew: true, cls: cv.decl };
    if (this.cfg.model) { const m = this.cfg.model(this, s, ctx, info); if (m) return m; }
    if (this.cfg.opaque('new ' + name, cv.decl, this)) {
      let r = s;
      if (this.isEvent('new ' + name)) r = this.emit(r, ctx, { name: 'new ' + name, args, node });
      return [[r, term('new', [name, ...args, ctx.prefix + '@' + nodeKey(node)], { mask: X, cls: cv.decl })]];
    }
    let r = s;
    if (this.isEvent('new ' + name)) r = this.emit(r, ctx, { name: 'new ' + name, args, node });
    r = r.clone();
    const loc = this.siteLoc(ctx, node);
    const o = this.newObj(r, loc, { kind: 'inst', entries: [], cls: cv.decl });
    return this.runConstructor(r, ctx, cv.decl, o, args, node).map((x) => [x, o]);
  }
  const name = cv.k === 't' && cv.op === 'global' ? cv.args[0] : node && ts.isNewExpression(node) ? node.expression.getText() : 'any';
  if (name === 'Map' || name === 'Set' || name === 'WeakMap' || name === 'WeakSet') {
    const r = s.clone();
    const entries = [];
    const col = args[0] && this.collection(r, args[0]), isSet = /Set$/.test(name);
    const pairs = col && col.exact ? col.alts.map((e) => {
      if (isSet) return [this.constOf(r, e) || e, TRUE];
      if (e.k === 't' && e.op === 'pair') return [this.constOf(r, e.args[0]) || e.args[0], e.args[1]];
      const eo = this.obj(r, e);
      return eo && eo.kind === 'arr' && eo.elems.length === 2 && !eo.dyn.length ? [this.constOf(r, eo.elems[0]) || eo.elems[0], eo.elems[1]] : [null];
    }) : [[null]];
    if (args[0] && pairs.every(([k]) => this.distinctKey(k))) {
      for (const [k, v] of pairs) {
        const i = entries.findIndex((e) => e.k === k || (e.k.k === 'c' && k.k === 'c' && Object.is(e.k.v, k.v)));
        if (i < 0) entries.push({ t: 'd', k, v }); else entries[i] = { t: 'd', k, v };
      }
    } else if (args[0]) {
      const o = this.obj(r, args[0]);
      if (o && o.kind === 'arr') {
        for (const e of [...o.elems, ...o.dyn]) {
          if (/Set$/.test(name)) entries.push({ t: 'd', k: e, v: TRUE });
          else { const eo = this.obj(r, e); if (eo && eo.kind === 'arr' && eo.elems.length === 2) entries.push({ t: 'd', k: eo.elems[0], v: eo.elems[1] }); else entries.push({ t: 's', v: e }); }
        }
      } else if (o && (o.kind === 'map' || o.kind === 'set')) entries.push(...o.entries);
      else if (args[0].k === 't') entries.push({ t: 's', v: args[0] });
    }
    return [[r, this.newObj(r, this.siteLoc(ctx, node), { kind: /Set$/.test(name) ? 'set' : 'map', entries })]];
  }
  if (name === 'Promise') {
    let loc = 'p:' + this.siteLoc(ctx, node);
    if (this.cfg.moduleInit) while (s.heap.has(loc)) loc += "'";
    let r = s.clone();
    r.wHeap().set(loc, { kind: 'promise', entries: [] });
    const type = this.checker.getTypeAtLocation(node);
    const mk = (x) => {
      const o = x.heap.get(loc);
      const e = o && o.entries[0];
      const y = x.clone();
      // in a history a pending promise can be settled by a later step
      if (!e && o && this.cfg.moduleInit) return [y, term('promise', [ctx.prefix + '@' + nodeKey(node), loc, args[0] && args[0].k === 'f' && args[0].node.parameters.length < 2 ? 'sure' : ''], { mask: X, type })];
      y.wHeap().delete(loc);
      if (e && e.k === 'resolve') return [y, this.asPromise(y, e.v)];
      if (e) return [y, term('rejected', [e.v], { mask: X, node })];
      return [y, term('promise', [ctx.prefix + '@' + nodeKey(node)], { mask: X, type })];
    };
    const c2 = { ...ctx, throws: [] };
    const res = args[0] && args[0].k === 'f' ? this.callFn(r, c2, args[0].node, args[0].scope, args[0].self, [BUILTIN('resolve:' + loc), BUILTIN('reject:' + loc)], node) : [[r, UNDEF]];
    return [...res.map(([x]) => mk(x)), ...c2.throws.map((t) => [t.s, term('rejected', [t.v], { mask: X })])];
  }
  if (name === 'RegExp' && args.length && args.every((a) => a.k === 't' || (a.k === 'c' && typeof a.v === 'string'))) {
    const cs = args.map((a) => this.constOf(s, a));
    if (cs.every((c) => c && typeof c.v === 'string')) {
      try { return [[s, term('regex', [String(new RegExp(...cs.map((c) => c.v)))], { mask: X })]]; } catch (e) { /* invalid pattern */ }
    }
  }
  if (name === 'Array') {
    const r = s.clone();
    return [[r, this.newObj(r, this.siteLoc(ctx, node), { kind: 'arr', entries: [], elems: args.length > 1 ? args : [], dyn: args.length === 1 ? [UNDEF] : [] })]];
  }
  return this.extCall(s, ctx, { name: 'new ' + name, args, node, isNew: true });
};
I.runConstructor = function (s, ctx, cls, self, args, node) {
  const ctor = cls.members.find((m) => ts.isConstructorDeclaration(m) && m.body);
  const sup = this.p.superClass(cls);
  const props = (x) => {
    // property initialisers
    let list = [x];
    for (const m of cls.members) {
      if (!ts.isPropertyDeclaration(m) || ts.getCombinedModifierFlags(m) & ts.ModifierFlags.Static) continue;
      const k = m.name.getText();
      list = list.flatMap((y) => {
        if (!m.initializer) return [y];
        const c2 = { fn: m, thisVal: self, throws: ctx.throws, stack: ctx.stack, loop: ctx.loop, scope: 'mod', prefix: ctx.prefix + '>' + nodeKey(node || cls) + ':init', detached: ctx.detached };
        return this.evalExpr(y, c2, m.initializer).map(([z, v]) => {
          const r = z.clone();
          const [loc, o] = this.ensureObj(r, self);
          r.wHeap().set(loc, { ...o, entries: [...o.entries.filter((e) => e.k !== k), { t: 'p', k, v }] });
          return r;
        });
      });
    }
    return list;
  };
  let states = [s];
  if (sup && !ctor) states = states.flatMap((x) => this.runConstructor(x, ctx, sup, self, args, node));
  states = states.flatMap(props);
  if (ctor) states = states.flatMap((x) => this.callFn(x, ctx, ctor, 'mod', self, args, node).map(([y]) => y));
  return this.merge(states);
};
