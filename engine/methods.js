'use strict';
// Member calls: builtin collections, promises, strings, and resolution of
// repository methods through values and declared types.
const { ts } = require('./program');
const D = require('./domain');
const { U, N, F, Z, E, T, X, S, ALL, C, UNDEF, NULL, TRUE, FALSE, O, term, FN, CLS, BUILTIN, nodeKey, not } = D;
const { Interp } = require('./interp');
const K = ts.SyntaxKind;
const I = Interp.prototype;
const strip = (n) => {
  while (ts.isParenthesizedExpression(n) || ts.isNonNullExpression(n) || ts.isAsExpression(n)) n = n.expression;
  return n;
};
const STR = new Set('trim trimStart trimEnd toLowerCase toUpperCase split startsWith endsWith includes indexOf lastIndexOf slice substring substr replace replaceAll match matchAll charAt charCodeAt codePointAt padStart padEnd repeat concat at localeCompare search normalize test exec toString valueOf'.split(' '));
const BOOLSTR = new Set(['startsWith', 'endsWith', 'includes', 'test']);
const NUMSTR = new Set(['indexOf', 'lastIndexOf', 'charCodeAt', 'codePointAt', 'localeCompare', 'search']);
const ARR = new Set('forEach map filter some every find findIndex reduce includes indexOf push pop shift unshift splice slice concat join sort flat flatMap reverse entries keys values fill at findLast'.split(' '));
const MUTARR = new Set(['push', 'pop', 'shift', 'unshift', 'splice', 'sort', 'reverse', 'fill']);
const MAPM = new Set(['get', 'set', 'has', 'delete', 'clear', 'add', 'forEach', 'keys', 'values', 'entries']);

I.isStringV = function (s, v) {
  if (v.k === 'c') return typeof v.v === 'string';
  if (v.k !== 't') return false;
  const m = this.maskOf(s, v) & ~(U | N);
  return m !== 0 && !(m & ~(E | S));
};
I.isArrayV = function (s, v) {
  const o = this.obj(s, v);
  if (o && o.kind === 'arr') return true;
  if (v.k === 't') {
    if (v.op === 'keys' || v.op === 'values' || v.op === 'entries') return true;
    const t = v.meta.type && this.nonNull(v.meta.type);
    if (t && this.checker.isArrayLikeType && this.checker.isArrayLikeType(t)) return true;
    if (t && t.symbol && /^(Array|ReadonlyArray|NodeList|NodeListOf|HTMLCollection|HTMLCollectionOf)$/.test(t.symbol.name)) return true;
  }
  return false;
};

I.callMethod = function (s, ctx, recv, keyV, args, node) {
  this.tick();
  const rc = recv.k === 't' ? this.constOf(s, recv) : undefined;
  if (rc && (rc.v === undefined || rc.v === null || typeof rc.v === 'string')) recv = rc;
  if (recv.k === 'c' && (recv.v === undefined || recv.v === null)) {
    ctx.throws.push({ s, v: term('TypeError', [keyV], { mask: X }), node });
    return [];
  }
  const kc = this.constOf(s, keyV);
  if (!kc) {
    const fv = this.readDyn(s, recv, keyV);
    return this.callValue(s, ctx, fv, recv, args, node);
  }
  const key = String(kc.v);
  const callee = node && ts.isCallExpression(node) ? strip(node.expression) : undefined;
  // super.method()
  if (callee && callee.expression && callee.expression.kind === K.SuperKeyword) {
    const cls = this.enclosingClass(node);
    const sup = cls && this.p.superClass(cls);
    const m = sup && this.p.findMember(sup, key);
    if (m && ts.isMethodDeclaration(m)) return this.callFn(s, ctx, m, 'mod', ctx.thisVal, args, node);
    return [[s, UNDEF]];
  }
  const o = this.obj(s, recv);
  if (o) {
    const own = o.entries.find((e) => e.t === 'p' && e.k === key);
    if (own) return this.callValue(s, ctx, own.v, recv, args, node, this.recvName(s, recv) + '.' + key);
    if (o.kind === 'arr' && ARR.has(key)) return this.arrayMethod(s, ctx, recv, key, args, node);
    if ((o.kind === 'map' || o.kind === 'set') && MAPM.has(key)) return this.mapMethod(s, ctx, recv, key, args, node);
  }
  if (recv.k === 'f' || recv.k === 'b') {
    if (key === 'call') return this.callValue(s, ctx, recv, args[0], args.slice(1), node);
    if (key === 'apply') {
      const ao = args[1] && this.obj(s, args[1]);
      return this.callValue(s, ctx, recv, args[0], ao && ao.kind === 'arr' && !ao.dyn.length ? ao.elems : args[1] ? [this.elemOf(s, args[1])] : [], node);
    }
    if (key === 'bind') return [[s, BUILTIN('bound:' + nodeKey(node), [recv, args[0] || UNDEF, ...args.slice(1)])]];
  }
  if (recv.k === 'cls') {
    const vs = this.readStatic(s, ctx, recv, key);
    if (vs.length === 1 && vs[0][1].k === 'f') return this.callValue(vs[0][0], ctx, vs[0][1], recv, args, node);
  }
  const cls = recv.k !== 'cls' ? this.clsOf(s, recv) : undefined;
  if (cls) {
    const m = this.p.findMember(cls, key);
    if (m) {
      if (ts.isMethodDeclaration(m) && m.body) return this.callFn(s, ctx, m, 'mod', recv, args, node);
      if (ts.isPropertyDeclaration(m)) {
        if (m.initializer && ts.isFunctionLike(m.initializer) && (!o || o.open)) return this.callFn(s, ctx, m.initializer, 'mod', recv, args, node);
        return this.mapStates(this.readProp(s, ctx, recv, key, node), (s1, fv) => this.callValue(s1, ctx, fv, recv, args, node, cls.name.text + '.' + key));
      }
      if (ts.isGetAccessor(m)) return this.mapStates(this.callFn(s, ctx, m, 'mod', recv, [], node), (s1, fv) => this.callValue(s1, ctx, fv, recv, args, node));
    }
  }
  // Array.prototype.slice.call(list, ...)
  if (recv.k === 't' && (key === 'call' || key === 'apply') && recv.op === 'get' && isProtoOf(recv.args[0], 'Array') && args[0] && args[0].k === 'o' && key === 'call')
    return this.callMethod(s, ctx, args[0], C(recv.args[1]), args.slice(1), node);
  if (recv.k === 't' && recv.op === 'global') {
    const r = this.globalMember(s, ctx, recv.args[0], key, args, node);
    if (r) return r;
  }
  if (recv.k === 't' && (recv.op === 'oneof' || recv.op === 'pick') && recv.args.some((a) => a.k === 'o')) {
    const out = [];
    for (const a of recv.args) if (a.k !== 'c') out.push(...this.callMethod(s, ctx, a, keyV, args, node));
    if (out.length) return this.mergePairs(out);
  }
  if (key === 'then' || key === 'catch' || key === 'finally') {
    const r = this.promiseMethod(s, ctx, recv, key, args, node);
    if (r) return r;
  }
  if (this.isArrayV(s, recv) && ARR.has(key)) return this.arrayMethod(s, ctx, recv, key, args, node);
  if (recv.k === 't' && MAPM.has(key)) {
    const t = recv.meta.type && this.nonNull(recv.meta.type);
    if ((this.isMapType(t) && t.symbol.name !== 'URLSearchParams') || this.isSetType(t)) return this.mapMethod(s, ctx, recv, key, args, node);
  }
  if (recv.k === 'c' && typeof recv.v === 'number' && /^to(String|Fixed|Precision)$/.test(key)) {
    const cs = args.map((x) => this.constOf(s, x));
    if (cs.every((x) => x)) return [[s, C(recv.v[key](...cs.map((x) => x.v)))]];
  }
  if (STR.has(key) && (this.isStringV(s, recv) || (recv.k === 't' && recv.op === 'regex' ))) return this.stringMethod(s, ctx, recv, key, args, node);
  if (key === 'hasOwnProperty' && args.length === 1) return [[s, term('has', [recv, args[0]], { bool: true })]];
  if (key === 'call' || key === 'apply') {
    // fn.call(...) on an unknown function value
    return this.callValue(s, ctx, recv, args[0], key === 'call' ? args.slice(1) : [], node);
  }
  // resolved declaration with a body
  const d = callee ? this.sigDecl(node) : undefined;
  if (d && this.p.isRepo(d)) {
    if ((ts.isMethodDeclaration(d) || ts.isFunctionDeclaration(d)) && d.body) return this.callFn(s, ctx, d, 'mod', recv, args, node);
    if (ts.isMethodSignature(d) && d.parent.name && this.cfg.implementers[d.parent.name.text]) {
      const m = this.p.findFn(this.cfg.implementers[d.parent.name.text] + '.' + key);
      if (m && m.body) return this.callFn(s, ctx, m, 'mod', recv, args, node);
    }
  }
  // value stored in a field
  if (recv.k !== 'c') {
    const fv = this.lookup(s, recv, key, node);
    if (fv.k === 'f' || fv.k === 'b') return this.callValue(s, ctx, fv, recv, args, node);
  }
  return this.extCall(s, ctx, { name: callee ? this.extName(node) : this.recvName(s, recv) + '.' + key, recv, args, node, key });
};
I.recvName = function (s, v) {
  const c = this.clsOf(s, v);
  if (c && c.name) return c.name.text;
  const o = this.obj(s, v);
  if (o && o.typeName && !/^__/.test(o.typeName)) return o.typeName;
  if (v.k === 't' && v.meta.type) {
    const t = this.nonNull(v.meta.type);
    if (t.aliasSymbol) return t.aliasSymbol.name;
    if (t.symbol && !/^__/.test(t.symbol.name)) return t.symbol.name;
  }
  if (v.k === 't' && v.op === 'global') return v.args[0];
  return 'any';
};

I.stringMethod = function (s, ctx, recv, key, args, node) {
  const cs = args.map((a) => this.constOf(s, a));
  if (recv.k === 'c' && typeof recv.v === 'string' && cs.every((c) => c) && !['match', 'matchAll', 'exec', 'test', 'replace', 'replaceAll'].includes(key)) {
    try {
      const r = recv.v[key](...cs.map((c) => c.v));
      if (Array.isArray(r)) {
        const q = s.clone();
        return [[q, this.newObj(q, this.siteLoc(ctx, node), { kind: 'arr', entries: [], elems: r.map((x) => C(x)), dyn: [] })]];
      }
      return [[s, C(r)]];
    } catch (e) { /* fall through */ }
  }
  const rx = this.foldRegex(s, ctx, recv, key, args, cs, node);
  if (rx) return rx;
  for (const a of args) if (a.k === 'f') {
    // replacer callback: runs now, pure result
    this.callFn(s, { ...ctx, throws: [] }, a.node, a.scope, a.self, [term('elem', [recv], { mask: S | E })], node);
  }
  const mask = BOOLSTR.has(key) ? F | T : NUMSTR.has(key) ? Z | X : key === 'split' || key === 'match' || key === 'matchAll' || key === 'exec' ? (key === 'split' ? X : X | N) : E | S | (key === 'at' ? U : 0);
  let type;
  try { type = this.checker.getTypeAtLocation(node); } catch (e) { /* synthetic */ }
  if (key === 'toString' || key === 'valueOf') return [[s, this.isStringV(s, recv) ? recv : term('call', ['Object.toString', recv], { mask: E | S })]];
  return [[s, term('call', ['String.' + key, recv, ...args], { mask, type, bool: BOOLSTR.has(key), name: 'String.' + key })]];
};

// regular expressions applied to known strings
I.foldRegex = function (s, ctx, recv, key, args, cs, node) {
  const re = (v) => {
    const m = v && v.k === 't' && v.op === 'regex' && /^\/([\s\S]+)\/([a-z]*)$/.exec(v.args[0]);
    if (!m) return undefined;
    try { return new RegExp(m[1], m[2]); } catch (e) { return undefined; }
  };
  const self = re(recv);
  const arr = (r) => {
    if (r === null) return [[s, NULL]];
    const q = s.clone();
    const entries = r.index === undefined ? [] : [{ t: 'p', k: 'index', v: C(r.index) }, { t: 'p', k: 'input', v: C(r.input) }, { t: 'p', k: 'groups', v: r.groups ? this.newObj(q, this.siteLoc(ctx, node) + '.groups', { kind: 'obj', entries: Object.entries(r.groups).map(([k, x]) => ({ t: 'p', k, v: C(x) })) }) : UNDEF }];
    return [[q, this.newObj(q, this.siteLoc(ctx, node), { kind: 'arr', entries, elems: [...r].map((x) => C(x)), dyn: [] })]];
  };
  if (self) {
    if ((key !== 'test' && key !== 'exec') || !cs[0] || self.global || self.sticky) return undefined;
    return key === 'test' ? [[s, C(self.test(cs[0].v))]] : arr(self.exec(cs[0].v));
  }
  if (recv.k !== 'c' || typeof recv.v !== 'string') return undefined;
  const p = re(args[0]) || (cs[0] && typeof cs[0].v === 'string' ? cs[0].v : undefined);
  if (p === undefined) return undefined;
  if ((key === 'replace' || key === 'replaceAll') && cs[1] && typeof cs[1].v === 'string') { try { return [[s, C(recv.v[key](p, cs[1].v))]]; } catch (e) { return undefined; } }
  if ((key === 'replace' || key === 'replaceAll') && args[1] && args[1].k === 'f') {
    // the replacer is interpreted on every match; only constant results fold
    const found = [];
    try { recv.v[key](p, (...x) => { found.push(x); return ''; }); } catch (e) { return undefined; }
    let work = [[s, []]];
    for (const x of found) {
      const next = [];
      for (const [q, done] of work) for (const [r, v] of this.callValue(q, ctx, args[1], undefined, x.filter((y) => typeof y !== 'object').map((y) => (y === undefined ? UNDEF : C(y))), node)) {
        const c = this.constOf(r, v);
        if (!c) return undefined;
        next.push([r, [...done, String(c.v)]]);
      }
      work = next;
    }
    return work.map(([q, done]) => { let i = 0; return [q, C(recv.v[key](p, () => done[i++]))]; });
  }
  if (key === 'match' || (key === 'split' && args.length === 1)) return arr(recv.v[key](p));
  if (key === 'search') return [[s, C(recv.v.search(p))]];
  return undefined;
};
I.mutEvent = function (s, ctx, recv, op, args, node) {
  const info = { name: 'write', node, recv, key: '[mut:' + op + ']', keyV: C('[mut:' + op + ']'), args, mut: op };
  return this.cfg.write(info, this, s, ctx) ? this.emit(s, ctx, info) : s;
};
I.arrayMethod = function (s, ctx, recv, key, args, node) {
  const [cb] = args;
  const isFn = cb && (cb.k === 'f' || cb.k === 'b');
  const call = (x, c, el, i) => {
    if (cb && cb.k === 't' && cb.op === 'global' && cb.args[0] === 'Boolean') return [[x, el]];
    return this.callValue(x, c, cb, undefined, [el, i, recv], node);
  };
  const outs = (list) => this.mergeOut(list.map(([a, v]) => ({ s: a, v }))).map((o) => [o.s, o.v]);
  const opaqueCb = !isFn && !(cb && cb.k === 't' && cb.op === 'global');
  switch (key) {
    case 'forEach': {
      const r = this.loopOver(s, ctx, recv, node, (x, c, el, i) => call(x, c, el, i).map(([y]) => ({ s: y, type: 'n' })));
      return outs(r.map((o) => [o.s, UNDEF]));
    }
    case 'some': case 'every': case 'find': case 'findIndex': case 'findLast': {
      const r = this.loopOver(s, ctx, recv, node, (x, c, el, i) => {
        const res = [];
        for (const [y, v] of call(x, c, el, i)) {
          const [t, f] = this.split(y, v);
          const hit = key === 'every' ? f : t, miss = key === 'every' ? t : f;
          if (hit) res.push({ s: hit, type: 'x', v: key === 'some' ? TRUE : key === 'every' ? FALSE : key === 'findIndex' ? i : el });
          if (miss) res.push({ s: miss, type: 'n' });
        }
        return res;
      });
      return outs(r.map((o) => [o.s, o.type === 'x' ? o.v : key === 'some' ? FALSE : key === 'every' ? TRUE : key === 'findIndex' ? C(-1) : UNDEF]));
    }
    case 'includes': case 'indexOf': {
      const r = this.loopOver(s, ctx, recv, node, (x, c, el, i) => {
        const [t, f] = this.split(x, this.eqTerm(x, el, args[0], false));
        const res = [];
        if (t) res.push({ s: t, type: 'x', v: key === 'includes' ? TRUE : i });
        if (f) res.push({ s: f, type: 'n' });
        return res;
      });
      return outs(r.map((o) => [o.s, o.type === 'x' ? o.v : key === 'includes' ? FALSE : C(-1)]));
    }
    case 'map': case 'flatMap': {
      const o0 = this.obj(s, recv);
      const col = this.collection(s, recv);
      if (col.exact) {
        let cur = [[s, []]];
        col.alts.forEach((a, i) => {
          const nx = [];
          for (const [x, acc] of cur) for (const [y, v] of call(x, this.sub(ctx, { prefix: ctx.prefix + '#' + nodeKey(node) + '.' + i }), a, C(i))) nx.push([y, [...acc, v]]);
          cur = nx;
        });
        return cur.map(([x, acc]) => {
          const r = x.clone();
          if (key === 'flatMap') {
            const fl = [], dy = [];
            for (const v of acc) { const oo = this.obj(r, v); if (oo && oo.kind === 'arr') { fl.push(...oo.elems); dy.push(...oo.dyn); } else if (this.isArrayV(r, v)) dy.push(this.elemOf(r, v)); else fl.push(v); }
            return [r, this.newObj(r, this.siteLoc(ctx, node), { kind: 'arr', entries: [], elems: dy.length ? [] : fl, dyn: dy.length ? [...fl, ...dy] : [] })];
          }
          return [r, this.newObj(r, this.siteLoc(ctx, node), { kind: 'arr', entries: [], elems: acc, dyn: [] })];
        });
      }
      const vals = [];
      const r = this.loopOver(s, ctx, recv, node, (x, c, el, i) =>
        call(x, c, el, i).map(([y, v]) => {
          let vs = [v];
          if (key === 'flatMap') { const oo = this.obj(y, v); vs = oo && oo.kind === 'arr' ? [...oo.elems, ...oo.dyn] : this.isArrayV(y, v) ? [this.elemOf(y, v)] : [v]; }
          for (const w of vs) if (!vals.includes(w)) vals.push(w);
          // keep the mapped objects' contents
          return { s: y, type: 'n' };
        }),
      );
      void o0;
      return outs(r.map((o) => {
        const q = o.s.clone();
        return [q, this.newObj(q, this.siteLoc(ctx, node), { kind: 'arr', entries: [], elems: [], dyn: vals.slice(), via: { op: key, src: recv } })];
      }));
    }
    case 'filter': {
      const col = this.collection(s, recv);
      if (col.exact) {
        let cur = [[s, []]];
        col.alts.forEach((a, i) => {
          const nx = [];
          for (const [x, acc] of cur)
            for (const [y, v] of call(x, this.sub(ctx, { prefix: ctx.prefix + '#' + nodeKey(node) + '.' + i }), a, C(i))) {
              const [t, f] = this.split(y, v);
              if (t) nx.push([t, [...acc, a]]);
              if (f) nx.push([f, acc]);
            }
          cur = nx;
        });
        return cur.map(([x, acc]) => { const r = x.clone(); return [r, this.newObj(r, this.siteLoc(ctx, node), { kind: 'arr', entries: [], elems: acc, dyn: [] })]; });
      }
      // effects of the predicate
      const r = this.loopOver(s, ctx, recv, node, (x, c, el, i) => call(x, c, el, i).map(([y]) => ({ s: y, type: 'n' })));
      const o0 = this.obj(s, recv);
      const prev = (o0 && o0.filters) || [];
      return outs(r.map((o) => {
        const q = o.s.clone();
        return [q, this.newObj(q, this.siteLoc(ctx, node), { kind: 'arr', entries: [], elems: [], dyn: col.alts.slice(), filters: opaqueCb ? prev : [...prev, cb], via: { op: 'filter', src: recv } })];
      }));
    }
    case 'reduce': {
      const col = this.collection(s, recv);
      const sid = ctx.prefix + ':red' + nodeKey(node);
      let st = s.clone();
      let first = args.length > 1 ? args[1] : this.elemOf(s, recv);
      st.wScopes().set(sid, { parent: null, vars: new Map([['acc', first]]), captured: true });
      void col;
      const r = this.loopOver(st, ctx, recv, node, (x, c, el, i) =>
        this.callValue(x, c, cb, undefined, [x.scopes.get(sid).vars.get('acc'), el, i, recv], node).map(([y, v]) => {
          const q = y.clone();
          q.setVar(sid, 'acc', v);
          return { s: q, type: 'n' };
        }),
      );
      return outs(r.map((o) => {
        const v = o.s.scopes.get(sid).vars.get('acc');
        const q = o.s.clone();
        q.wScopes().delete(sid);
        return [q, v];
      }));
    }
    case 'join': {
      const jo = this.obj(s, recv), cs = jo && jo.kind === 'arr' && !jo.dyn.length && !jo.filters ? jo.elems.map((x) => this.constOf(s, x)) : null, sep = args[0] ? this.constOf(s, args[0]) : C(',');
      if (cs && sep && cs.every((x) => x)) return [[s, C(cs.map((x) => x.v).join(sep.v))]];
    }
    // fallthrough
    case 'join-open': return [[s, term('call', ['Array.join', recv, ...(this.obj(s, recv) && this.obj(s, recv).elems ? this.obj(s, recv).elems : []), ...args], { mask: E | S, name: 'Array.join' })]];
    case 'at': return [[s, this.elemOf(s, recv)]];
    case 'keys': case 'values': case 'entries': {
      if (key === 'values') return [[s, recv]];
      return [[s, term(key, [recv], { mask: X })]];
    }
    case 'slice': case 'concat': case 'flat': {
      const o = this.obj(s, recv);
      const q = s.clone();
      const cs = args.map((a) => this.constOf(s, a));
      if (key === 'slice' && o && o.kind === 'arr' && !o.dyn.length && cs.every((c) => c)) return [[q, this.newObj(q, this.siteLoc(ctx, node), { kind: 'arr', entries: [], elems: o.elems.slice(...cs.map((c) => c.v)), dyn: [] })]];
      const parts = [recv, ...(key === 'concat' ? args : [])];
      const elems = [], dyn = [];
      for (const p of parts) {
        const po = this.obj(s, p);
        if (po && po.kind === 'arr') { if (!dyn.length && key === 'concat') elems.push(...po.elems); else dyn.push(...po.elems); dyn.push(...po.dyn); }
        else if (this.isArrayV(s, p)) dyn.push(this.elemOf(s, p));
        else (dyn.length ? dyn : elems).push(p);
      }
      return [[q, this.newObj(q, this.siteLoc(ctx, node), { kind: 'arr', entries: [], elems, dyn, filters: key === 'slice' && o ? o.filters : undefined, via: { op: key, src: recv, vals: args } })]];
    }
  }
  if (key === 'sort' && !args.length) {
    const col = this.collection(s, recv);
    const cs = col.exact ? col.alts.map((a) => this.constOf(s, a)) : [];
    if (col.exact && cs.every((c) => c && typeof c.v === 'string')) {
      const elems = cs.slice().sort((a, b) => (a.v < b.v ? -1 : a.v > b.v ? 1 : 0));
      if (recv.k === 'o') {
        const r = this.mutEvent(s, ctx, recv, key, args, node).clone();
        const [loc, o] = this.ensureObj(r, recv);
        r.wHeap().set(loc, { ...o, elems });
        return [[r, recv]];
      }
      if (recv.k === 't' && recv.op === 'keys') { const q = s.clone(); return [[q, this.newObj(q, this.siteLoc(ctx, node), { kind: 'arr', entries: [], elems, dyn: [] })]]; }
    }
  }
  if (key === 'sort' && isFn && recv.k === 'o') {
    // an exact array ordered by a comparison whose results are all constants
    const col = this.collection(s, recv);
    let x = s, ok = col.exact;
    const sorted = [];
    for (const e of ok ? col.alts : []) {
      let lo = 0, hi = sorted.length;
      while (ok && lo < hi) {
        const mid = (lo + hi) >> 1, th = [];
        const outs = this.callValue(x, this.sub(ctx, { throws: th }), cb, undefined, [e, sorted[mid]], node);
        const c = outs.length === 1 && !th.length ? this.constOf(outs[0][0], outs[0][1]) : null;
        if (!c || typeof c.v !== 'number') { ok = false; break; }
        x = outs[0][0];
        if (c.v < 0) hi = mid; else lo = mid + 1;
      }
      sorted.splice(lo, 0, e);
    }
    if (ok) {
      const r = this.mutEvent(x, ctx, recv, key, args, node).clone();
      const [loc, o] = this.ensureObj(r, recv);
      r.wHeap().set(loc, { ...o, elems: sorted });
      return [[r, recv]];
    }
  }
  // mutators
  let r = this.mutEvent(s, ctx, recv, key, args, node).clone();
  const [loc, o] = this.ensureObj(r, recv);
  const ver = String(nodeKey(node));
  if (o.kind === 'arr') {
    const exact = !o.dyn.length && !ctx.loop;
    let val = UNDEF, no = { ...o };
    if (key === 'push') {
      if (exact) no.elems = [...o.elems, ...args];
      else no.dyn = [...o.dyn, ...args.filter((a) => !o.dyn.includes(a) && !(ctx.loop && false))];
      val = term('len', [recv, 'v' + ver], { mask: X });
    } else if (key === 'unshift') {
      if (exact) no.elems = [...args, ...o.elems];
      else no.dyn = [...o.dyn, ...args.filter((a) => !o.dyn.includes(a))];
    } else if (key === 'pop' || key === 'shift') {
      if (exact) { no.elems = key === 'pop' ? o.elems.slice(0, -1) : o.elems.slice(1); val = (key === 'pop' ? o.elems[o.elems.length - 1] : o.elems[0]) || UNDEF; }
      else { const all = [...o.elems, ...o.dyn]; val = term('pick', [...all, UNDEF], { mask: all.reduce((m, a) => m | this.maskOf(s, a), U), site: ver }); no.dyn = all; no.elems = []; }
    } else if (key === 'splice') {
      const all = [...o.elems, ...o.dyn];
      const whole = args.length === 1 && args[0].k === 'c' && args[0].v === 0;
      const num = (a) => { const c = a && this.constOf(s, a); return c && typeof c.v === 'number' && !Number.isNaN(c.v) ? c.v : undefined; };
      const from = num(args[0]), count = args.length > 1 ? num(args[1]) : o.elems.length;
      if (!whole && exact && from !== undefined && count !== undefined) {
        const kept = o.elems.slice(), cut = kept.splice(from, count, ...args.slice(2));
        const v2 = this.newObj(r, this.siteLoc(ctx, node), { kind: 'arr', entries: [], elems: cut, dyn: [] });
        r.wHeap().set(loc, { ...o, elems: kept });
        return [[r, v2]];
      }
      no.elems = []; no.dyn = whole ? [] : [...all, ...args.slice(2)];
      if (whole && exact) { const v2 = this.newObj(r, this.siteLoc(ctx, node), { kind: 'arr', entries: [], elems: o.elems, dyn: [] }); r.wHeap().set(loc, { ...no, ver }); return [[r, v2]]; }
      val = this.newObj(r, this.siteLoc(ctx, node), { kind: 'arr', entries: [], elems: [], dyn: all });
    } else if (key === 'sort') {
      if (isFn) for (const [x] of this.callValue(s, this.sub(ctx, { throws: [] }), cb, undefined, [this.elemOf(s, recv), term('elem', [recv, 'other'], { type: (this.elemOf(s, recv).meta || {}).type })], node)) void x;
      if (o.elems.length > 1 || o.dyn.length) { no.dyn = [...o.elems, ...o.dyn]; no.elems = []; }
      no.via = { op: 'sort', src: recv, vals: args };
      val = recv;
    } else if (key === 'reverse') { no.elems = o.elems.slice().reverse(); val = recv; }
    no.ver = exact ? o.ver : ver;
    r.wHeap().set(loc, no);
    return [[r, val]];
  }
  // opaque array
  const es = o.entries.slice();
  if (key === 'push' || key === 'unshift') for (const a of args) if (!es.some((e) => e.t === 'd' && e.v === a)) es.push({ t: 'd', k: C('[' + key + ']'), v: a });
  if (key === 'sort' && isFn) for (const [x] of this.callValue(s, this.sub(ctx, { throws: [] }), cb, undefined, [this.elemOf(s, recv), term('elem', [recv, 'other'], { type: (this.elemOf(s, recv).meta || {}).type })], node)) void x;
  r.wHeap().set(loc, { ...o, entries: es, ver });
  let type;
  try { type = this.checker.getTypeAtLocation(node); } catch (e) { /* synthetic */ }
  let val = UNDEF;
  if (key === 'pop' || key === 'shift') val = term('call', ['Array.' + key, recv, 'v' + (o.ver || '')], { mask: type ? this.typeMask(type) | U : ALL, type });
  else if (key === 'splice') val = term('call', ['Array.splice', recv, ...args, 'v' + (o.ver || '')], { mask: X, type });
  else if (key === 'sort' || key === 'reverse') val = recv;
  else val = term('len', [recv, 'v' + ver], { mask: X });
  return [[r, val]];
};

I.mapMethod = function (s, ctx, recv, key, args, node) {
  const o0 = this.obj(s, recv);
  const t = recv.k === 't' && recv.meta.type && this.nonNull(recv.meta.type);
  const isSet = o0 && (o0.kind === 'set' || o0.kind === 'map') ? o0.kind === 'set' : this.isSetType(t);
  const norm = (k) => this.constOf(s, k) || k;
  const k = args[0] && norm(args[0]);
  const same = (e) => (e.t === 'p' && k.k === 'c' && e.k === String(k.v)) || ((e.t === 'd' || e.t === 'x') && (e.k === k || (k.k === 'c' && e.k === String(k.v))));
  switch (key) {
    case 'get': {
      if (o0) {
        for (let i = o0.entries.length - 1; i >= 0; i--) {
          const e = o0.entries[i];
          if (e.t !== 's' && same(e)) return [[s, e.t === 'x' ? UNDEF : e.v]];
        }
        if (!o0.open && !o0.entries.some((e) => e.t === 's')) {
          const vs = o0.entries.filter((e) => e.v && !(this.distinctKey(k) && this.distinctKey(e.k))).map((e) => e.v);
          if (!vs.length) return [[s, UNDEF]];
          return [[s, term('dynget', [recv, k, ...vs], { mask: vs.reduce((m, a) => m | this.maskOf(s, a), U) })]];
        }
      }
      let vt, mask = ALL;
      if (t) { const ta = this.checker.getTypeArguments(t); vt = ta && ta[1]; if (vt) mask = this.typeMask(vt) | U; }
      if (k.k === 't' && k.op === 'keyof' && k.args[0] === recv) mask &= vt && this.typeMask(vt) & X ? ~(U | N) : ALL;
      const a = [recv, k];
      if (o0 && o0.epoch) a.push('@' + o0.epoch);
      return [[s, term('get', a, { mask, type: vt })]];
    }
    case 'has': {
      if (o0) {
        for (let i = o0.entries.length - 1; i >= 0; i--) {
          const e = o0.entries[i];
          if (e.t !== 's' && same(e)) return [[s, e.t === 'x' ? FALSE : TRUE]];
        }
        if (!o0.open && (!o0.entries.length || (this.distinctKey(k) && o0.entries.every((e) => e.t !== 's' && (typeof e.k === 'string' || this.distinctKey(e.k)))))) return [[s, FALSE]];
        if (!o0.open && k.k === 'c' && o0.entries.every((e) => e.k && (e.k.k === 'c' || typeof e.k === 'string'))) return [[s, FALSE]];
        if (!o0.open && o0.entries.every((e) => e.t === 'p' || (e.t === 'd' && e.k.k === 'c'))) {
          // finite literal set: branch over membership
          const out = [];
          let cur = [s];
          for (const e of o0.entries) {
            const nx = [];
            for (const x of cur) {
              const [a, b] = this.split(x, this.eqTerm(x, k, e.t === 'p' ? C(e.k) : e.k, false));
              if (a) out.push([a, TRUE]);
              if (b) nx.push(b);
            }
            cur = nx;
          }
          for (const x of cur) out.push([x, FALSE]);
          return this.mergePairs(out);
        }
      }
      return [[s, term('has', [recv, k, ...(o0 && o0.ver ? ['v' + o0.ver] : []), ...(o0 && o0.epoch ? ['@' + o0.epoch] : []), ...(o0 ? this.srcOf(o0) : [])], { bool: true })]];
    }
    case 'set': case 'add': {
      let r = this.mutEvent(s, ctx, recv, key, args, node).clone();
      const [loc, o] = this.ensureObj(r, recv);
      const v = key === 'add' ? TRUE : args[1] || UNDEF;
      const es = o.entries.filter((e) => e.t === 's' || !same(e));
      const was = o.entries.length - es.length === 1 && !o.open && o.entries.every((e) => e.t === 'p' || (e.t === 'd' && this.distinctKey(e.k))) && this.distinctKey(k) ? o.entries.findIndex(same) : es.length;
      es.splice(was, 0, { t: 'd', k, v });
      r.wHeap().set(loc, { ...o, entries: es, ver: es.length > o.entries.length ? String(nodeKey(node)) : o.ver });
      return [[r, recv]];
    }
    case 'delete': {
      let r = this.mutEvent(s, ctx, recv, key, args, node).clone();
      const [loc, o] = this.ensureObj(r, recv);
      const es = o.entries.filter((e) => e.t === 's' || !same(e));
      if (o.open || es.some((e) => e.t === 's' || (e.t === 'd' && !this.distinctKey(e.k))) || (!this.distinctKey(k) && es.length)) es.push({ t: 'x', k });
      r.wHeap().set(loc, { ...o, entries: es, ver: String(nodeKey(node)) });
      return [[r, term('call', ['Map.delete', recv, k], { mask: F | T })]];
    }
    case 'clear': {
      let r = this.mutEvent(s, ctx, recv, key, args, node).clone();
      const [loc, o] = this.ensureObj(r, recv);
      r.wHeap().set(loc, { kind: isSet ? 'set' : 'map', entries: [], ver: String(nodeKey(node)), was: o.open });
      return [[r, UNDEF]];
    }
    case 'keys': return [[s, isSet ? recv : term('keys', [recv], { mask: X })]];
    case 'values': return [[s, isSet ? recv : term('values', [recv], { mask: X })]];
    case 'entries': return [[s, term('entries', [recv], { mask: X })]];
    case 'forEach': {
      const cb = args[0];
      const r = this.loopOver(s, ctx, isSet ? recv : term('entries', [recv], { mask: X }), node, (x, c, el) => {
        const as = isSet ? [el, el, recv] : el.op === 'pair' ? [el.args[1], el.args[0], recv] : [el, el, recv];
        return this.callValue(x, c, cb, undefined, as, node).map(([y]) => ({ s: y, type: 'n' }));
      });
      return r.map((o) => [o.s, UNDEF]);
    }
  }
  return this.extCall(s, ctx, { name: (isSet ? 'Set.' : 'Map.') + key, recv, args, node });
};

const isProtoOf = (v, name) => v && v.k === 't' && v.op === 'get' && v.args[1] === 'prototype' && v.args[0].k === 't' && v.args[0].op === 'global' && v.args[0].args[0] === name;
I.promiseMethod = function (s, ctx, recv, key, args, node) {
  const isP = recv.k === 't' && (['resolved', 'rejected', 'promise', 'all'].includes(recv.op) || (recv.meta.type && /Promise/.test((this.nonNull(recv.meta.type).symbol || {}).name || '')));
  if (!isP) return undefined;
  const floating = this.isFloating(node);
  if (recv.op === 'promise' && recv.args[1] && this.cfg.moduleInit) {
    const o = s.heap.get(recv.args[1]);
    if (o && !o.entries.length) {
      // not settled yet: the reaction waits, and so does what it returns
      let loc2 = 'p:' + this.siteLoc(ctx, node);
      while (s.heap.has(loc2)) loc2 += "'";
      const r = this.addReaction(s, recv.args[1], { key, args, loc2, node });
      r.wHeap().set(loc2, { kind: 'promise', entries: [] });
      return [[r, term('promise', [ctx.prefix + '@' + nodeKey(node) + loc2, loc2, key === 'then' && !args[1] ? recv.args[2] : 'sure'], { mask: X, type: recv.meta.type })]];
    }
  }
  const c2 = this.sub(ctx, { throws: [], detachable: floating || ctx.detachable });
  const out = [];
  const tag = 'then' + nodeKey(node);
  const st = this.havocShared(s, tag, recv.k === 't' && (recv.op === 'resolved' || recv.op === 'rejected')).clone();
  const det0 = s.det;
  if (floating || ctx.detachable) st.det = true;
  const t2 = [];
  const vals = this.awaitValue(st, this.sub(ctx, { throws: t2 }), recv.op === 'all' ? recv : recv, node);
  const run = (x, f, as) => {
    if (!f || (f.k !== 'f' && f.k !== 'b')) {
      if (f && f.k === 't') for (const [y, v] of this.callValue(x, c2, f, undefined, as, node)) out.push([y, this.asPromise(y, v)]);
      else return false;
      return true;
    }
    for (const [y, v] of this.callValue(x, c2, f, undefined, as, node)) out.push([y, this.asPromise(y, v)]);
    return true;
  };
  const [onOk, onErr] = key === 'then' ? args : key === 'catch' ? [undefined, args[0]] : [args[0], args[0]];
  for (const [x, v] of vals) {
    if (key === 'finally') { for (const [y] of this.callValue(x, c2, onOk, undefined, [], node)) out.push([y, this.asPromise(y, v)]); continue; }
    if (!run(x, onOk, [v])) out.push([x, this.asPromise(x, v)]);
  }
  for (const t of t2) {
    if (key === 'finally') { for (const [y] of this.callValue(t.s, c2, onOk, undefined, [], node)) out.push([y, term('rejected', [t.v], { mask: X })]); continue; }
    if (!run(t.s, onErr, [t.v])) out.push([t.s, term('rejected', [t.v], { mask: X })]);
  }
  for (const t of c2.throws) out.push([t.s, term('rejected', [t.v], { mask: X })]);
  return this.mergePairs(out.map(([x, v]) => { const r = x.clone(); r.det = det0; return [r, v]; }));
};

// ------------------------------------------------------------ globals -------
const ISSTATIC = /^(Object|Array|JSON|Promise|Math|Number|String|Date|Symbol|Reflect)$/;
I.globalMember = function (s, ctx, g, key, args, node) {
  if (g === 'globalThis' || g === 'window' || g === 'self' || g === 'global') return undefined;
  if (!ISSTATIC.test(g)) return undefined;
  const a = args[0];
  if (g === 'Object') {
    switch (key) {
      case 'keys': case 'values': case 'entries': {
        const c = a && this.constOf(s, a);
        if (c && (c.v === undefined || c.v === null)) { ctx.throws.push({ s, v: term('TypeError', ['Object.' + key], { mask: X }), node }); return []; }
        const o = this.obj(s, a);
        if (o && a.k === 'o') {
          const { exact, pairs } = this.iterPairs(s, a);
          if (exact) {
            const q = s.clone();
            const elems = pairs.map(([k, v], i) => {
              if (key === 'keys') return k;
              if (key === 'values') return v;
              return this.newObj(q, this.siteLoc(ctx, node) + '.' + i, { kind: 'arr', entries: [], elems: [k, v], dyn: [] });
            });
            return [[q, this.newObj(q, this.siteLoc(ctx, node), { kind: 'arr', entries: [], elems, dyn: [] })]];
          }
        }
        let base = a;
        // a shallow copy has the keys of its source
        if (o && a.k === 'o' && o.kind === 'obj' && o.entries.length === 1 && o.entries[0].t === 's') base = o.entries[0].v;
        return [[s, term(key, [base], { mask: X, type: this.safeType(node) })]];
      }
      case 'assign': {
        let r = s.clone();
        const tgt = args[0];
        if (tgt && tgt.k !== 'c') {
          const [loc, o] = this.ensureObj(r, tgt);
          let es = o.entries.slice();
          for (const x of args.slice(1)) for (const e of this.copyEntries(r, x)) { es = es.filter((z) => !(e.t === 'p' && z.t === 'p' && z.k === e.k)); es.push(e); }
          r = this.mutEvent(r, ctx, tgt, 'assign', args.slice(1), node).clone();
          r.wHeap().set(loc, { ...o, entries: es });
        }
        return [[r, tgt]];
      }
      case 'create': { const q = s.clone(); return [[q, this.newObj(q, this.siteLoc(ctx, node), { kind: 'obj', entries: [], noProto: true })]]; }
      case 'freeze': case 'seal': return [[s, a]];
      case 'fromEntries': {
        const col = this.collection(s, a);
        const q = s.clone();
        const es = [];
        for (const e of col.alts) {
          const eo = this.obj(q, e);
          const [k, v] = e.k === 't' && e.op === 'pair' ? e.args : eo && eo.kind === 'arr' ? eo.elems : [term('idx', [e, '0']), term('idx', [e, '1'])];
          if (k && v) es.push(k.k === 'c' ? { t: 'p', k: String(k.v), v } : { t: 'd', k, v });
        }
        return [[q, this.newObj(q, this.siteLoc(ctx, node), { kind: 'obj', entries: es, via: col.filters ? { op: 'filter', filters: col.filters, src: a } : undefined })]];
      }
      case 'getPrototypeOf': case 'getOwnPropertyDescriptor': return undefined;
      case 'hasOwn': return [[s, term('has', [args[0], args[1]], { bool: true })]];
    }
  }
  if (g === 'Array') {
    if (key === 'isArray') {
      const o = a && this.obj(s, a);
      if (o && o.kind === 'arr') return [[s, TRUE]];
      if (a && (a.k === 'o' || a.k === 'c')) return [[s, FALSE]];
      if (a && a.k === 't' && !(this.maskOf(s, a) & X)) return [[s, FALSE]];
      return [[s, term('call', ['Array.isArray', a || UNDEF], { mask: F | T, bool: true, name: 'Array.isArray' })]];
    }
    if (key === 'from' && args.length >= 1) {
      if (args[1]) return this.arrayMethod(s, ctx, a, 'map', [args[1]], node);
      const q = s.clone();
      const col = this.collection(s, a);
      return [[q, this.newObj(q, this.siteLoc(ctx, node), { kind: 'arr', entries: [], elems: col.exact ? col.alts : [], dyn: col.exact ? [] : col.alts, filters: col.filters, via: { op: 'from', src: a } })]];
    }
    if (key === 'of') { const q = s.clone(); return [[q, this.newObj(q, this.siteLoc(ctx, node), { kind: 'arr', entries: [], elems: args, dyn: [] })]]; }
  }
  if (g === 'Promise') {
    if (key === 'resolve') return [[s, this.asPromise(s, a || UNDEF)]];
    if (key === 'reject') return [[s, term('rejected', [a || UNDEF], { mask: X, node })]];
    if (key === 'all' || key === 'allSettled') {
      const col = this.collection(s, a);
      return [[s, term('all', col.exact ? col.alts : [...col.alts], { mask: X, dynamic: !col.exact, settled: key === 'allSettled' })]];
    }
    if (key === 'race') {
      const col = this.collection(s, a);
      return col.alts.map((v) => [s, this.asPromise(s, v)]);
    }
  }
  if (g === 'Math') {
    const cs = args.map((x) => this.constOf(s, x));
    if (cs.every((c) => c) && key !== 'random') return [[s, C(Math[key](...cs.map((c) => c.v)))]];
    if (key !== 'random') return [[s, term('call', ['Math.' + key, ...args], { mask: Z | X, name: 'Math.' + key })]];
  }
  if (g === 'Number' && /^is(NaN|Finite|Integer|SafeInteger)$/.test(key) && args.length && this.constOf(s, args[0])) return [[s, C(Number[key](this.constOf(s, args[0]).v))]];
  if (g === 'Number' && /^parse(Int|Float)$/.test(key)) return this.globalFn(s, ctx, key, args, node);
  if (g === 'Number' && /^is/.test(key)) return [[s, term('call', ['Number.' + key, ...args], { mask: F | T, bool: true })]];
  if (g === 'Date' && (key === 'now' )) return this.extCall(s, ctx, { name: 'Date.now', args, node });
  return this.extCall(s, ctx, { name: g + '.' + key, args, node, key });
};
I.safeType = function (node) { try { return this.checker.getTypeAtLocation(node); } catch (e) { return undefined; } };
I.globalFn = function (s, ctx, name, args, node) {
  const a = args[0] || UNDEF;
  switch (name) {
    case 'Boolean': {
      const d = this.decide(s, a);
      return [[s, d !== undefined ? C(d) : not(not(a))]];
    }
    case 'String': {
      const c = this.constOf(s, a);
      if (c) return [[s, C(String(c.v))]];
      if (this.isStringV(s, a)) return [[s, a]];
      return [[s, term('call', ['String', a], { mask: E | S, name: 'String' })]];
    }
    case 'Number': case 'parseInt': case 'parseFloat': {
      const c = this.constOf(s, a);
      if (c) return [[s, C(name === 'Number' ? Number(c.v) : name === 'parseInt' ? parseInt(c.v, args[1] && this.constOf(s, args[1]) ? this.constOf(s, args[1]).v : undefined) : parseFloat(c.v))]];
      return [[s, term('call', [name, ...args], { mask: Z | X, name })]];
    }
    case 'encodeURIComponent': case 'decodeURIComponent': case 'encodeURI': case 'decodeURI': {
      const c = this.constOf(s, a);
      if (!c) return undefined;
      try { return [[s, C(globalThis[name](c.v))]]; } catch (e) { ctx.throws.push({ s, v: term('URIError', [a], { mask: X }), node }); return []; }
    }
    case 'isNaN': if (this.constOf(s, a)) return [[s, C(isNaN(this.constOf(s, a).v))]]; return [[s, term('call', ['isNaN', a], { mask: F | T, bool: true, name: 'isNaN' })]];
    case 'Error': case 'TypeError': return [[s, term('new', [name, ...args], { mask: X })]];
    case 'Symbol': return [[s, term('call', ['Symbol', ...args], { mask: X })]];
  }
  return undefined;
};
