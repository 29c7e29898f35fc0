'use strict';
// Statements, loops (finite-powerset fixpoint, widening as fallback), exceptions.
const { ts } = require('./program');
const D = require('./domain');
const { U, N, F, Z, E, T, X, S, ALL, C, UNDEF, NULL, TRUE, FALSE, O, term, FN, CLS, BUILTIN, joinFacts, nodeKey } = D;
const { Interp } = require('./interp');
const K = ts.SyntaxKind;
const I = Interp.prototype;

const strip = (n) => { while (ts.isParenthesizedExpression(n) || ts.isAsExpression(n) || ts.isNonNullExpression(n)) n = n.expression; return n; };
const owned = (id, prefix) => {
  if (typeof id !== 'string') return false;
  if (id.startsWith('p:')) id = id.slice(2);
  if (!id.startsWith(prefix)) return false;
  const c = id[prefix.length];
  return c === undefined || c === ':' || c === '>' || c === '#' || c === '~';
};
I.owned = owned;

// ---------------------------------------------------------- term queries ----
const memoFlag = (name, own) => {
  const cache = new Map();
  const f = (v) => {
    if (!v || v.k !== 't') return v && v.k === 'b' && v.data ? v.data.some(f) : false;
    let r = cache.get(v.id);
    if (r === undefined) {
      cache.set(v.id, false);
      r = v.op !== 'src' && (own(v) || v.args.some((a) => a && a.k && f(a)));
      cache.set(v.id, r);
    }
    return r;
  };
  return f;
};
const hasElem = memoFlag('elem', (t) => t.op === 'elem' || t.op === 'keyof');
const hasImpure = memoFlag('imp', (t) => (t.op === 'call' && t.args.some((a) => typeof a === 'string' && a.includes('@'))) || t.op === 'lv' || t.op === 'len' || (t.op === 'err'));
function collectElems(v, out, seen = new Set()) {
  if (!v || v.k !== 't' || seen.has(v.id)) return;
  seen.add(v.id);
  if (!hasElem(v)) return;
  if (v.op === 'elem' || v.op === 'keyof') out.set(v.id, v);
  for (const a of v.args) collectElems(a, out, seen);
}
I.hasElem = hasElem;
I.contains = function (v, pred, seen = new Set()) {
  if (!v || !v.k || seen.has(v.id)) return false;
  seen.add(v.id);
  if (pred(v)) return true;
  if (v.k === 't') return v.args.some((a) => a && a.k && this.contains(a, pred, seen));
  return false;
};
I.subst = function (v, map, memo) {
  if (!v || v.k !== 't' || v.op === 'src') return v;
  const m = map.get(v.id);
  if (m) return m;
  if (memo.has(v.id)) return memo.get(v.id);
  memo.set(v.id, v);
  let ch = false;
  const args = v.args.map((a) => {
    if (!a || a.k !== 't') return a;
    const r = this.subst(a, map, memo);
    if (r !== a) ch = true;
    return r;
  });
  const r = ch ? term(v.op, args, v.meta) : v;
  memo.set(v.id, r);
  return r;
};
I.substState = function (s, map) {
  if (!map.size) return s;
  const memo = new Map();
  const sub = (v) => this.subst(v, map, memo);
  const r = s.clone();
  const f = new Map();
  for (const [, x] of s.facts) { const t = sub(x.term); f.set(t.id, t === x.term ? x : { ...x, term: t }); }
  r.facts = f;
  r.own |= 4;
  for (const [id, sc] of s.scopes) {
    let ch = false;
    const vars = new Map();
    for (const [n, v] of sc.vars) { const w = sub(v); if (w !== v) ch = true; vars.set(n, w); }
    if (ch) r.wScopes().set(id, { ...sc, vars });
  }
  for (const [loc, o] of s.heap) {
    let ch = false;
    const m = (v) => { const w = v ? sub(v) : v; if (w !== v) ch = true; return w; };
    const es = o.entries.map((e) => ({ ...e, v: m(e.v), k: e.k && e.k.k ? m(e.k) : e.k }));
    const elems = o.elems && o.elems.map(m), dyn = o.dyn;
    if (ch) r.wHeap().set(loc, { ...o, entries: es, elems, dyn });
  }
  return r;
};

// drop scopes/objects of a finished call that nothing outside can reach
I.gc = function (s, prefix, roots) {
  const cs = [], ch = [];
  for (const id of s.scopes.keys()) if (owned(id, prefix)) cs.push(id);
  for (const id of s.heap.keys()) if (owned(id, prefix)) ch.push(id);
  if (!cs.length && !ch.length) return s;
  const cand = new Set([...cs, ...ch]);
  const liveS = new Set(), liveH = new Set(), seen = new Set();
  const work = [];
  const mark = (v) => { if (v && v.k && !seen.has(v.id)) { seen.add(v.id); work.push(v); } };
  const obj = (o) => {
    for (const e of o.entries) { mark(e.v); if (e.k && e.k.k) mark(e.k); }
    (o.elems || []).forEach(mark); (o.dyn || []).forEach(mark);
    (o.filters || []).forEach(mark);
    if (o.via) (o.via.vals || []).forEach(mark);
    if (o.kind === 'reactions') for (const e of o.elems) { e.data.args.forEach(mark); pending(e.data.loc2); }
  };
  // a pending promise lives as long as it or its resolve functions are reachable
  const pending = (loc) => {
    for (const l of [loc, 'R:' + loc]) if (!liveH.has(l) && s.heap.has(l)) { liveH.add(l); obj(s.heap.get(l)); }
  };
  roots.forEach(mark);
  if (this.cfg.keepArgs) for (let t = s.trace; t; t = t.prev) { t.ev.args.forEach(mark); mark(t.ev.recv); }
  for (const [id, sc] of s.scopes) if (!cand.has(id)) for (const v of sc.vars.values()) mark(v);
  for (const [id, o] of s.heap) if (!cand.has(id)) obj(o);
  while (work.length) {
    const v = work.pop();
    if (v.k === 'o') { if (!liveH.has(v.loc)) { liveH.add(v.loc); const o = s.heap.get(v.loc); if (o) obj(o); } }
    else if (v.k === 't') { if (v.op === 'promise' && typeof v.args[1] === 'string') pending(v.args[1]); v.args.forEach(mark); }
    else if (v.k === 'b') { const m = /^(?:resolve|reject):(.*)$/.exec(v.name); if (m) pending(m[1]); (v.data || []).forEach(mark); }
    else if (v.k === 'f') {
      mark(v.self);
      for (let i = v.scope; i !== null && i !== undefined && !liveS.has(i); ) {
        liveS.add(i);
        const sc = s.scopes.get(i);
        if (!sc) break;
        for (const x of sc.vars.values()) mark(x);
        i = sc.parent;
      }
    }
  }
  const ds = cs.filter((i) => !liveS.has(i)), dh = ch.filter((i) => !liveH.has(i));
  if (!ds.length && !dh.length) return s;
  const r = s.clone();
  if (ds.length) { const w = r.wScopes(); ds.forEach((i) => w.delete(i)); }
  if (dh.length) { const w = r.wHeap(); dh.forEach((i) => w.delete(i)); }
  return r;
};

// ----------------------------------------------------------- statements -----
const BLOCKY = (st) => (ts.isVariableStatement(st) && st.declarationList.flags & ts.NodeFlags.BlockScoped) || ts.isFunctionDeclaration(st) || ts.isClassDeclaration(st);
I.execBlock = function (s, ctx, stmts, node, fresh) {
  let c = ctx, st = s, sid;
  if (fresh && stmts.some(BLOCKY)) {
    sid = ctx.prefix + ':b' + nodeKey(node);
    st = s.clone();
    st.wScopes().set(sid, { parent: ctx.scope, vars: new Map(), captured: false });
    c = this.sub(ctx, { scope: sid });
  }
  for (const x of stmts)
    if (ts.isFunctionDeclaration(x) && x.body) {
      st = st.clone();
      this.capture(st, c.scope);
      st.setVar(c.scope, x.name.text, FN(x, c.scope, null));
    }
  let cur = [{ s: st, type: 'n' }];
  const done = [];
  for (const x of stmts) {
    const nx = [];
    for (const o of cur) {
      this.tick();
      for (const r of this.execStmt(o.s, c, x)) (r.type === 'n' ? nx : done).push(r);
    }
    cur = this.mergeOut(nx);
    if (!cur.length) break;
  }
  let all = [...cur, ...done];
  if (sid) {
    all = all.map((o) => {
      const sc = o.s.scopes.get(sid);
      if (!sc || sc.captured) return o;
      const r = o.s.clone();
      r.wScopes().delete(sid);
      return { ...o, s: r };
    });
  }
  return this.mergeOut(all, (o) => o.type + (o.label || ''));
};
// derived context sharing the throw sink
I.sub = (ctx, x) => Object.assign({}, ctx, x);

I.execStmt = function (s, ctx, node) {
  const n = (list) => list.map((x) => ({ s: x, type: 'n' }));
  switch (node.kind) {
    case K.Block: return this.execBlock(s, ctx, node.statements, node, true);
    case K.EmptyStatement:
    case K.FunctionDeclaration:
    case K.InterfaceDeclaration:
    case K.TypeAliasDeclaration:
    case K.DebuggerStatement: return n([s]);
    case K.ClassDeclaration: { const r = s.clone(); r.setVar(ctx.scope, node.name.text, CLS(node)); return n([r]); }
    case K.VariableStatement: return n(this.execDecls(s, ctx, node.declarationList));
    case K.ExpressionStatement: {
      const call = ts.isCallExpression(node.expression);
      return n(this.merge(this.evalExpr(s, ctx, node.expression).map(([x, v]) => (call ? this.floating(x, ctx, v, node.expression) : x))));
    }
    case K.IfStatement: {
      const { t, f } = this.cond(s, ctx, node.expression);
      const out = [];
      for (const x of t) out.push(...this.execStmt(x, ctx, node.thenStatement));
      for (const x of f) if (node.elseStatement) out.push(...this.execStmt(x, ctx, node.elseStatement)); else out.push({ s: x, type: 'n' });
      return this.mergeOut(out, (o) => o.type + (o.label || ''));
    }
    case K.ReturnStatement:
      if (!node.expression) return [{ s, type: 'r', v: UNDEF }];
      return this.evalExpr(s, ctx, node.expression).map(([x, v]) => ({ s: x, type: 'r', v, node }));
    case K.ThrowStatement:
      for (const [x, v] of this.evalExpr(s, ctx, node.expression)) ctx.throws.push({ s: x, v, node });
      return [];
    case K.BreakStatement: return [{ s, type: 'b', label: node.label ? node.label.text : '' }];
    case K.ContinueStatement: return [{ s, type: 'c', label: node.label ? node.label.text : '' }];
    case K.LabeledStatement:
      return this.execStmt(s, this.sub(ctx, { label: node.label.text }), node.statement).map((o) => (o.type === 'b' && o.label === node.label.text ? { s: o.s, type: 'n' } : o));
    case K.SwitchStatement: return this.execSwitch(s, ctx, node);
    case K.TryStatement: return this.execTry(s, ctx, node);
    case K.ForOfStatement:
    case K.ForInStatement: return this.execForOf(s, ctx, node);
    case K.ForStatement:
    case K.WhileStatement:
    case K.DoStatement: return this.execFor(s, ctx, node);
  }
  return n([s]);
};
I.execDecls = function (s, ctx, list) {
  let states = [s];
  for (const d of list.declarations) {
    states = states.flatMap((x) => {
      if (!d.initializer) return this.bindPattern(x, ctx, d.name, UNDEF);
      return this.evalExpr(x, ctx, d.initializer).flatMap(([y, v]) => this.bindPattern(y, ctx, d.name, v));
    });
    states = this.merge(states);
  }
  return states;
};
I.execSwitch = function (s, ctx, node) {
  const out = [];
  const clauses = node.caseBlock.clauses;
  const sid = ctx.prefix + ':sw' + nodeKey(node);
  for (const [s1, v] of this.evalExpr(s, ctx, node.expression)) {
    let st = s1.clone();
    st.wScopes().set(sid, { parent: ctx.scope, vars: new Map(), captured: false });
    const c = this.sub(ctx, { scope: sid });
    let rest = [st];
    const entries = []; // [clauseIndex, states]
    clauses.forEach((cl, i) => {
      if (ts.isDefaultClause(cl)) return;
      const nr = [], hit = [];
      for (const x of rest)
        for (const [y, cv] of this.evalExpr(x, c, cl.expression)) {
          const [t, f] = this.split(y, this.eqTerm(y, v, cv, false));
          if (t) hit.push(t);
          if (f) nr.push(f);
        }
      rest = this.merge(nr);
      entries.push([i, hit]);
    });
    const di = clauses.findIndex((cl) => ts.isDefaultClause(cl));
    if (di >= 0) entries.push([di, rest]); else for (const x of rest) out.push({ s: x, type: 'n' });
    const at = new Map(entries);
    let flow = [];
    clauses.forEach((cl, i) => {
      let cur = this.merge([...flow, ...(at.get(i) || [])]);
      flow = [];
      for (const x of cur)
        for (const o of this.execBlock(x, c, cl.statements, cl)) {
          if (o.type === 'n') flow.push(o.s);
          else if (o.type === 'b' && !o.label) out.push({ s: o.s, type: 'n' });
          else out.push(o);
        }
    });
    for (const x of flow) out.push({ s: x, type: 'n' });
  }
  return this.mergeOut(
    out.map((o) => {
      const sc = o.s.scopes.get(sid);
      if (!sc || sc.captured) return o;
      const r = o.s.clone();
      r.wScopes().delete(sid);
      return { ...o, s: r };
    }),
    (o) => o.type + (o.label || ''),
  );
};
I.execTry = function (s, ctx, node) {
  const c = this.sub(ctx, { throws: [] });
  let outs = this.execBlock(s, c, node.tryBlock.statements, node.tryBlock, true);
  let thrown = this.mergeOut(c.throws, (t) => 't');
  if (node.catchClause) {
    const c2 = this.sub(ctx, { throws: [] });
    for (const t of thrown) {
      let st = t.s.clone();
      const sid = ctx.prefix + ':c' + nodeKey(node.catchClause);
      st.wScopes().set(sid, { parent: ctx.scope, vars: new Map(), captured: false });
      const c3 = this.sub(c2, { scope: sid });
      const starts = node.catchClause.variableDeclaration ? this.bindPattern(st, c3, node.catchClause.variableDeclaration.name, t.v) : [st];
      for (const x of starts)
        for (const o of this.execBlock(x, c3, node.catchClause.block.statements, node.catchClause.block, true)) {
          const sc = o.s.scopes.get(sid);
          if (sc && !sc.captured) { const r = o.s.clone(); r.wScopes().delete(sid); outs.push({ ...o, s: r }); } else outs.push(o);
        }
    }
    thrown = c2.throws;
  }
  outs = this.mergeOut(outs, (o) => o.type + (o.label || ''));
  if (node.finallyBlock) {
    const out = [];
    for (const o of outs)
      for (const f of this.execBlock(o.s, ctx, node.finallyBlock.statements, node.finallyBlock, true)) out.push(f.type === 'n' ? { ...o, s: f.s } : f);
    for (const t of thrown)
      for (const f of this.execBlock(t.s, ctx, node.finallyBlock.statements, node.finallyBlock, true)) {
        if (f.type === 'n') ctx.throws.push({ ...t, s: f.s });
        else out.push(f);
      }
    return this.mergeOut(out, (o) => o.type + (o.label || ''));
  }
  ctx.throws.push(...thrown);
  return outs;
};

// ----------------------------------------------------------------- loops ----
// what a collection may yield: {exact: bool, alts: [values], filters}
I.isMapType = (t) => !!(t && t.symbol && /^(Map|ReadonlyMap|WeakMap|URLSearchParams)$/.test(t.symbol.name));
I.isSetType = (t) => !!(t && t.symbol && /^(Set|ReadonlySet|WeakSet)$/.test(t.symbol.name));
// keys that are known to differ from every other such key: constants and
// objects the caller handed in under different names
I.distinctKey = (k) => !!k && (k.k === 'c' || k.k === 'f' || (k.k === 't' && k.op === 'in' && k.args[1] === 'h' && !(k.meta.mask & ~X)));
I.iterPairs = function (s, v) {
  const out = [];
  const kf = (b) => term('keyof', [b], { mask: S | E });
  const gt = (b) => this.readDynT(b, kf(b));
  const o = this.obj(s, v);
  let exact = true;
  if (o) {
    if (o.kind === 'arr') {
      o.elems.forEach((e, i) => out.push([C(String(i)), e]));
      if (o.dyn.length) { exact = false; o.dyn.forEach((e) => out.push([term('keyof', [v], { mask: S | E }), e])); }
      return { exact, pairs: out };
    }
    for (const e of o.entries) {
      if (e.t === 'p') out.push([C(e.k), e.v]);
      else if (e.t === 'd') { if (!this.distinctKey(e.k) || (o.kind !== 'set' && o.kind !== 'map')) exact = false; out.push([e.k, e.v]); }
      else if (e.t === 's') { exact = false; out.push([kf(e.v), gt(e.v)]); }
      else exact = false;
    }
    if (o.open) { exact = false; out.unshift([kf(o.open), gt(o.open)]); }
    return { exact, pairs: out };
  }
  if (v.k === 't') {
    const c = this.constOf(s, v);
    if (c) return { exact: true, pairs: [] };
    return { exact: false, pairs: [[kf(v), gt(v)]] };
  }
  return { exact: true, pairs: [] };
};
I.readDynT = function (base, key) {
  let type = base.meta && base.meta.type, mask = ALL;
  if (type) {
    const nn = this.nonNull(type);
    let it = this.checker.getIndexTypeOfType(nn, ts.IndexKind.String) || this.checker.getIndexTypeOfType(nn, ts.IndexKind.Number);
    if (!it && this.isMapType(nn)) { const ta = this.checker.getTypeArguments(nn); it = ta && ta[1]; }
    type = it;
    if (it) { mask = this.typeMask(it); if (mask & X) mask &= ~(U | N); }
  }
  return term('get', [base, key], { mask: key.op === 'keyof' ? mask : ALL, type });
};
I.collection = function (s, v) {
  if (v.k === 'c') {
    if (typeof v.v === 'string') return { exact: v.v.length <= 24, alts: [...v.v].map((c) => C(c)) };
    return { exact: true, alts: [] };
  }
  if (v.k === 't' && (v.op === 'keys' || v.op === 'values' || v.op === 'entries')) {
    const { exact, pairs } = this.iterPairs(s, v.args[0]);
    return { exact, alts: pairs.map(([k, x]) => (v.op === 'keys' ? k : v.op === 'values' ? x : term('pair', [k, x], { mask: X }))) };
  }
  const o = this.obj(s, v);
  if (o && o.kind === 'arr') {
    return { exact: !o.dyn.length && o.elems.length <= (this.cfg.unroll || 24) && !o.filters, alts: [...o.elems, ...o.dyn], filters: o.filters };
  }
  if (o && (o.kind === 'map' || o.kind === 'set')) {
    const { exact, pairs } = this.iterPairs(s, v);
    return { exact, alts: pairs.map(([k, x]) => (o.kind === 'map' ? term('pair', [k, x], { mask: X }) : k)) };
  }
  if (v.k === 't' && this.isMapType(v.meta.type && this.nonNull(v.meta.type))) {
    const { pairs } = this.iterPairs(s, v);
    return { exact: false, alts: pairs.map(([k, x]) => term('pair', [k, x], { mask: X })) };
  }
  if (v.k === 't' && this.isSetType(v.meta.type && this.nonNull(v.meta.type))) {
    const ta = this.checker.getTypeArguments(this.nonNull(v.meta.type));
    const { pairs } = this.iterPairs(s, v);
    return { exact: false, alts: pairs.map(([k]) => (k.op === 'keyof' ? term('keyof', [k.args[0]], { mask: ta && ta[0] ? this.typeMask(ta[0]) & ~(U | N) : ALL, type: ta && ta[0] }) : k)) };
  }
  if (o && o.kind === 'open' && o.entries.length) {
    const e = o.entries.filter((x) => x.t === 'd' || x.t === 's');
    return { exact: false, alts: [this.elemOf(s, o.open || v), ...e.map((x) => x.v)] };
  }
  return { exact: false, alts: [this.elemOf(s, v)] };
};

I.loopOver = function (s, ctx, coll, node, bodyFn) {
  const col = this.collection(s, coll);
  if (col.exact) {
    let cur = [s];
    const exits = [];
    col.alts.forEach((a, i) => {
      const nx = [];
      for (const x of cur) {
        const c = this.sub(ctx, { prefix: ctx.prefix + '#' + nodeKey(node) + '.' + i });
        for (const o of bodyFn(x, c, a, C(i))) {
          if (o.type === 'n') nx.push(o.s);
          else exits.push(o);
        }
      }
      cur = this.merge(nx);
    });
    return [...cur.map((x) => ({ s: x, type: 'n' })), ...exits];
  }
  let body = bodyFn;
  if (col.filters) {
    body = (x, c, a, i) => {
      let sts = [x];
      const out = [];
      for (const f of col.filters) {
        const nx = [];
        for (const y of sts)
          for (const [z, r] of this.callValue(y, c, f, undefined, [a, i, coll], node)) {
            const [t, ff] = this.split(z, r);
            if (t) nx.push(t);
            if (ff) out.push({ s: ff, type: 'n', skip: true });
          }
        sts = this.merge(nx);
      }
      for (const y of sts) out.push(...bodyFn(y, c, a, i));
      return out;
    };
  }
  const outs = this.loopGeneric(s, ctx, node, col.alts, body);
  if (coll.k !== 't') return outs;
  const res = [];
  for (const o of outs) {
    if (!o.zero) { res.push(o); continue; }
    // never entered: the collection was empty
    const s2 = this.refine(o.s, term('len', [coll], { mask: Z | X }), ALL, C(0));
    if (s2) res.push({ ...o, s: s2 });
  }
  return res;
};

I.stableKey = function (s) { return s.key(); };
// bodyFn(s, ctx, elem, index) -> outcomes {s,type,v}; returns outcomes with
// type 'n' for normal termination
I.loopGeneric = function (s, ctx, node, alts0, bodyFn, opts = {}) {
  const lid = ctx.prefix + '~' + nodeKey(node);
  const active = ctx.activeElems || new Map();
  const alts = alts0.map((a) => this.freshElem(a, active));
  const act2 = new Map(active);
  for (const a of alts) if (a) { const m = new Map(); collectElems(a, m); for (const [k, v] of m) act2.set(k, v); }
  const ownEls = new Map();
  for (const a of alts) if (a) collectElems(a, ownEls);
  for (const id of [...ownEls.keys()]) if (active.has(id)) ownEls.delete(id);
  const mkctx = (thr) => this.sub(ctx, { loop: (ctx.loop || 0) + 1, throws: thr, activeElems: act2, prefix: ctx.prefix + '#' + nodeKey(node) });
  const idx = term('lv', [lid, '#i'], { mask: Z | X });
  const step = (x, thr) => {
    const outs = [];
    for (const a of alts) for (const o of bodyFn(x, mkctx(thr), a, idx)) outs.push({ ...o, alt: a });
    return outs;
  };
  // run one iteration from a head, keeping what it would record
  const compute = (st) => {
    const saved = this.log;
    this.log = [];
    const thr = [];
    let outs;
    try { outs = step(st, thr); } finally { var log = this.log; this.log = saved; }
    return { outs, thr, log };
  };
  let start = s;
  let first = compute(s);
  start = this.widenCounters(s, first.outs.filter((o) => o.type === 'n').map((o) => o.s), lid);
  // finite powerset of loop-head states
  const wide = new Set();
  let noTrace = false;
  const fix = (st0, r0) => {
    const heads = new Map(); // key -> {s, initial, run}
    const k0 = st0.key();
    heads.set(k0, { s: st0, initial: true, run: r0 });
    const work = [k0];
    let n = 0;
    while (work.length) {
      const k = work.shift();
      const h = heads.get(k);
      if (++n > 40) return null;
      if (!h.run) h.run = compute(h.s);
      for (const o of h.run.outs) {
        if (o.type !== 'n') continue;
        let st = this.project(this.dropLoopFacts(o.s, h.s, ownEls, lid), st0, lid, wide);
        if (noTrace && st.trace !== st0.trace) { st = st.clone(); st.trace = st0.trace; }
        const kk = st.key();
        o.to = kk;
        const q = heads.get(kk);
        if (!q) {
          heads.set(kk, { s: st, initial: false });
          if (heads.size > (opts.maxHeads || 10)) return null;
          work.push(kk);
        } else {
          const jf = joinFacts(q.s.facts, st.facts);
          if (!sameFacts(jf, q.s.facts)) {
            const r = q.s.clone();
            r.facts = jf;
            r.own &= ~4;
            q.s = r;
            q.run = undefined;
            if (!work.includes(kk)) work.push(kk);
          }
        }
      }
    }
    const trans = new Map(); // from->to element facts
    for (const [k, h] of heads)
      for (const o of h.run.outs) {
        if (o.type !== 'n') continue;
        const tk = k + '=>' + o.to;
        const ef = this.elemFacts(o.s, h.s, ownEls);
        const old = trans.get(tk);
        trans.set(tk, { from: k, to: o.to, per: mergePer(old ? old.per : new Map(), o.alt, ef) });
      }
    return { heads, trans, k0 };
  };
  let res = fix(start, start === s ? first : undefined);
  if (!res) {
    this.widened++;
    let w = start;
    for (let i = 0; i < 6; i++) {
      const outs = compute(w).outs.filter((o) => o.type === 'n').map((o) => o.s);
      const w2 = this.widenAll(w, outs, lid, wide);
      if (w2 === w) break;
      w = w2;
    }
    start = w;
    res = fix(start);
    if (!res) { noTrace = true; this.traceLost = (this.traceLost || 0) + 1; res = fix(start); }
    if (!res) throw new Interp.Budget('loop does not stabilise at ' + this.p.loc(node));
  }
  const out = [];
  const exitStates = [];
  for (const [k, h] of res.heads) {
    this.log.push(...h.run.log);
    for (const o of h.run.outs) if (o.type !== 'n') exitStates.push({ ...o, head: k });
    for (const t of h.run.thr) ctx.throws.push(t);
  }
  // exits: the element that caused the exit becomes a witness
  const all = this.forallFacts(res);
  const wit = this.witFacts(res, ownEls, active, lid);
  for (const o of exitStates) {
    const m = new Map();
    const els = new Map();
    for (const [, f] of o.s.facts) collectElems(f.term, els);
    if (o.v) collectElems(o.v, els);
    for (const [, sc] of o.s.scopes) for (const v of sc.vars.values()) collectElems(v, els);
    for (const [id, e] of els) if (ownEls.has(id)) m.set(id, mkWit(e, lid, active));
    let s2 = this.substState(o.s, m);
    if (o.type === 'done') {
      const r = s2.clone();
      const f = new Map(r.facts);
      for (const [id, x] of all.get(o.head) || []) if (!f.has(id)) f.set(id, x);
      if (!res.heads.get(o.head).initial) for (const [id, x] of wit.get(o.head) || []) if (!f.has(id)) f.set(id, x);
      r.facts = f;
      r.own |= 4;
      s2 = r;
    }
    if (this.consistent(s2)) out.push({ ...o, s: s2, v: o.v && this.subst(o.v, m, new Map()) });
  }
  // normal termination, with facts that held for every element
  for (const [k, h] of res.heads) {
    const r = h.s.clone();
    const f = new Map(r.facts);
    for (const [id, x] of all.get(k) || []) f.set(id, x);
    if (!h.initial) for (const [id, x] of wit.get(k) || []) f.set(id, x);
    r.facts = f;
    r.own |= 4;
    if (this.consistent(r)) out.push({ s: r, type: 'n', zero: h.initial && ![...res.trans.values()].some((t) => t.to === k) });
  }
  return this.mergeOut(out, (o) => o.type + (o.label || ''));
};
function sameFacts(a, b) {
  if (a.size !== b.size) return false;
  for (const [k, x] of a) {
    const y = b.get(k);
    if (!y || x.mask !== y.mask || x.eq !== y.eq || (x.ne || []).length !== (y.ne || []).length) return false;
  }
  return true;
}
function mergePer(per, alt, ef) {
  const m = new Map(per);
  const id = alt ? alt.id : 0;
  m.set(id, m.has(id) ? joinFacts(m.get(id), ef) : ef);
  return m;
}
// the element that made this loop leave: a witness of its own for every loop
// and (Skolem arguments) for every enclosing element
function mkWit(e, lid, active) {
  const own = new Map();
  collectElems(e, own);
  const sk = [...active.values()].filter((a) => !own.has(a.id));
  return term('wit', [e.op, ...e.args, '~' + lid, ...(sk.length ? [term('sk', sk)] : [])], e.meta);
}
const hasWit = memoFlag('wit', (t) => t.op === 'wit');
// a witness is one of the elements: facts about all elements apply to it
I.consistent = function (s) {
  for (const [, f] of s.facts) {
    if (!hasWit(f.term)) continue;
    const back = (v) => {
      if (!v || v.k !== 't' || !hasWit(v)) return v;
      if (v.op === 'wit') {
        const i = v.args.findIndex((a) => typeof a === 'string' && a[0] === '~');
        return term(v.args[0], v.args.slice(1, i).map(back), v.meta);
      }
      return term(v.op, v.args.map((a) => (a && a.k === 't' ? back(a) : a)), v.meta);
    };
    const t = back(f.term);
    const g = s.facts.get(t.id);
    if (!g || g === f || !hasElem(t)) continue;
    if (!(g.mask & f.mask)) return false;
    if (f.eq && g.eq && f.eq !== g.eq) return false;
    if (f.eq && g.ne && g.ne.includes(f.eq)) return false;
    if (g.eq && f.ne && f.ne.includes(g.eq)) return false;
  }
  return true;
};
// witnesses found while this loop ran its previous iteration
I.innerWit = function (t, lid) {
  const i = lid.lastIndexOf('~');
  const pre = '~' + lid.slice(0, i) + '#' + lid.slice(i + 1);
  return this.contains(t, (v) => v.k === 't' && v.op === 'wit' && v.args.some((a) => typeof a === 'string' && a.startsWith(pre)));
};
I.freshElem = function (a, active) {
  if (!a || a.k !== 't') return a;
  const els = new Map();
  collectElems(a, els);
  const m = new Map();
  for (const [id, e] of els) if (active.has(id)) m.set(id, term(e.op, [...e.args, 'nest' + active.size], e.meta));
  return m.size ? this.subst(a, m, new Map()) : a;
};
// facts that survive to the next iteration: not about this iteration's element
I.dropLoopFacts = function (st, head, own, lid) {
  const f = new Map();
  for (const [id, x] of st.facts) {
    const h = head.facts.get(id);
    if (h === x) { f.set(id, x); continue; }
    if (hasWit(x.term) && this.innerWit(x.term, lid)) continue;
    if (hasImpure(x.term)) { if (h) f.set(id, h); continue; }
    const els = new Map();
    collectElems(x.term, els);
    if ([...els.keys()].some((e) => own.has(e))) { if (h) f.set(id, h); continue; }
    f.set(id, x);
  }
  const r = st.clone();
  r.facts = f;
  r.own |= 4;
  return r;
};
I.elemFacts = function (st, head, own) {
  const f = new Map();
  for (const [id, x] of st.facts) {
    if (hasImpure(x.term) && !hasElem(x.term)) continue;
    const els = new Map();
    collectElems(x.term, els);
    if (![...els.keys()].some((e) => own.has(e))) continue;
    f.set(id, x);
  }
  return f;
};
I.forallFacts = function (res) {
  // greatest fixpoint over loop heads
  const all = new Map();
  const tr = [...res.trans.values()];
  const TOP = null;
  for (const k of res.heads.keys()) all.set(k, TOP);
  const perJoin = (per) => {
    // facts of each alternative's own element hold for that alternative
    const out = new Map();
    for (const [, f] of per) for (const [id, x] of f) { if (!out.has(id)) out.set(id, x); }
    // a fact must hold on every alternative that mentions it
    for (const [, f] of per) for (const [id] of [...out]) if (per.size > 1 && !f.has(id)) { /* other alternative: element differs */ }
    return out;
  };
  for (let i = 0; i < 12; i++) {
    let ch = false;
    for (const k of res.heads.keys()) {
      let acc = TOP;
      for (const t of tr) {
        if (t.to !== k) continue;
        let f = perJoin(t.per);
        const fromH = res.heads.get(t.from);
        const fa = all.get(t.from);
        if (fa !== TOP) f = inter(f, fa);
        void fromH;
        acc = acc === TOP ? f : inter(acc, f);
      }
      if (acc === TOP && !res.heads.get(k).initial) continue;
      // initial head: zero iterations, everything holds vacuously
      const old = all.get(k);
      if (acc !== TOP && (old === TOP || !sameFacts(old, acc))) { all.set(k, acc); ch = true; }
    }
    if (!ch) break;
  }
  const out = new Map();
  for (const [k, v] of all) out.set(k, v === TOP ? new Map() : v);
  // a never re-entered initial head (no normal iteration): vacuous, no facts known
  return out;
};
function inter(a, b) {
  const o = joinFacts(a, b);
  return o;
}
I.witFacts = function (res, own, active, lid) {
  const out = new Map();
  for (const k of res.heads.keys()) {
    let acc = null;
    for (const t of res.trans.values()) {
      if (t.to !== k || t.from === k) continue;
      const f = new Map();
      for (const [, pf] of t.per)
        for (const [, x] of pf) {
          const els = new Map(), m = new Map();
          collectElems(x.term, els);
          for (const [id, e] of els) if (own.has(id)) m.set(id, mkWit(e, lid, active));
          const tt = this.subst(x.term, m, new Map());
          f.set(tt.id, { ...x, term: tt });
        }
      acc = acc ? joinFacts(acc, f) : f;
    }
    out.set(k, acc || new Map());
  }
  return out;
};
// widened variables stay widened at the loop head
I.project = function (st, head, lid, wide) {
  let r = st;
  if (wide && wide.size) {
    for (const loc of wide) {
      const h = head.heap.get(loc);
      if (h && r.heap.get(loc) !== h) { if (r === st) r = st.clone(); r.wHeap().set(loc, h); }
    }
    // objects born in this iteration and not part of the widened store
    for (const loc of [...r.heap.keys()]) if (!head.heap.has(loc)) { if (r === st) r = st.clone(); r.wHeap().delete(loc); }
  }
  for (const [id, sc] of head.scopes)
    for (const [n, v] of sc.vars) {
      if (v.k !== 't' || v.op !== 'lv' || v.args[0] !== lid) continue;
      const q = r.scopes.get(id);
      if (q && q.vars.get(n) !== v) { if (r === st) r = st.clone(); r.setVar(id, n, v); }
    }
  for (const [loc, o] of head.heap) {
    const q = r.heap.get(loc);
    if (!q || q === o) continue;
    let ch = false;
    const es = q.entries.map((e) => {
      const h = o.entries.find((z) => z.t === e.t && z.k === e.k && z.v && z.v.k === 't' && z.v.op === 'lv' && z.v.args[0] === lid);
      if (h && h.v !== e.v) { ch = true; return { ...e, v: h.v }; }
      return e;
    });
    if (ch) { if (r === st) r = st.clone(); r.wHeap().set(loc, { ...q, entries: es }); }
  }
  return r;
};
const growing = (nv, ov) => (nv.k === 'c' && typeof nv.v === 'number' && ov.k === 'c' && typeof ov.v === 'number') || (nv.k === 't' && (/^bin:/.test(nv.op) || nv.op === 'tmpl' || nv.op === 'get') && nv.args.some((a) => a === ov));
I.widenCounters = function (s, outs, lid) {
  let r = s;
  for (const [id, sc] of s.scopes)
    for (const [n, v] of sc.vars) {
      if (outs.some((o) => { const q = o.scopes.get(id); const nv = q && q.vars.get(n); return nv && nv !== v && growing(nv, v); })) {
        r = r.clone();
        r.setVar(id, n, term('lv', [lid, n + '@' + (typeof id === 'string' ? id.length : id)], { mask: v.k === 'c' && typeof v.v === 'string' ? S | E : Z | X, init: v }));
      }
    }
  for (const [loc, o] of s.heap) {
    for (const e of o.entries) {
      if (e.t !== 'p') continue;
      if (outs.some((x) => { const q = x.heap.get(loc); const ne = q && q.entries.find((z) => z.t === 'p' && z.k === e.k); return ne && ne.v !== e.v && growing(ne.v, e.v); })) {
        r = r.clone();
        const cur = r.heap.get(loc);
        r.wHeap().set(loc, { ...cur, entries: cur.entries.map((z) => (z.t === 'p' && z.k === e.k ? { ...z, v: term('lv', [lid, loc + '.' + e.k], { mask: Z | X | S | E, init: e.v }) } : z)) });
      }
    }
  }
  return r;
};
I.widenAll = function (s, outs, lid, wide = new Set()) {
  let r = s, ch = false;
  const lvOf = (name, ov, nvs) => {
    if (ov.k === 't' && ov.op === 'lv' && ov.args[0] === lid) return ov;
    return term('lv', [lid, name], { mask: nvs.reduce((m, v) => m | this.maskOf(s, v), this.maskOf(s, ov)) , type: ov.meta && ov.meta.type, alts: [ov, ...nvs] });
  };
  for (const [id, sc] of s.scopes)
    for (const [n, v] of sc.vars) {
      const nvs = [...new Set(outs.map((o) => { const q = o.scopes.get(id); return q && q.vars.get(n); }).filter((x) => x && x !== v))];
      if (!nvs.length) continue;
      const w = lvOf(n + '@' + String(id).length, v, nvs);
      if (w !== v) { r = r === s ? s.clone() : r; r.setVar(id, n, w); ch = true; }
    }
  for (const [loc, o] of s.heap) {
    const os = outs.map((x) => x.heap.get(loc)).filter((x) => x && x !== o && s.objKey(x) !== s.objKey(o));
    if (!os.length) continue;
    let nw = { ...o, entries: o.entries.slice() };
    if (o.kind === 'arr') {
      const dyn = o.dyn.slice();
      for (const x of os) for (const e of [...x.elems, ...x.dyn]) if (!dyn.includes(e) && !o.elems.includes(e)) dyn.push(e);
      nw.dyn = dyn;
    }
    for (const x of os) {
      for (const e of x.entries) {
        const i = nw.entries.findIndex((z) => z.t === e.t && z.k === e.k && (e.t === 'p' || e.t === 'x' || e.t === 'd' || z.v === e.v));
        if (i < 0) {
          if (e.t === 'p') nw.entries.push({ t: 'p', k: e.k, v: term('lv', [lid, loc + '.' + e.k], { mask: ALL, alts: [e.v] }) });
          else nw.entries.push(e);
        } else if (e.v && nw.entries[i].v !== e.v) nw.entries[i] = { ...nw.entries[i], v: lvOf(loc + '.' + (e.k && e.k.id ? e.k.id : e.k), nw.entries[i].v, [e.v]) };
      }
    }
    if (s.objKey(nw) !== s.objKey(o)) { r = r === s ? s.clone() : r; r.wHeap().set(loc, nw); wide.add(loc); ch = true; }
  }
  if (ch) for (const o of outs) for (const [loc, x] of o.heap) if (!r.heap.has(loc)) { r.wHeap().set(loc, x); wide.add(loc); }
  return ch ? r : s;
};

I.loopBody = function (s, ctx, bodyNode, label) {
  // body outcomes with continue folded into normal completion
  return this.execStmt(s, ctx, bodyNode).map((o) => (o.type === 'c' && (!o.label || o.label === label) ? { s: o.s, type: 'n' } : o));
};
const afterLoop = (outs, label) => outs.map((o) => (o.type === 'b' && (!o.label || o.label === label) ? { s: o.s, type: 'n' } : o));
I.execForOf = function (s, ctx, node) {
  const label = ctx.label;
  const out = [];
  for (const [s1, v0] of this.evalExpr(s, ctx, node.expression)) {
    let v = v0;
    if (ts.isForInStatement(node)) v = term('keys', [v0], { mask: X });
    const c0 = this.constOf(s1, v0);
    if (c0 && (c0.v === null || c0.v === undefined) && !ts.isForInStatement(node)) { ctx.throws.push({ s: s1, v: term('TypeError', ['iterate'], { mask: X }), node }); continue; }
    const body = (x, c, el) => {
      const sid = c.prefix + ':f' + nodeKey(node);
      const st = x.clone();
      st.wScopes().set(sid, { parent: ctx.scope, vars: new Map(), captured: false });
      const c2 = this.sub(c, { scope: sid, label: undefined });
      let starts;
      if (ts.isVariableDeclarationList(node.initializer)) starts = this.bindPattern(st, c2, node.initializer.declarations[0].name, el);
      else starts = this.assign(st, c2, node.initializer, el, node);
      const outs = [];
      for (const y of starts)
        for (const o of this.loopBody(y, c2, node.statement, label)) {
          const sc = o.s.scopes.get(sid);
          if (sc && !sc.captured) { const r = o.s.clone(); r.wScopes().delete(sid); outs.push({ ...o, s: r }); } else outs.push(o);
        }
      return outs;
    };
    out.push(...afterLoop(this.loopOver(s1, ctx, v, node, body), label));
  }
  return this.mergeOut(out, (o) => o.type + (o.label || ''));
};
// for (let i = 0; i < X.length; i++) over an array that the body does not resize
I.countingLoop = function (node) {
  let i, c, start = 0, skip = null, iNode = null, d2;
  const isI = (n) => ts.isIdentifier(n) && n.text === i;
  const increments = (inc) => ((ts.isPostfixUnaryExpression(inc) || ts.isPrefixUnaryExpression(inc)) && inc.operator === K.PlusPlusToken && isI(inc.operand)) || (ts.isBinaryExpression(inc) && inc.operatorToken.kind === K.PlusEqualsToken && isI(inc.left) && inc.right.getText() === '1') || (ts.isBinaryExpression(inc) && inc.operatorToken.kind === K.EqualsToken && isI(inc.left) && inc.right.getText().replace(/\s/g, '') === i + '+1');
  if (ts.isWhileStatement(node)) {
    // let i = 0; while (i < X.length) { ...; i++; }   let i = -1; while (++i < X.length) { ... }
    c = node.expression;
    if (!ts.isBinaryExpression(c) || c.operatorToken.kind !== K.LessThanToken || !ts.isBlock(node.statement)) return null;
    if (ts.isIdentifier(c.left)) {
      i = c.left.text;
      iNode = c.left;
      const last = node.statement.statements[node.statement.statements.length - 1];
      if (!last || !ts.isExpressionStatement(last) || !increments(last.expression)) return null;
      skip = last;
      const cont = (n) => (ts.isContinueStatement(n) ? true : ts.isFunctionLike(n) ? false : !!ts.forEachChild(n, (x) => cont(x) || undefined));
      if (cont(node.statement)) return null;
    } else if (ts.isPrefixUnaryExpression(c.left) && c.left.operator === K.PlusPlusToken && ts.isIdentifier(c.left.operand)) {
      i = c.left.operand.text;
      iNode = c.left.operand;
      start = -1;
    } else return null;
  } else {
    if (!ts.isForStatement(node) || !node.initializer || !node.condition || !node.incrementor || !ts.isVariableDeclarationList(node.initializer)) return null;
    const d = node.initializer.declarations[0];
    d2 = node.initializer.declarations[1];
    if (node.initializer.declarations.length > 2 || !ts.isIdentifier(d.name) || !d.initializer || !ts.isNumericLiteral(d.initializer) || d.initializer.text !== '0') return null;
    i = d.name.text;
    c = node.condition;
    if (!ts.isBinaryExpression(c) || c.operatorToken.kind !== K.LessThanToken || !ts.isIdentifier(c.left) || c.left.text !== i) return null;
    if (!increments(node.incrementor)) return null;
  }
  let lim = strip(c.right);
  if (d2) { if (!ts.isIdentifier(lim) || lim.text !== d2.name.getText() || !d2.initializer) return null; lim = strip(d2.initializer); }
  if (!ts.isPropertyAccessExpression(lim) || lim.name.text !== 'length') return null;
  const x = lim.expression;
  const chain = (n) => ts.isIdentifier(n) || n.kind === K.ThisKeyword || (ts.isPropertyAccessExpression(n) && chain(n.expression));
  if (!chain(x)) return null;
  const text = x.getText();
  let ok = true;
  const v = (n) => {
    if (!ok || n === skip) return;
    if (ts.isBinaryExpression(n) && n.operatorToken.kind >= K.FirstAssignment && n.operatorToken.kind <= K.LastAssignment) { const l = n.left.getText(); if (l === i || l === text || text.startsWith(l + '.') || l === text + '.length') ok = false; }
    if ((ts.isPostfixUnaryExpression(n) || ts.isPrefixUnaryExpression(n)) && (n.operator === K.PlusPlusToken || n.operator === K.MinusMinusToken) && isI(n.operand)) ok = false;
    if (ts.isCallExpression(n) && ts.isPropertyAccessExpression(n.expression) && n.expression.expression.getText() === text && /^(push|pop|shift|unshift|splice|sort|reverse|fill|copyWithin)$/.test(n.expression.name.text)) ok = false;
    ts.forEachChild(n, v);
  };
  v(node.statement);
  return ok ? { i, x, start, skip, iNode } : null;
};
I.execFor = function (s, ctx, node) {
  const label = ctx.label;
  const sid = ctx.prefix + ':l' + nodeKey(node);
  let st = s.clone();
  st.wScopes().set(sid, { parent: ctx.scope, vars: new Map(), captured: false });
  const c = this.sub(ctx, { scope: sid, label: undefined });
  let starts = [st];
  if (ts.isForStatement(node) && node.initializer) {
    starts = ts.isVariableDeclarationList(node.initializer) ? this.execDecls(st, c, node.initializer) : this.evalExpr(st, c, node.initializer).map(([x]) => x);
  }
  const isDo = ts.isDoStatement(node);
  const condN = ts.isForStatement(node) ? node.condition : node.expression;
  const inc = ts.isForStatement(node) ? node.incrementor : undefined;
  const cond = (x, cc) => (condN ? this.cond(x, cc, condN) : { t: [x], f: [] });
  const after = (x, cc) => (inc ? this.merge(this.evalExpr(x, cc, inc).map(([y]) => y)) : [x]);
  const out = [];
  for (const s0 of starts) {
    // try a definite (constant bound) unrolling first
    const unroll = () => {
      if (isDo) return null;
      let cur = [s0];
      const res = [];
      const thr = [];
      const saved = this.log;
      this.log = [];
      let ok = false;
      try {
        for (let i = 0; i < (this.cfg.unroll || 25); i++) {
          const nx = [];
          for (const x of cur) {
            const cc = this.sub(c, { prefix: ctx.prefix + '#' + nodeKey(node) + '.' + i, throws: thr });
            const { t, f } = cond(x, cc);
            if (t.length && f.length) return null;
            for (const y of f) res.push({ s: y, type: 'n' });
            for (const y of t)
              for (const o of this.loopBody(y, cc, node.statement, label)) {
                if (o.type === 'n') nx.push(...after(o.s, cc));
                else res.push(o);
              }
          }
          cur = this.merge(nx);
          if (!cur.length) { ok = true; c.throws.push(...thr); return res; }
        }
      } finally {
        const l = this.log;
        this.log = saved;
        if (ok) this.log.push(...l);
      }
      return null;
    };
    const outs = unroll();
    if (outs) { out.push(...afterLoop(outs, label)); continue; }
    const cl = this.countingLoop(node);
    const from = cl && cl.iNode ? this.evalExpr(s0, c, cl.iNode) : null;
    const counted = cl && (!from || (from.length === 1 && from[0][1].k === 'c' && from[0][1].v === cl.start));
    const colls = counted ? this.evalExpr(s0, c, cl.x) : [];
    if (counted && colls.length === 1 && this.isArrayV(colls[0][0], colls[0][1]) && !this.collection(colls[0][0], colls[0][1]).exact) {
      const coll = colls[0][1];
      const each = (x, cc0, el) => {
        const cc = this.sub(cc0, { scope: sid, label: undefined });
        const y = x.clone();
        y.setVar(sid, cl.i, term('idx', [coll, el], { mask: Z | X }));
        if (cl.skip) return this.execBlock(y, cc, node.statement.statements.slice(0, -1), node.statement, true).map((o) => (o.type === 'c' && (!o.label || o.label === label) ? { s: o.s, type: 'n' } : o));
        return this.loopBody(y, cc, node.statement, label);
      };
      const done = afterLoop(this.loopOver(colls[0][0], c, coll, node, each), label);
      // a counter declared outside: its value after the loop is not tracked
      for (const o of done) {
        if (!cl.iNode) { out.push(o); continue; }
        const r = o.s.clone();
        const own = r.scopes.get(sid);
        if (own && own.vars.has(cl.i)) { r.wScopes().set(sid, { ...own, vars: new Map([...own.vars].filter(([k]) => k !== cl.i)) }); }
        for (const q of this.assign(r, c, cl.iNode, term('idx', [coll, 'after'], { mask: Z | X }), node)) out.push({ ...o, s: q });
      }
      continue;
    }
    const body = (x, cc0) => {
      const cc = this.sub(cc0, { scope: sid });
      const res = [];
      if (isDo) {
        for (const o of this.loopBody(x, cc, node.statement, label)) {
          if (o.type !== 'n') { res.push(o); continue; }
          const { t, f } = cond(o.s, cc);
          for (const y of t) res.push({ s: y, type: 'n' });
          for (const y of f) res.push({ s: y, type: 'done' });
        }
        return res;
      }
      const { t, f } = cond(x, cc);
      for (const y of f) res.push({ s: y, type: 'done' });
      for (const y of t)
        for (const o of this.loopBody(y, cc, node.statement, label)) {
          if (o.type !== 'n') { res.push(o); continue; }
          for (const z of after(o.s, cc)) res.push({ s: z, type: 'n' });
        }
      return res;
    };
    const outs2 = this.loopGeneric(s0, c, node, [undefined], body, { keepDone: true });
    for (const o of afterLoop(outs2.filter((o) => !(o.type === 'n')).map((o) => o), label)) out.push(o.type === 'done' ? { s: o.s, type: 'n' } : o);
  }
  return this.mergeOut(
    out.map((o) => {
      const sc = o.s.scopes.get(sid);
      if (!sc || sc.captured) return o;
      const r = o.s.clone();
      r.wScopes().delete(sid);
      return { ...o, s: r };
    }),
    (o) => o.type + (o.label || ''),
  );
};
