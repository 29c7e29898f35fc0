'use strict';
// A modelled host for histories over the browser packages: web storage with
// contents, JSON snapshots, timers, clock, and the network boundary.  All of
// it is data in the abstract state; nothing of the analysed program is run.
const L = require('../engine/lib');
const { Hist } = require('./hist');
const { D, C, term, pathStr, UNDEF, NULL } = L;
const { X, S, E, O } = D;

class World extends Hist {
  /* cfg.storage(op, area, key, s) -> 'throw' to make a storage access fail
     cfg.net(W, s, name, args) -> [[state, value, 'ret'|'throw'], ...] for the boundary calls listed in cfg.netNames
     cfg.callbacks: answers of caller-supplied functions by name (they are recorded as events callback:<name>)
     cfg.globals: extra truthy globals; cfg.absent: globals the host does not have */
  constructor(ck, clsName, hint, cfg = {}) {
    let W;
    const user = cfg.model;
    super(ck, clsName, hint, {
      recurse: 4, timers: true, moduleInit: true, ...cfg,
      events: ['unhandled', /^callback:/, /^Storage\.(setItem|removeItem|clear)$/, ...(cfg.netNames || []), ...(cfg.events || [])],
      model: (I, s, ctx, info) => {
        const m = user && user(I, s, ctx, info, W);
        if (m) return m;
        if (cfg.callbacks && /^callback:/.test(info.name || '')) {
          // caller-supplied functions with a fixed answer: value, or {throws: value}, or {states: [[state, value]]}
          const f = cfg.callbacks[info.name.slice(9)];
          if (f !== undefined) {
            const r = I.emit(s, ctx, { name: info.name, args: info.args, node: info.node, recv: info.recv }).clone();
            const a = typeof f === 'function' ? f(W, r, info.args, ctx) : f;
            if (a && a.throws) { ctx.throws.push({ s: r, v: W.val(r, a.throws), node: info.node }); return []; }
            if (a && a.states) return a.states;
            return [[r, W.val(r, a)]];
          }
        }
        return W.host(s, ctx, info);
      },
    });
    W = this;
    this.wcfg = cfg;
    this.uid = 0;
  }
  // ---- abstract literals -----------------------------------------------------
  static isV(v) { return !!v && typeof v.k === 'string' && 'id' in v; }
  val(s, v) {
    if (World.isV(v)) return v;
    if (Array.isArray(v)) return this.I.newObj(s, 'lit' + ++this.uid, { kind: 'arr', entries: [], elems: v.map((x) => this.val(s, x)), dyn: [] });
    if (v && typeof v === 'object') return this.I.newObj(s, 'lit' + ++this.uid, { kind: 'obj', entries: Object.entries(v).map(([k, x]) => ({ t: 'p', k, v: this.val(s, x) })) });
    return C(v);
  }
  // closed structural view: JS tree with symbolic leaves, or undefined when open
  tree(s, v, depth = 0) {
    if (!v || depth > 12) return undefined;
    const c = v.k === 't' ? this.I.constOf(s, v) || v : v;
    if (c.k === 'c') return { c: c.v };
    if (c.k === 'o') {
      const o = s.heap.get(c.loc);
      if (!o || o.open || (o.dyn && o.dyn.length) || o.filters) return undefined;
      if (o.kind === 'arr') { const a = o.elems.map((e) => this.tree(s, e, depth + 1)); return a.includes(undefined) ? undefined : { a, loc: c.loc }; }
      if (o.kind === 'map' || o.kind === 'set') return undefined;
      const p = {};
      for (const e of o.entries) {
        if (e.t === 'x') { delete p[e.k]; continue; }
        if (e.t !== 'p') return undefined;
        const t = this.tree(s, e.v, depth + 1);
        if (!t) return undefined;
        p[e.k] = t;
      }
      return { p, loc: c.loc };
    }
    return { t: v };
  }
  str(s, v) { return L.show(v, s); }
  // structural equality decided by the path: true / false / undefined
  eqv(s, a, b) {
    const I = this.I;
    if (a === b) return true;
    if (!a || !b) return false;
    const oa = a.k === 'o' && s.heap.get(a.loc), ob = b.k === 'o' && s.heap.get(b.loc);
    if (oa && ob) {
      if ((oa.kind === 'arr') !== (ob.kind === 'arr')) return false;
      const ta = this.tree(s, a), tb = this.tree(s, b);
      if (!ta || !tb) return undefined;
      return this.eqTree(s, ta, tb);
    }
    if (oa || ob) return false;
    if (!(I.maskOf(s, a) & I.maskOf(s, b))) return false;
    const m = I.maskOf(s, I.eqTerm(s, a, b, false));
    return !(m & D.FALSY) ? true : !(m & D.TRUTHY) ? false : undefined;
  }
  eqTree(s, a, b) {
    if (a.p || b.p) {
      if (!a.p || !b.p) return false;
      const def = (t) => Object.keys(t.p).filter((k) => !('c' in t.p[k] && t.p[k].c === undefined));
      const ka = def(a), kb = def(b);
      if (ka.length !== kb.length || ka.some((k) => !kb.includes(k))) return false;
      const r = ka.map((k) => this.eqTree(s, a.p[k], b.p[k]));
      return r.includes(false) ? false : r.includes(undefined) ? undefined : true;
    }
    if (a.a || b.a) {
      if (!a.a || !b.a || a.a.length !== b.a.length) return false;
      const r = a.a.map((x, i) => this.eqTree(s, x, b.a[i]));
      return r.includes(false) ? false : r.includes(undefined) ? undefined : true;
    }
    const va = 't' in a ? a.t : C(a.c), vb = 't' in b ? b.t : C(b.c);
    if (va === vb) return true;
    if (!(this.I.maskOf(s, va) & this.I.maskOf(s, vb))) return false;
    const m = this.I.maskOf(s, this.I.eqTerm(s, va, vb, false));
    return !(m & D.FALSY) ? true : !(m & D.TRUTHY) ? false : undefined;
  }
  // compare an abstract value with a JS literal (leaves may be abstract)
  is(s, v, lit) { const r = s.clone(); return this.eqv(r, v, this.val(r, lit)); }
  get(s, v, ...path) { for (const k of path) { if (!v) return undefined; v = L.prop(this.I, s, v, k); } return v; }
  // assignment v[k] = lit by the caller -> new state
  set(s, v, k, lit) { const r = s.clone(); return this.I.writeProp(r, this.ctx(), v, C(k), this.val(r, lit), this.cls)[0]; }
  invoke(s, recv, m, args = []) {
    const c = this.ctx();
    const r = this.I.callMethod(s, c, recv, C(m), args, this.cls).map(([x, v]) => L.settle({ s: x, v, kind: 'ret' }));
    return [...r, ...c.throws.map((t) => ({ s: t.s, v: t.v, kind: 'throw', node: t.node }))];
  }
  // ---- the host ----------------------------------------------------------------
  start() {
    let s = this.I.state();
    const g = (...a) => term('global', a);
    const mark = (v) => { s = this.I.refine(s, v, X) || s; };
    const I = this.I;
    const gt = this.globalObject();
    mark(gt);
    for (const k of ['localStorage', 'sessionStorage', 'setTimeout', 'clearTimeout', 'setInterval', 'clearInterval', ...(this.wcfg.globals || [])]) mark(L.prop(I, s, gt, k));
    // hosts without these globals, both as bare names and as properties of the global object
    for (const k of this.wcfg.absent || []) {
      s = I.writeProp(s, this.ctx(), gt, C(k), UNDEF, this.cls)[0];
    }
    const b = s.clone();
    for (const a of ['local', 'session']) b.wHeap().set('W:' + a, { kind: 'obj', entries: [] });
    return b;
  }
  // evaluate the top-level statements of a module, in order
  load(s, file) {
    const f = typeof file === 'string' ? this.ck.p.sources.find((x) => x.fileName.replace(/\\/g, '/').endsWith(file)) : file;
    if (!f) throw new L.Anchor('module ' + file);
    const { ts } = L;
    let list = [s];
    const c = { ...this.ctx(), scope: 'mod' };
    for (const st of f.statements) {
      if (ts.isVariableStatement(st)) for (const d of st.declarationList.declarations) {
        if (!ts.isIdentifier(d.name)) continue;
        list = list.flatMap((x) => this.I.evalModuleVar(x, c, this.ck.p.symbolOf(d.name), d).map(([y]) => y));
      }
      else if (ts.isExpressionStatement(st) || ts.isIfStatement(st) || ts.isTryStatement(st) || ts.isForOfStatement(st)) list = list.flatMap((x) => this.I.execStmt(x, c, st).map((o) => o.s));
    }
    return list;
  }
  // an exported function or variable of a module as a value
  exported(s, name, hint) {
    const c = this.ctx();
    for (const f of this.ck.p.sources) {
      if (hint && !f.fileName.includes(hint)) continue;
      const m = this.ck.p.checker.getSymbolAtLocation(f);
      const e = m && this.ck.p.checker.getExportsOfModule(m).find((x) => x.name === name);
      if (!e) continue;
      let sym = e;
      while (sym.flags & L.ts.SymbolFlags.Alias) sym = this.ck.p.checker.getAliasedSymbol(sym);
      return this.I.evalGlobalSym(s, c, sym, name);
    }
    throw new L.Anchor('export ' + name);
  }
  globalObject() { return term('global', ['globalThis'], {}); }
  area(v) {
    const p = pathStr(v);
    if (/(^|\.)localStorage$/.test(p)) return 'local';
    if (/(^|\.)sessionStorage$/.test(p)) return 'session';
  }
  stored(s, area, key) { const e = s.heap.get('W:' + area).entries.find((x) => x.k === key); return e && e.v; }
  setStored(s, area, key, v) {
    const r = s.clone();
    const o = r.heap.get('W:' + area);
    r.wHeap().set('W:' + area, { ...o, entries: [...o.entries.filter((e) => e.k !== key), ...(v ? [{ t: 'p', k: key, v }] : [])] });
    return r;
  }
  storedKeys(s, area) { return s.heap.get('W:' + area).entries.map((e) => (typeof e.k === 'string' ? e.k : '?')); }
  throwIn(s, ctx, name, node) { ctx.throws.push({ s, v: term('err', [name, String(ctx.throws.length)], { mask: X, from: name, host: true }), node }); return []; }
  host(s, ctx, info) {
    const { name, args, recv, node } = info;
    const I = this.I;
    let m = /^Storage\.(getItem|setItem|removeItem)$/.exec(name || '') || /\.(getItem|setItem|removeItem)$/.exec(name || '');
    if (m && recv) {
      const area = this.area(recv);
      if (!area) return undefined;
      const k = I.constOf(s, args[0]) || args[0];
      const key = k && k.k === 'c' ? String(k.v) : undefined;
      if (this.wcfg.storage && this.wcfg.storage(m[1], area, key, s) === 'throw') return this.throwIn(s, ctx, 'Storage.' + m[1], node);
      if (key === undefined) return undefined;
      if (m[1] === 'getItem') { const v = this.stored(s, area, key); return [[s, v || NULL]]; }
      let r = I.emit(s, ctx, { name: 'Storage.' + m[1], recv, args, node });
      r = this.setStored(r, area, key, m[1] === 'setItem' ? args[1] : undefined);
      return [[r, UNDEF]];
    }
    if (name === 'JSON.stringify') { const j = this.stringify(s, args[0]); return j && [[j[0], j[1]]]; }
    if (name === 'JSON.parse') return this.parse(s, ctx, args[0], node);
    if (this.wcfg.netNames && this.wcfg.netNames.includes(name)) {
      const r = I.emit(s, ctx, { name, recv, args, node });
      const out = [];
      for (const [x, v, k] of this.wcfg.net(this, r, name, args, ctx)) {
        if (k === 'throw') out.push([x, term('rejected', [v], { mask: X, node })]);
        else out.push([x, term('resolved', [v], { mask: X })]);
      }
      return out;
    }
    return undefined;
  }
  stringify(s, v) {
    const t = this.tree(s, v);
    if (!t) return undefined;
    const plain = (x) => ('c' in x ? true : x.p ? Object.values(x.p).every(plain) : x.a ? x.a.every(plain) : false);
    const js = (x) => ('c' in x ? x.c : x.a ? x.a.map(js) : Object.fromEntries(Object.entries(x.p).map(([k, y]) => [k, js(y)])));
    if (plain(t)) { const r = JSON.stringify(js(t)); return [s, C(r)]; }
    const key = (x) => ('c' in x ? JSON.stringify(x.c) ?? 'undefined' : x.a ? '[' + x.a.map(key) + ']' : x.p ? '{' + Object.entries(x.p).map(([k, y]) => k + ':' + key(y)) + '}' : '#' + x.t.id);
    const r = s.clone();
    const loc = 'json:' + key(t);
    this.build(r, t, loc);
    return [r, term('json', [O(loc)], { mask: S })];
  }
  build(r, t, loc) {
    const self = this;
    let n = 0;
    const mk = (x, l) => {
      if ('c' in x) return C(x.c);
      if (x.t) return x.t;
      if (x.a) return self.I.newObj(r, l, { kind: 'arr', entries: [], elems: x.a.map((y) => ('c' in y && y.c === undefined ? NULL : mk(y, loc + '/' + ++n))), dyn: [] });
      return self.I.newObj(r, l, { kind: 'obj', entries: Object.entries(x.p).filter(([, y]) => !('c' in y && y.c === undefined)).map(([k, y]) => ({ t: 'p', k, v: mk(y, loc + '/' + ++n) })) });
    };
    return mk(t, loc);
  }
  parse(s, ctx, v, node) {
    const c = (v && v.k === 't' && this.I.constOf(s, v)) || v || UNDEF;
    if (c.k === 'c') {
      let js;
      try { js = JSON.parse(c.v === undefined ? 'undefined' : c.v); } catch (e) { ctx.throws.push({ s, v: term('err', ['SyntaxError'], { mask: X, host: true }), node }); return []; }
      const r = s.clone();
      return [[r, this.val(r, js)]];
    }
    if (c.k === 't' && c.op === 'json') {
      const t = this.tree(s, c.args[0]);
      if (!t) return undefined;
      const r = s.clone();
      return [[r, this.build(r, t, 'parsed' + ++this.uid)]];
    }
    return undefined;
  }
  // ---- timers ----------------------------------------------------------------
  // live timers of a history: [{handle, fn, delay, kind}]
  timersOf(s) {
    const live = [];
    const ev = s.events();
    ev.forEach((e, i) => {
      if (e.name === 'setTimeout' || e.name === 'setInterval') live.push({ handle: e.handle || term('timer', [e.name, String(i + 1)], { mask: X }), fn: e.args[0], delay: e.args[1], kind: e.name, i });
      else if (e.name === 'clearTimeout' || e.name === 'clearInterval') { const j = live.findIndex((t) => t.handle === e.args[0]); if (j >= 0) live.splice(j, 1); }
      else if (e.name === 'fired') { const j = live.findIndex((t) => t.handle === e.args[0]); if (j >= 0) live.splice(j, 1); }
    });
    return live;
  }
  fire(s, t) {
    let r = s;
    if (t.kind === 'setTimeout') r = this.I.emit(s, this.ctx(), { name: 'fired', args: [t.handle], node: this.cls });
    return this.callValue(r, t.fn, []);
  }
}
module.exports = { World };
