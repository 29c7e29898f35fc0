'use strict';
// Interprocedural abstract interpreter (path-partitioned dataflow with joins)
// over the type-checked TypeScript syntax tree.
//   values   : provenance terms / abstract objects / closures (domain.js)
//   branches : decided by the kind lattice, otherwise both sides are analysed
//              and re-joined after the statement when stores and effect
//              histories agree
//   loops    : one generic iteration from a widened state (no unrolling unless
//              the collection is a literal)
//   calls    : resolved through the type checker and analysed in context
//              (no names are matched for repository callees)
const { ts, getProgram } = require('./program');
const D = require('./domain');
const { U, N, F, Z, E, T, X, S, ALL, TRUTHY, FALSY, C, UNDEF, NULL, TRUE, FALSE, O, term, State, joinFacts, nodeKey, constKind } = D;

class Budget extends Error {}

class Interp {
  constructor(cfg = {}) {
    this.p = getProgram();
    this.checker = this.p.checker;
    this.cfg = Object.assign(
      {
        event: () => false, // (info) => record this external/opaque call in the effect history
        write: () => false, // (info) => record this property write
        opaque: () => false, // (name, decl) => treat repo function as a boundary
        mayThrow: () => false, // (info) => an exception may escape this external call
        awaitMayThrow: () => true,
        globals: {}, // module-level variable overrides name -> (interp,state)=>value
        implementers: {}, // interface name -> class name
        smallSize: 350,
        maxDepth: 48,
        maxStates: 400,
        joinAt: 60,
        budget: 3e6,
        forceInline: () => false,
        havoc: true,
        model: null, // (interp, s, ctx, info) => list|undefined
        callbacks: true,
      },
      cfg,
    );
    this.log = [];
    this.steps = 0;
    this.fnsSeen = new Set();
    this.callSites = new Set();
    this.opaqueCalls = new Map();
    this.widened = 0;
    this.muted = 0;
    this._reach = new Map();
    this._size = new Map();
  }
  tick() {
    if (++this.steps > this.cfg.budget) throw new Budget('analysis budget exceeded');
  }
  // ---------------------------------------------------------------- facts ---
  typeMask(type) {
    if (!type) return ALL;
    const f = type.flags;
    if (f & (ts.TypeFlags.Any | ts.TypeFlags.Unknown | ts.TypeFlags.TypeParameter | ts.TypeFlags.Conditional | ts.TypeFlags.IndexedAccess)) return ALL;
    if (type.isUnion && type.isUnion()) return type.types.reduce((m, t) => m | this.typeMask(t), 0);
    let m = U | N;
    if (f & ts.TypeFlags.BooleanLike) m |= F | T;
    else if (f & ts.TypeFlags.StringLike) m |= E | S;
    else if (f & (ts.TypeFlags.NumberLike | ts.TypeFlags.BigIntLike)) m |= Z | X;
    else if (f & ts.TypeFlags.EnumLike) m |= ALL;
    else if (f & (ts.TypeFlags.Undefined | ts.TypeFlags.Null | ts.TypeFlags.Void)) m |= 0;
    else if (f & (ts.TypeFlags.Object | ts.TypeFlags.Intersection | ts.TypeFlags.NonPrimitive)) m |= X;
    else m |= ALL;
    return m;
  }
  defMask(t) {
    if (t.meta.mask) return t.meta.mask;
    switch (t.op) {
      case 'not': case 'eq': case 'looseeq': case 'lt': case 'instanceof': case 'in': case 'has':
        return F | T;
      case 'tmpl':
        return t.args.some((a) => a.k === 'c' && a.v !== '') ? S : E | S;
      case 'typeof': return S;
      case 'new': case 'global': return X;
      case 'keyof': return S | E;
    }
    return ALL;
  }
  maskOf(s, v) {
    if (v.k === 'c') return constKind(v.v);
    if (v.k !== 't') return X;
    const f = s.facts.get(v.id);
    return f ? f.mask : this.defMask(v);
  }
  refine(s, t, keep, eq, ne) {
    const old = s.facts.get(t.id);
    const full = this.defMask(t);
    let mask = (old ? old.mask : full) & keep;
    let feq = old && old.eq, fne = (old && old.ne) || undefined;
    if (eq) {
      if (feq && feq !== eq) return null;
      if (fne && fne.includes(eq)) return null;
      mask &= constKind(eq.v);
      feq = eq;
    }
    if (ne) {
      if (feq === ne) return null;
      const k = constKind(ne.v);
      if (k === U || k === N || k === F || k === T || k === E) mask &= ~k;
      else if (!fne || !fne.includes(ne)) fne = [...(fne || []), ne];
    }
    if (feq && !(mask & constKind(feq.v))) return null;
    if (!mask) return null;
    const r = s.clone();
    r.wFacts().set(t.id, { term: t, full, mask, eq: feq, ne: fne });
    if (t.op === 'get' && !(mask & (U | N)) && t.args[0].k === 't') {
      const b = t.args[0];
      if (this.maskOf(r, b) & (U | N)) return this.refine(r, b, ALL & ~(U | N));
    }
    return r;
  }
  constOf(s, v) {
    if (v.k === 'c') return v;
    if (v.k === 't') {
      const f = s.facts.get(v.id);
      if (f && f.eq) return f.eq;
      const m = f ? f.mask : this.defMask(v);
      if (m === U) return UNDEF;
      if (m === N) return NULL;
      if (m === T) return TRUE;
      if (m === F) return FALSE;
    }
    return undefined;
  }
  // returns refined state or null when infeasible
  assume(s, v, truth) {
    if (v.k === 'c') return !!v.v === truth ? s : null;
    if (v.k !== 't') return truth ? s : null;
    if (v.op === 'not') return this.assume(s, v.args[0], !truth);
    if (v.op === 'eq' || v.op === 'looseeq') {
      let [a, b] = v.args;
      if (a.k === 'c' && b.k !== 'c') [a, b] = [b, a];
      if (a.k === 't' && b.k === 'c') {
        if (v.op === 'looseeq' && (b.v === null || b.v === undefined)) {
          return this.refine(s, a, truth ? U | N : ALL & ~(U | N));
        }
        if (v.op === 'eq' || typeof b.v === 'string' || typeof b.v === 'number') {
          if (a.op === 'typeof') return this.assumeTypeof(s, a, b, truth);
          return truth ? this.refine(s, a, ALL, b) : this.refine(s, a, ALL, undefined, b);
        }
      }
    }
    return this.refine(s, v, truth ? TRUTHY : FALSY);
  }
  assumeTypeof(s, ty, c, truth) {
    const inner = ty.args[0];
    const kinds = { string: E | S, number: Z | X, boolean: F | T, undefined: U, object: N | X, function: X, symbol: X, bigint: X | Z }[c.v];
    const exact = { string: 1, boolean: 1, undefined: 1 }[c.v];
    let r = truth ? this.refine(s, ty, ALL, c) : this.refine(s, ty, ALL, undefined, c);
    if (!r || inner.k !== 't' || kinds === undefined) return r;
    if (truth) return this.refine(r, inner, kinds);
    if (exact) return this.refine(r, inner, ALL & ~kinds);
    return r;
  }
  // split on truthiness: [[trueStates],[falseStates]]
  split(s, v) {
    return [this.assume(s, v, true), this.assume(s, v, false)];
  }
  splitNullish(s, v) {
    // [nullish state, non-nullish state]
    const m = this.maskOf(s, v);
    if (!(m & (U | N))) return [null, s];
    if (!(m & ~(U | N))) return [s, null];
    return [this.refine(s, v, U | N), this.refine(s, v, ALL & ~(U | N))];
  }
  decide(s, v) {
    const m = this.maskOf(s, v);
    if (!(m & FALSY)) return true;
    if (!(m & TRUTHY)) return false;
    return undefined;
  }
  eqTerm(s, a, b, loose) {
    const ca = this.constOf(s, a), cb = this.constOf(s, b);
    if (ca && cb && !(ca.v instanceof RegExp)) return C(loose ? ca.v == cb.v : ca.v === cb.v);
    if (a === b && a.k !== 'c') return TRUE;
    // typeof x === 'undefined' is x === undefined
    if (a.k === 't' && a.op === 'typeof' && cb && cb.v === 'undefined') return this.eqTerm(s, a.args[0], UNDEF, false);
    if (b.k === 't' && b.op === 'typeof' && ca && ca.v === 'undefined') return this.eqTerm(s, b.args[0], UNDEF, false);
    const ma = this.maskOf(s, a), mb = this.maskOf(s, b);
    if (!loose && !(ma & mb)) return FALSE;
    if (!loose && (a.k === 'o' || a.k === 'f' || a.k === 'cls') && (b.k === 'o' || b.k === 'f' || b.k === 'cls')) return FALSE;
    if (!loose && (a.k === 'o' || b.k === 'o')) {
      const x = a.k === 'o' ? b : a;
      if (x.k === 'c') return FALSE;
    }
    if (loose && ((ca && (ca.v === null || ca.v === undefined)) || (cb && (cb.v === null || cb.v === undefined)))) {
      const x = ca && (ca.v === null || ca.v === undefined) ? b : a;
      const m = this.maskOf(s, x);
      if (!(m & (U | N))) return FALSE;
      if (!(m & ~(U | N))) return TRUE;
      return term('looseeq', [x, NULL]);
    }
    const nat = (v) => v.k === 't' && (v.op === 'len' || (v.op === 'lv' && v.args[1] === '#i'));
    if (!loose && ((ca && typeof ca.v === 'number' && ca.v < 0 && nat(b)) || (cb && typeof cb.v === 'number' && cb.v < 0 && nat(a)))) return FALSE;
    if (ca && a.k === 't') a = ca;
    if (cb && b.k === 't') b = cb;
    if (a.k === 't' && b.k === 'c') {
      const f = s.facts.get(a.id);
      if (f && f.ne && f.ne.includes(b)) return FALSE;
    }
    if (b.k === 't' && a.k === 'c') {
      const f = s.facts.get(b.id);
      if (f && f.ne && f.ne.includes(a)) return FALSE;
    }
    const [x, y] = a.id < b.id ? [a, b] : [b, a];
    return term(loose ? 'looseeq' : 'eq', [x, y]);
  }
  // ------------------------------------------------------------- merging ---
  // trace partitioning: states that disagree on a watched term stay apart
  partKey(s) {
    const w = this.cfg.watch;
    if (!w) return '';
    let k = '';
    if (!this._watch) this._watch = new Map();
    for (const [id, f] of s.facts) {
      let b = this._watch.get(id);
      if (b === undefined) this._watch.set(id, (b = !!w(f.term)));
      if (b) k += id + ':' + (f.mask & (U | N) ? 1 : 0) + (f.mask & FALSY & ~(U | N) ? 2 : 0) + (f.mask & TRUTHY ? 4 : 0) + (f.eq && !(constKind(f.eq.v) & (U | N)) ? '=' + f.eq.id : '') + ',';
    }
    return k && k.split(',').sort().join(',') + '|';
  }
  merge(list) {
    if (list.length < 2) return list;
    const m = new Map();
    for (const s of list) {
      const k = this.partKey(s) + s.key();
      const o = m.get(k);
      if (o) {
        const r = o.clone();
        r.facts = joinFacts(o.facts, s.facts);
        r.own &= ~4;
        m.set(k, r);
      } else m.set(k, s);
    }
    let out = [...m.values()];
    if (out.length > this.cfg.joinAt) out = this.forceJoin(out.map((s) => ({ s, type: 'n' }))).map((o) => o.s);
    if (out.length > this.cfg.maxStates) throw new Budget('too many abstract states: ' + out.length);
    return out;
  }
  mergeOut(list, extra) {
    // list of {s, v, ...}: join entries whose store/history/value agree
    if (list.length < 2) return list;
    const m = new Map();
    for (const o of list) {
      const k = (extra ? extra(o) : '') + (o.v ? o.v.id : '') + '~' + this.partKey(o.s) + o.s.key();
      const q = m.get(k);
      if (q) {
        const r = q.s.clone();
        r.facts = joinFacts(q.s.facts, o.s.facts);
        r.own &= ~4;
        m.set(k, { ...q, s: r });
      } else m.set(k, o);
    }
    let out = [...m.values()];
    if (out.length > this.cfg.joinAt) out = this.forceJoin(out, extra);
    if (out.length > this.cfg.maxStates) throw new Budget('too many abstract outcomes: ' + out.length);
    return out;
  }
  // lossy join of many states: correlations between stores are given up
  oneOf(s, vals) {
    const flat = [];
    for (const v of vals) for (const x of v.k === 't' && v.op === 'oneof' ? v.args : [v]) if (!flat.includes(x)) flat.push(x);
    if (flat.length === 1) return flat[0];
    flat.sort((a, b) => a.id - b.id);
    const typed = flat.find((x) => x.meta && x.meta.type);
    return term('oneof', flat, { mask: flat.reduce((m, v) => m | this.maskOf(s, v), 0), type: typed && typed.meta.type });
  }
  forceJoin(list, extra) {
    this.joined = (this.joined || 0) + 1;
    const group = (byVal) => {
      const m = new Map();
      for (const o of list) {
        const k = this.partKey(o.s) + (extra ? extra(o) : '') + o.type + (o.label || '') + (o.s.trace ? o.s.trace.h : '') + (o.s.det ? 'D' : '') + (byVal && o.v ? o.v.id : '');
        if (!m.has(k)) m.set(k, []);
        m.get(k).push(o);
      }
      return m;
    };
    let g = group(true);
    if (g.size > this.cfg.joinAt) g = group(false);
    const out = [];
    for (const os of g.values()) {
      if (os.length === 1) { out.push(os[0]); continue; }
      const r = os[0].s.clone();
      for (const o of os.slice(1)) { r.facts = joinFacts(r.facts, o.s.facts); }
      r.own &= ~4;
      const epochs = new Set(os.map((o) => o.s.epoch));
      if (epochs.size > 1) r.epoch = [...epochs].sort().join('+').slice(0, 200);
      const ids = new Set(os.flatMap((o) => [...o.s.scopes.keys()]));
      for (const id of ids) {
        const scs = os.map((o) => o.s.scopes.get(id)).filter(Boolean);
        if (scs.every((x) => x === scs[0])) { if (!r.scopes.has(id)) r.wScopes().set(id, scs[0]); continue; }
        const vars = new Map();
        for (const n of new Set(scs.flatMap((x) => [...x.vars.keys()]))) {
          const vs = os.filter((o) => o.s.scopes.get(id) && o.s.scopes.get(id).vars.has(n)).map((o) => [o.s, o.s.scopes.get(id).vars.get(n)]);
          if (vs.every(([, v]) => v === vs[0][1])) vars.set(n, vs[0][1]);
          else {
            const v = this.oneOf(r, vs.map((x) => x[1]));
            if (v.op === 'oneof') v.meta.mask = vs.reduce((m, [st, x]) => m | this.maskOf(st, x), v.meta.mask & 0);
            vars.set(n, v);
          }
        }
        r.wScopes().set(id, { ...scs[0], captured: scs.some((x) => x.captured), vars });
      }
      const locs = new Set(os.flatMap((o) => [...o.s.heap.keys()]));
      for (const loc of locs) {
        const objs = os.map((o) => o.s.heap.get(loc));
        const has = objs.filter(Boolean);
        if (has.every((x) => x === has[0]) && (has.length === objs.length || !loc.startsWith('t:'))) { if (!r.heap.has(loc)) r.wHeap().set(loc, has[0]); continue; }
        const base = has[0];
        const missing = has.length < objs.length;
        const no = { ...base, entries: [] };
        if (base.kind === 'arr') {
          const same = has.every((x) => x.elems.length === base.elems.length && !x.dyn.length);
          if (same) no.elems = base.elems.map((_, i) => this.oneOf(r, has.map((x) => x.elems[i])));
          else { no.elems = []; no.dyn = [...new Set(has.flatMap((x) => [...x.elems, ...x.dyn]))]; }
        }
        const keys = new Map();
        has.forEach((x, i) => x.entries.forEach((e) => {
          const kk = e.t + ':' + (e.k && e.k.id !== undefined ? '#' + e.k.id : e.k) + (e.t === 's' ? e.v.id : '');
          if (!keys.has(kk)) keys.set(kk, { e, vs: [], n: 0 });
          const q = keys.get(kk);
          q.n++;
          if (e.v) q.vs.push(e.v);
        }));
        for (const { e, vs, n } of keys.values()) {
          const part = n < has.length || (missing && loc.startsWith('t:'));
          if (e.t === 'p') {
            const all = vs.slice();
            if (part) all.push(base.open ? this.getTerm(r, base.open, e.k) : UNDEF);
            no.entries.push({ ...e, v: this.oneOf(r, all) });
          } else if (e.t === 'x') { if (!part) no.entries.push(e); }
          else no.entries.push(e.v && vs.length ? { ...e, v: this.oneOf(r, vs) } : e);
        }
        r.wHeap().set(loc, no);
      }
      const vals = os.map((o) => o.v).filter(Boolean);
      out.push({ ...os[0], s: r, v: vals.length ? this.oneOf(r, vals) : os[0].v });
    }
    return out;
  }
  // ------------------------------------------------------------- events ----
  emit(s, ctx, ev) {
    ev.loop = ctx.loop || 0;
    ev.detached = !!ctx.detached || s.det;
    ev.stack = ctx.stack.map((f) => this.p.fnName(f));
    ev.loc = ev.node ? this.p.loc(ev.node) : '';
    ev.key = ev.name + '@' + (ev.node ? nodeKey(ev.node) : '') + '(' + (ev.recv ? ev.recv.id : '') + ';' + ev.args.map((a) => a.id).join(',') + ')' + (ev.loop ? 'L' : '') + (ev.detached ? 'D' : '');
    if (this.cfg.traceless) {
      // flow-insensitive recording: every effect is logged, none is kept in the path state
      if (!this.muted && !(this._logged || (this._logged = new Set())).has(ev.key)) { this._logged.add(ev.key); ev.facts = s.facts; this.log.push({ ev, state: s.clone() }); }
      return s;
    }
    const r = s.clone();
    r.own &= ~4;
    ev.facts = r.facts;
    r.push(ev);
    if (!this.muted) this.log.push({ ev, state: r });
    const r2 = r.clone();
    return r2;
  }
  // ------------------------------------------------------------- helpers ---
  size(node) {
    let n = this._size.get(node);
    if (n === undefined) {
      n = 0;
      const v = (x) => { n++; ts.forEachChild(x, v); };
      v(node);
      this._size.set(node, n);
    }
    return n;
  }
  mapStates(list, f) {
    const out = [];
    for (const [s, v] of list) { this.tick(); for (const r of f(s, v)) out.push(r); }
    return out;
  }
  newObj(s, loc, o) {
    s.wHeap().set(loc, { kind: 'obj', entries: [], ...o });
    return O(loc);
  }
  obj(s, v) {
    if (v.k === 'o') return s.heap.get(v.loc);
    if (v.k === 't' || v.k === 'cls' || v.k === 'f') return s.heap.get('t:' + v.id);
    return undefined;
  }
  ensureObj(s, v) {
    const loc = v.k === 'o' ? v.loc : 't:' + v.id;
    let o = s.heap.get(loc);
    if (!o) { o = { kind: 'open', entries: [], open: v }; s.wHeap().set(loc, o); }
    return [loc, o];
  }
  opaque(op, args, type, extra) {
    return term(op, args, { mask: this.typeMask(type), type, ...(extra || {}) });
  }
  clsOfType(type) {
    if (!type) return undefined;
    if (type.isUnion && type.isUnion()) {
      let r;
      for (const t of type.types) {
        if (t.flags & (ts.TypeFlags.Undefined | ts.TypeFlags.Null)) continue;
        const c = this.clsOfType(t);
        if (!c) return undefined;
        if (r && r !== c) return undefined;
        r = c;
      }
      return r;
    }
    const sym = type.symbol;
    if (!sym) return undefined;
    for (const d of sym.declarations || []) {
      if (ts.isClassDeclaration(d) && this.p.isRepo(d)) return d;
      if (ts.isInterfaceDeclaration(d) && this.cfg.implementers[d.name.text]) return this.p.findClass(this.cfg.implementers[d.name.text]);
    }
    return undefined;
  }
  clsOf(s, v, node) {
    const o = this.obj(s, v);
    if (o && o.cls) return o.cls;
    if (v.k === 't') {
      if (v.meta.cls) return v.meta.cls;
      const c = this.clsOfType(v.meta.type);
      if (c) return c;
    }
    return undefined;
  }
}
Interp.Budget = Budget;
module.exports = { Interp, Budget };
require('./expr');
require('./calls');
require('./stmt');
require('./methods');
