'use strict';
// Abstract domain: hash-consed provenance terms, a kind lattice (which of the
// JS value classes a term may still be), a store of abstract objects, and
// abstract states with join.  Nothing here executes the analysed program.

// Kind lattice (bit set).
const U = 1, N = 2, F = 4, Z = 8, E = 16, T = 32, X = 64, S = 128;
// U undefined, N null, F false, Z 0/NaN, E '', T true, S non-empty string, X other truthy (objects, non-zero numbers)
const ALL = 255, TRUTHY = T | X | S, FALSY = U | N | F | Z | E;

const pool = new Map();
let nextId = 1;
function intern(key, mk) {
  let v = pool.get(key);
  if (!v) {
    v = mk();
    v.id = nextId++;
    pool.set(key, v);
  }
  return v;
}
const C = (v) => {
  const key =
    v === undefined ? 'c:u' : v === null ? 'c:n' : v instanceof RegExp ? 'c:r:' + v : 'c:' + typeof v + ':' + (Object.is(v, -0) ? '-0' : String(v));
  return intern(key, () => ({ k: 'c', v }));
};
const UNDEF = C(undefined), NULL = C(null), TRUE = C(true), FALSE = C(false);
const O = (loc) => intern('o:' + loc, () => ({ k: 'o', loc }));
const term = (op, args = [], meta) => {
  const key = 't:' + op + '|' + args.map((a) => (a && a.id !== undefined ? '#' + a.id : String(a))).join('|');
  return intern(key, () => ({ k: 't', op, args, meta: meta || {} }));
};
const FN = (node, scope, self, tag) =>
  intern('f:' + nodeKey(node) + ':' + scope + ':' + (self ? self.id : '-') + ':' + (tag || ''), () => ({ k: 'f', node, scope, self }));
const CLS = (decl) => intern('k:' + nodeKey(decl), () => ({ k: 'cls', decl }));
const BUILTIN = (name, data) =>
  intern('b:' + name + ':' + (data ? data.map((d) => d.id).join(',') : ''), () => ({ k: 'b', name, data }));

let nodeIds = new WeakMap(), nodeCnt = 0;
function nodeKey(n) {
  let i = nodeIds.get(n);
  if (i === undefined) nodeIds.set(n, (i = ++nodeCnt));
  return i;
}

const isC = (v) => v.k === 'c';
const constKind = (v) =>
  v === undefined ? U : v === null ? N : v === false ? F : v === true ? T : v === '' ? E : typeof v === 'string' ? S : v === 0 || (typeof v === 'number' && isNaN(v)) ? Z : X;

function not(t) {
  if (t.k === 'c') return C(!t.v);
  if (t.k !== 't') return FALSE;
  if (t.op === 'not') return t.args[0].meta.bool || isBoolOp(t.args[0]) ? t.args[0] : term('not', [t]);
  return term('not', [t]);
}
const isBoolOp = (t) => t.k === 't' && /^(not|eq|looseeq|lt|instanceof|in|has)$/.test(t.op);

// ---- state -----------------------------------------------------------------
class State {
  constructor() {
    this.scopes = new Map();
    this.heap = new Map();
    this.facts = new Map();
    this.trace = null; // linked list {ev, prev, n}
    this.epoch = '';
    this.det = false; // past an await of a call nobody waits for
    this.own = 7;
  }
  clone() {
    const s = new State();
    s.scopes = this.scopes;
    s.heap = this.heap;
    s.facts = this.facts;
    s.trace = this.trace;
    s.epoch = this.epoch;
    s.det = this.det;
    this.own = 0;
    s.own = 0;
    return s;
  }
  wScopes() {
    if (!(this.own & 1)) { this.scopes = new Map(this.scopes); this.own |= 1; }
    return this.scopes;
  }
  wHeap() {
    if (!(this.own & 2)) { this.heap = new Map(this.heap); this.own |= 2; }
    return this.heap;
  }
  wFacts() {
    if (!(this.own & 4)) { this.facts = new Map(this.facts); this.own |= 4; }
    return this.facts;
  }
  // scopes are immutable records {parent, vars(Map), captured}
  setVar(scope, name, v) {
    const sc = this.scopes.get(scope);
    const vars = new Map(sc.vars);
    vars.set(name, v);
    this.wScopes().set(scope, { ...sc, vars });
  }
  lookup(scope, name) {
    for (let s = scope; s !== null && s !== undefined; ) {
      const sc = this.scopes.get(s);
      if (!sc) return undefined;
      if (sc.vars.has(name)) return s;
      s = sc.parent;
    }
    return undefined;
  }
  push(ev) {
    // a loop iteration's event is recorded once: the history is a summary
    if (ev.loop) for (let t = this.trace; t; t = t.prev) if (t.ev.key === ev.key) return;
    this.trace = { ev, prev: this.trace, n: this.trace ? this.trace.n + 1 : 1, h: (this.trace ? this.trace.h : '') + '/' + ev.key };
  }
  events() {
    const out = [];
    for (let t = this.trace; t; t = t.prev) out.push(t.ev);
    return out.reverse();
  }
  objKey(o) {
    return (
      o.kind + ';' + (o.epoch || '') + ';' + (o.ver || '') + ';' +
      o.entries.map((e) => e.t + (e.k !== undefined ? (e.k.id !== undefined ? '#' + e.k.id : e.k) : '') + '=' + (e.v ? e.v.id : '')).join(',') +
      ';' + (o.elems ? o.elems.map((e) => e.id).join(',') : '') + ';' + (o.dyn ? o.dyn.map((e) => e.id).join(',') : '')
    );
  }
  key() {
    let k = this.epoch + (this.det ? 'D' : '') + '!' + (this.trace ? this.trace.h : '') + '!';
    const ids = [...this.scopes.keys()].sort((a, b) => (a < b ? -1 : 1));
    for (const i of ids) {
      const sc = this.scopes.get(i);
      k += i + '{';
      for (const [n, v] of sc.vars) k += n + ':' + v.id + ',';
      k += '}';
    }
    k += '!';
    const hs = [...this.heap.keys()].sort();
    for (const h of hs) k += h + '[' + this.objKey(this.heap.get(h)) + ']';
    return k;
  }
}
function joinFacts(a, b) {
  const out = new Map();
  for (const [id, fa] of a) {
    const fb = b.get(id);
    if (!fb) continue;
    if (fa === fb) { out.set(id, fa); continue; }
    const mask = fa.mask | fb.mask;
    const eq = fa.eq && fb.eq && fa.eq === fb.eq ? fa.eq : undefined;
    const ne = fa.ne && fb.ne ? fa.ne.filter((x) => fb.ne.includes(x)) : undefined;
    // a constant equal in one side and excluded-compatible in the other is dropped
    if (mask !== fa.full || eq || (ne && ne.length)) out.set(id, { term: fa.term, full: fa.full, mask, eq, ne: ne && ne.length ? ne : undefined });
  }
  return out;
}

module.exports = {
  U, N, F, Z, E, T, X, S, ALL, TRUTHY, FALSY, C, UNDEF, NULL, TRUE, FALSE, O, term, FN, CLS, BUILTIN, isC, constKind, not, isBoolOp, State, joinFacts, nodeKey,
};
