'use strict';
// Check harness: obligations, violations, evidence, known findings.
const fs = require('fs');
const path = require('path');
const E = require('./index');
const { ts, getProgram, D, Interp, show, showFacts, showEv } = E;
const { U, N, F, Z, T, X, S, ALL, C, UNDEF, NULL, term } = D;
const NULLISH = U | N;

class Anchor extends Error {}

class Check {
  constructor(id, tier) {
    this.id = id;
    this.tier = tier;
    this.p = getProgram();
    this.rules = new Map(); // rule -> {n, ok}
    this.violations = [];
    this.interps = [];
    this.entries = new Set();
    this.notes = [];
  }
  get thorough() { return this.tier === 'thorough'; }
  fn(name, hint) {
    const f = this.p.findFn(name, hint);
    if (!f) throw new Anchor('anchor not found: ' + name + (hint ? ' in ' + hint : ''));
    this.entries.add(name);
    return f;
  }
  cls(name, hint) {
    const c = this.p.findClass(name, hint);
    if (!c) throw new Anchor('class not found: ' + name);
    return c;
  }
  interp(cfg) {
    const I = new Interp({ maxStates: 6000, joinAt: 4000, ...cfg });
    this.interps.push(I);
    return I;
  }
  rule(name) {
    if (!this.rules.has(name)) this.rules.set(name, { n: 0, ok: 0 });
    return this.rules.get(name);
  }
  // one obligation of a rule; key identifies the construct independent of line numbers
  ob(rule, ok, info) {
    const r = this.rule(rule);
    r.n++;
    if (ok) { r.ok++; return true; }
    const i = typeof info === 'function' ? info() : info || {};
    const v = { rule, at: i.at || '', what: i.what || '', key: rule + '|' + (i.key || ''), detail: i.detail };
    if (!this.violations.some((w) => w.key === v.key && w.at === v.at)) this.violations.push(v);
    return false;
  }
  // a rule must have found at least n instances
  atLeast(rule, n, what) {
    const r = this.rule(rule);
    if (r.n < n) this.ob(rule + ' [instances]', false, { what: `expected at least ${n} instances of "${rule}", found ${r.n}${what ? ': ' + what : ''}`, key: 'floor' });
    else this.rule(rule + ' [instances]').n++, this.rule(rule + ' [instances]').ok++;
  }
  loc(n) { return n ? this.p.loc(n) : ''; }
}

// ------------------------------------------------------------- queries ------
// value derives from something satisfying pred (looks through objects)
function derives(s, v, pred, seen = new Set(), depth = 0) {
  if (!v || !v.k || depth > 40) return false;
  if (seen.has(v.id)) return false;
  seen.add(v.id);
  if (pred(v)) return true;
  if (v.k === 't') return v.args.some((a) => a && a.k && a.op !== 'sk' && derives(s, a, pred, seen, depth + 1));
  if (v.k === 'o') {
    const o = s.heap.get(v.loc);
    if (!o) return false;
    return o.entries.some((e) => (e.v && derives(s, e.v, pred, seen, depth + 1)) || (e.k && e.k.k && derives(s, e.k, pred, seen, depth + 1))) || [...(o.elems || []), ...(o.dyn || [])].some((e) => derives(s, e, pred, seen, depth + 1));
  }
  if (v.k === 'b') return (v.data || []).some((e) => derives(s, e, pred, seen, depth + 1));
  return false;
}
const isGet = (v, key, base) => v && v.k === 't' && v.op === 'get' && (key === undefined || (key instanceof RegExp ? typeof v.args[1] === 'string' && key.test(v.args[1]) : key && key.k ? v.args[1] === key : v.args[1] === key)) && (!base || (typeof base === 'function' ? base(v.args[0]) : v.args[0] === base));
const isCall = (v, name) => v && v.k === 't' && v.op === 'call' && (name instanceof RegExp ? name.test(v.args[0]) : v.args[0] === name);
const isIn = (v, n) => v && v.k === 't' && v.op === 'in' && (n === undefined || v.args[0] === n || v.args[1] === String(n));
// get path: path(v) -> ['this','config','source'] or null
function pathOf(v) {
  if (!v || v.k !== 't') return null;
  if (v.op === 'this') return ['this'];
  if (v.op === 'in') return ['$' + v.args[0]];
  if (v.op === 'global') return [v.args[0]];
  if (v.op === 'get' && typeof v.args[1] === 'string') {
    const b = pathOf(v.args[0]);
    return b && [...b, v.args[1]];
  }
  return null;
}
const pathStr = (v) => { const p = pathOf(v); return p ? p.join('.') : ''; };
// the value of a constant-key property of any value, evaluated without effects
function prop(I, s, v, key) {
  const ctx = I.ctx0();
  const r = I.readProp(s, ctx, v, key);
  return r.length === 1 ? r[0][1] : r.length ? I.oneOf(s, r.map((x) => x[1])) : undefined;
}
// the outcome an awaiting caller sees: async returns are unwrapped, rejections become throws
function settle(o) {
  if (o.kind === 'ret' && o.v && o.v.k === 't' && o.v.op === 'resolved') return { ...o, v: o.v.args[0] };
  if (o.kind === 'ret' && o.v && o.v.k === 't' && o.v.op === 'rejected') return { ...o, kind: 'throw', v: o.v.args[0] };
  return o;
}
const mayBe = (I, s, v, m) => !!(I.maskOf(s, v) & m);
const isNullish = (I, s, v) => !(I.maskOf(s, v) & ~NULLISH);
const notNullish = (I, s, v) => !(I.maskOf(s, v) & NULLISH);
const isTruthy = (I, s, v) => !(I.maskOf(s, v) & D.FALSY);
const isFalsy = (I, s, v) => !(I.maskOf(s, v) & D.TRUTHY);

module.exports = { ...E, C, U, N, F, T, X, UNDEF, NULL, term, ALL, Check, Anchor, settle, derives, isGet, isCall, isIn, pathOf, pathStr, prop, mayBe, isNullish, notNullish, isTruthy, isFalsy, NULLISH };
