'use strict';
// The modelled page of the web experiment tag: concrete clock and timers,
// cookie jar, page listeners and the module state of the consent gate.
const L = require('../engine/lib');
const { World } = require('./world');
const { D, C, term, pathStr, UNDEF } = L;
const { X, S } = D;

class TagWorld extends World {
  /* cfg.cookieBlocked: (s) -> true when the browser drops cookie writes */
  constructor(ck, anchor, hint, cfg = {}) {
    let W;
    const user = cfg.model, pr = cfg.propRead, pw = cfg.propWrite;
    super(ck, anchor, hint, {
      smallSize: Infinity, unroll: 700, ...cfg,
      globals: ['document', 'location', 'crypto', 'history', ...(cfg.globals || [])],
      events: ['listen', 'unlisten', 'cookie', ...(cfg.events || [])],
      model: (I, s, ctx, info, w) => (user && user(I, s, ctx, info, w)) || W.page(s, ctx, info),
      propRead: (I, s, ctx, base, key, node) => (pr && pr(I, s, ctx, base, key, node)) || W.read(s, ctx, base, key),
      propWrite: (I, s, ctx, base, key, v, node) => (pw && pw(I, s, ctx, base, key, v, node)) || W.write(s, ctx, base, key, v, node),
    });
    W = this;
    this.now = 1e12;
    this.ids = 0;
  }
  start() {
    let s = super.start();
    for (const k of ['document', 'location', 'history', 'crypto', 'window', 'navigator']) s = this.I.refine(s, term('global', [k]), X) || s;
    const uuid = term('typeof', [L.prop(this.I, s, L.prop(this.I, s, term('global', ['globalThis']), 'crypto'), 'randomUUID')]);
    const [known] = this.I.split(s, this.I.eqTerm(s, uuid, C('function'), false));
    s = (known || s).clone();
    s.wHeap().set('W:cookie', { kind: 'obj', entries: [] });
    s.wHeap().set('W:page', { kind: 'obj', entries: [{ t: 'p', k: 'hostname', v: C('www.example.com') }, { t: 'p', k: 'protocol', v: C('https:') }, { t: 'p', k: 'origin', v: C('https://www.example.com') }, { t: 'p', k: 'href', v: C('https://www.example.com/a') }, { t: 'p', k: 'visibilityState', v: C('visible') }] });
    return s;
  }
  isDoc(v) { return v.k === 't' && /(^|\.)document$/.test(pathStr(v)); }
  isLoc(v) { return v.k === 't' && /(^|\.)location$/.test(pathStr(v)); }
  pageProp(s, k) { const e = s.heap.get('W:page').entries.find((x) => x.k === k); return e && e.v; }
  setPage(s, k, v) { const r = s.clone(), o = r.heap.get('W:page'); r.wHeap().set('W:page', { ...o, entries: [...o.entries.filter((e) => e.k !== k), { t: 'p', k, v: C(v) }] }); return r; }
  cookie(s, k) { const e = s.heap.get('W:cookie').entries.find((x) => x.k === k); return e && e.v; }
  cookieKeys(s) { return s.heap.get('W:cookie').entries.map((e) => e.k); }
  setCookie(s, k, v) {
    const r = s.clone(), o = r.heap.get('W:cookie');
    r.wHeap().set('W:cookie', { ...o, entries: [...o.entries.filter((e) => e.k !== k), ...(v === undefined ? [] : [{ t: 'p', k, v: typeof v === 'object' ? v : C(v) }])] });
    return r;
  }
  read(s, ctx, base, key) {
    if (key === 'cookie' && this.isDoc(base)) {
      const l = s.heap.get('W:cookie').entries;
      // analytics-core stores values as base64 of the encoded JSON
      const raw = (v) => { if (v.k === 'c') return v.v; const j = this.stringify(s, v); return j && j[1].k === 'c' ? Buffer.from(encodeURIComponent(j[1].v)).toString('base64') : undefined; };
      if (l.some((e) => e.v.k !== 'c')) { const vs = l.map((e) => raw(e.v)); if (vs.every((x) => x !== undefined)) return [[s, C(l.map((e, i) => `${e.k}=${vs[i]}`).join('; '))]]; }
      if (l.every((e) => e.v.k === 'c')) return [[s, C(l.map((e) => `${e.k}=${e.v.v}`).join('; '))]];
      return undefined;
    }
    if (key === 'visibilityState' && this.isDoc(base)) return [[s, this.pageProp(s, key)]];
    if (this.isLoc(base) && this.pageProp(s, key)) return [[s, this.pageProp(s, key)]];
  }
  write(s, ctx, base, key, v, node) {
    if (!(key.k === 'c' && key.v === 'cookie' && this.isDoc(base))) return undefined;
    const c = this.I.constOf(s, v) || v;
    const r = this.I.emit(s, ctx, { name: 'cookie', args: [v], node });
    if (c.k !== 'c' || (this.wcfg.cookieBlocked && this.wcfg.cookieBlocked(s, c.v))) return [r];
    const [pair, ...attrs] = String(c.v).split(';').map((x) => x.trim());
    const eq = pair.indexOf('=');
    const k = eq < 0 ? pair : pair.slice(0, eq), val = eq < 0 ? '' : pair.slice(eq + 1);
    const dead = attrs.some((a) => { const [n, x] = a.split('='); return (/^expires$/i.test(n) && new Date(x).getTime() <= this.now) || (/^max-age$/i.test(n) && Number(x) <= 0); });
    return [this.setCookie(r, k, dead ? undefined : val)];
  }
  page(s, ctx, info) {
    const n = info.name || '', I = this.I;
    if (n === 'Date.now') return [[s, C(this.now)]];
    if (n === 'Math.random') return [[s, C(((++this.ids * 0.6180339887) % 1) || 0.5)]];
    if (/(^|\.)randomUUID$/.test(n)) return [[s, C('uuid-' + ++this.ids)]];
    const k = /(?:^|\.)(setInterval|setTimeout)$/.exec(n);
    if (k) {
      const r = I.emit(s, ctx, { name: k[1], args: info.args, node: info.node, time: this.now });
      const h = term('timer', [k[1], String(r.trace ? r.trace.n : 0)], { mask: X });
      return [[r, h]];
    }
    const l = /(?:^|\.)(add|remove)EventListener$/.exec(n);
    if (l && info.recv) return [[I.emit(s, ctx, { name: l[1] === 'add' ? 'listen' : 'unlisten', args: info.args, recv: info.recv, node: info.node }), UNDEF]];
    if (n === 'new CookieStorage') {
      const r = s.clone();
      return [[r, this.val(r, { get: this.sym('cookieGet', X), set: this.sym('cookieSet', X), remove: this.sym('cookieRemove', X) })]];
    }
    const c = /^callback:cookie(Get|Set|Remove)$/.exec(n);
    if (c) {
      const key = I.constOf(s, info.args[0]);
      const ok = (x, v) => [[x, term('resolved', [v], { mask: X })]];
      if (!key || key.k !== 'c') return undefined;
      if (c[1] === 'Get') return ok(s, this.cookie(s, key.v) || UNDEF);
      const r = I.emit(s, ctx, { name: 'cookie', args: [key, c[1] === 'Set' ? info.args[1] : UNDEF], node: info.node });
      if (this.wcfg.cookieBlocked && this.wcfg.cookieBlocked(s, key.v)) return [[r, term('rejected', [term('err', ['cookie'], { mask: X })], { mask: X, node: info.node })]];
      return ok(this.setCookie(r, key.v, c[1] === 'Set' ? info.args[1] : undefined), UNDEF);
    }
    if (/(^|\.)isDomainWritable$/.test(n)) return [[s, term('resolved', [C(true)], { mask: X })]];
  }
  // listeners of an event type registered and not removed
  listeners(s, type) {
    const live = [];
    for (const e of s.events()) {
      if (e.name === 'listen' && e.args[0].v === type) live.push(e);
      else if (e.name === 'unlisten' && e.args[0].v === type) { const i = live.findIndex((x) => x.args[1] === e.args[1]); if (i >= 0) live.splice(i, 1); }
    }
    return live;
  }
  dispatch(s, type, args = []) {
    let list = [{ s, kind: 'ret', v: UNDEF }];
    for (const e of this.listeners(s, type)) list = list.flatMap((o) => (o.kind === 'ret' ? this.callValue(o.s, e.args[1], args) : [o]));
    return list;
  }
  // timers with their due times
  due(s) {
    const live = [];
    s.events().forEach((e) => {
      if (e.name === 'setTimeout' || e.name === 'setInterval') live.push({ n: e.handleN, e, kind: e.name, fn: e.args[0], at: e.time + Number(e.args[1] && e.args[1].k === 'c' ? e.args[1].v || 0 : 0), every: Number(e.args[1] && e.args[1].k === 'c' ? e.args[1].v || 0 : 0) });
    });
    const ev = s.events();
    let n = 0;
    const byIndex = new Map();
    ev.forEach((e, i) => { if (e.name === 'setTimeout' || e.name === 'setInterval') byIndex.set(`${e.name}:${i + 1}`, live[n++]); });
    const dead = new Set();
    for (const e of ev) {
      const h = e.args && e.args[0];
      if ((e.name === 'clearTimeout' || e.name === 'clearInterval') && h && h.k === 't' && h.op === 'timer') { const t = byIndex.get(`${h.args[0]}:${h.args[1]}`); if (t) dead.add(t); }
      if (e.name === 'fired') { const t = byIndex.get(`${h.args[0]}:${h.args[1]}`); if (t && t.kind === 'setTimeout') dead.add(t); else if (t) t.at = e.time + t.every; }
    }
    for (const [k, t] of byIndex) { const [a, b] = k.split(':'); t.handle = term('timer', [a, b], { mask: X }); }
    return live.filter((t) => !dead.has(t));
  }
  // let time pass; timers fire in order
  advance(s, ms) {
    const end = this.now + ms;
    let list = [{ s, kind: 'ret', v: UNDEF, t: this.now }];
    const done = [];
    for (let guard = 0; list.length && guard < 500; guard++) {
      const next = [];
      for (const o of list) {
        if (o.kind !== 'ret') { done.push(o); continue; }
        const t = this.due(o.s).filter((x) => x.at <= end).sort((a, b) => a.at - b.at)[0];
        if (!t) { done.push(o); continue; }
        this.now = Math.max(o.t, t.at);
        const r = this.I.emit(o.s, this.ctx(), { name: 'fired', args: [t.handle], node: this.cls, time: this.now });
        for (const p of this.callValue(r, t.fn, [])) next.push({ ...p, t: this.now });
      }
      list = next;
    }
    this.now = end;
    return done;
  }
  // ---- consent -----------------------------------------------------------------
  gate(s) { return this.exported(s, 'consentGate', 'consent/consent-gate'); }
  require(s, flag = true) { return this.gate(s).map(([x, g]) => this.set(x, g, 'required', flag)); }
  consent(s, status) { return this.gate(s).flatMap(([x, g]) => this.invoke(x, this.get(x, g, 'manager'), 'setStatus', [C(status)])); }
}
module.exports = { TagWorld };
