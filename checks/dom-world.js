'use strict';
// The modelled page with a concrete address, URL objects, history, elements
// and stylesheets, on top of the tag world.
const L = require('../engine/lib');
const { TagWorld } = require('./tag-world');
const { D, C, term, UNDEF, NULL, T } = L;
const { X } = D;
const URLP = ['href', 'origin', 'protocol', 'hostname', 'host', 'port', 'pathname', 'search', 'hash'];
const b64 = (s) => Buffer.from(s, 'latin1').toString('base64');

class DomWorld extends TagWorld {
  constructor(ck, anchor, hint, cfg = {}) {
    let W;
    const user = cfg.model, pr = cfg.propRead, pw = cfg.propWrite;
    super(ck, anchor, hint, {
      ...cfg,
      globals: ['requestAnimationFrame', 'DOMParser', 'MutationObserver', 'CSSStyleSheet', ...(cfg.globals || [])],
      events: ['navigate', 'history', 'append', 'detach', 'create', 'sheet', 'sheetText', 'post', ...(cfg.events || [])],
      model: (I, s, ctx, info, w) => (user && user(I, s, ctx, info, w)) || W.dom(s, ctx, info),
      propRead: (I, s, ctx, base, key, node) => (pr && pr(I, s, ctx, base, key, node)) || W.domRead(s, ctx, base, key),
      propWrite: (I, s, ctx, base, key, v, node) => (pw && pw(I, s, ctx, base, key, v, node)) || W.domWrite(s, ctx, base, key, v, node),
    });
    W = this;
  }
  start() {
    let s = super.start();
    s = this.I.refine(s, term('global', ['CSSStyleSheet']), X) || s;
    s = this.setPage(s, 'href', this.wcfg.href || 'https://www.example.com/');
    s = this.setPage(s, 'visibilityState', 'visible');
    s.wHeap().set('W:body', { kind: 'obj', entries: [{ t: 'p', k: '[[tag]]', v: C('body') }] });
    s.wHeap().set('W:head', { kind: 'obj', entries: [{ t: 'p', k: '[[tag]]', v: C('head') }] });
    s.wHeap().set('W:html', { kind: 'obj', entries: [{ t: 'p', k: '[[tag]]', v: C('html') }] });
    s.wHeap().set('W:sheets', { kind: 'arr', entries: [], elems: [], dyn: [] });
    for (const k of ['W:other', 'W:self']) s.wHeap().set(k, { kind: 'obj', entries: [{ t: 'p', k: '[[win]]', v: C(true) }] });
    return s;
  }
  href(s) { return this.pageProp(s, 'href').v; }
  own(s, v, k) { const o = v && v.k === 'o' && s.heap.get(v.loc); const e = o && o.entries && o.entries.find((x) => x.t === 'p' && x.k === k); return e && e.v; }
  put(r, v, k, x) { const o = r.heap.get(v.loc); r.wHeap().set(v.loc, { ...o, entries: [...o.entries.filter((e) => e.k !== k), { t: 'p', k, v: x }] }); }
  isHistory(v) { return v.k === 't' && /(^|\.)history$/.test(L.pathStr(v)); }
  domRead(s, ctx, base, key) {
    if (base.k === 'o') {
      const h = this.own(s, base, '[[href]]');
      if (h) {
        if (key === 'searchParams') return [[s, this.own(s, base, '[[params]]')]];
        if (URLP.includes(key)) return [[s, C(new URL(h.v)[key])]];
        if (key === 'toString' || key === 'toJSON') return [[s, this.sym('url.toString', X)]];
      }
      if (this.own(s, base, '[[of]]') && /^(get|getAll|has|set|append|delete|forEach|toString)$/.test(key)) return [[s, this.sym('usp.' + key, X)]];
      const tag = this.own(s, base, '[[tag]]');
      if (tag && !this.own(s, base, key)) {
        if (/^(appendChild|insertBefore|remove|removeChild|setAttribute|getAttribute|addEventListener|removeEventListener|querySelector|click|focus|append|prepend)$/.test(key)) return [[s, this.sym('elem.' + key, X)]];
        if (key === 'style' || key === 'dataset' || key === 'classList') { const r = s.clone(); const o = this.I.newObj(r, base.loc + '.' + key, { kind: 'obj', entries: [] }); this.put(r, base, key, o); return [[r, o]]; }
        if (key === 'contentWindow' && tag.v === 'iframe') return [[s, this.own(s, base, '[[parent]]') ? this.windowOf(base) : NULL]];
        if (key === 'isConnected') return [[s, C(!!this.own(s, base, '[[parent]]'))]];
        if (key === 'parentNode' || key === 'parentElement') return [[s, this.own(s, base, '[[parent]]') || NULL]];
        if (key === 'tagName') return [[s, C(tag.v.toUpperCase())]];
        if (key === 'id') return [[s, C('')]];
      }
      if (this.own(s, base, '[[sheet]]') && /^(replaceSync|insertRule)$/.test(key)) return [[s, this.sym('sheet.' + key, X)]];
      if (this.own(s, base, '[[win]]') && key === 'postMessage') return [[s, this.sym('win.postMessage', X)]];
    }
    if (this.isDoc(base)) {
      if (key === 'body') return [[s, this.noBody ? NULL : { ...D.O('W:body') }]];
      if (key === 'head' || key === 'documentElement') return [[s, D.O(key === 'head' ? 'W:head' : 'W:html')]];
      if (key === 'adoptedStyleSheets') return [[s, D.O('W:sheets')]];
      if (key === 'nodeType') return [[s, C(9)]];
      if (key === 'defaultView') return [[s, term('global', ['window'])]];
      if (key === 'readyState') return [[s, C('complete')]];
      if (key === 'location') return [[s, term('global', ['location'])]];
      if (key === 'hidden') return [[s, C(this.pageProp(s, 'visibilityState').v === 'hidden')]];
      if (key === 'referrer' || key === 'title') return [[s, this.pageProp(s, key) || C('')]];
    }
    if (key === 'CSSStyleSheet') return [[s, term('global', ['CSSStyleSheet'])]];
    if (key === 'DOCUMENT_NODE') return [[s, C(9)]];
    if (this.isLoc(base) && URLP.includes(key)) return [[s, C(new URL(this.href(s))[key])]];
  }
  windowOf(frame) { return D.O(frame.loc + '.window'); }
  domWrite(s, ctx, base, key, v, node) {
    if (key.k !== 'c') return undefined;
    const k = key.v;
    if (base.k === 'o') {
      const h = this.own(s, base, '[[href]]');
      if (h && URLP.includes(k)) {
        const c = this.I.constOf(s, v) || v;
        if (c.k !== 'c') return undefined;
        const u = new URL(h.v);
        u[k] = c.v;
        const r = s.clone();
        this.put(r, base, '[[href]]', C(u.href));
        return [r];
      }
    }
    if (this.isDoc(base) && k === 'adoptedStyleSheets') {
      const col = this.I.collection(s, v);
      const r = this.I.emit(s, ctx, { name: 'sheet', args: col.alts, node, time: this.now }).clone();
      r.wHeap().set('W:sheets', { kind: 'arr', entries: [], elems: col.alts, dyn: col.exact ? [] : [UNDEF] });
      return [r];
    }
    if (this.isLoc(base) && (k === 'href' || k === 'hash' || k === 'search')) return [this.I.emit(s, ctx, { name: 'navigate', args: [v, C(k)], node, time: this.now })];
    return undefined;
  }
  url(r, href) {
    const u = { kind: 'obj', entries: [{ t: 'p', k: '[[href]]', v: C(href) }] };
    const loc = 'url' + ++this.ids;
    r.wHeap().set(loc + '?', { kind: 'obj', entries: [{ t: 'p', k: '[[of]]', v: D.O(loc) }] });
    u.entries.push({ t: 'p', k: '[[params]]', v: D.O(loc + '?') });
    r.wHeap().set(loc, u);
    return D.O(loc);
  }
  str(s, v) { const c = v && (this.I.constOf(s, v) || (v.k === 'c' ? v : null)); if (c) return String(c.v); const h = v && this.own(s, v, '[[href]]'); return h ? h.v : undefined; }
  dom(s, ctx, info) {
    const n = info.name || '', I = this.I, a = info.args || [];
    if (n === 'Symbol.for' || /\.Symbol\.for$/.test(n)) { const k = this.str(s, a[0]); if (k !== undefined) return [[s, C('@@' + k)]]; }
    const str = (v) => this.str(s, v), last = /(?:^|[.])(\w+)$/.exec(n) ? /(?:^|[.])(\w+)$/.exec(n)[1] : '';
    if (n === 'new URL') {
      const x = str(a[0]), b = a[1] && a[1] !== UNDEF ? str(a[1]) : undefined;
      if (x === undefined || (a[1] && a[1] !== UNDEF && b === undefined)) return undefined;
      let u;
      try { u = new URL(x, b); } catch (e) { ctx.throws.push({ s, v: term('err', ['TypeError', 'Invalid URL'], { mask: X, host: true }), node: info.node }); return []; }
      const r = s.clone();
      return [[r, this.url(r, u.href)]];
    }
    if (n === 'new URLSearchParams') {
      const x = a[0] && a[0] !== UNDEF ? str(a[0]) : '';
      if (x === undefined) return undefined;
      const r = s.clone(), es = [];
      for (const [k, v] of new URLSearchParams(x)) { const i = es.findIndex((e) => e.k.v === k); if (i >= 0) es[i] = { t: 'd', k: C(k), v: C(v) }; else es.push({ t: 'd', k: C(k), v: C(v) }); }
      return [[r, I.newObj(r, 'usp' + ++this.ids, { kind: 'map', entries: es })]];
    }
    if (/^to(String|JSON)$/.test(last) && info.recv && this.own(s, info.recv, '[[href]]')) return [[s, this.own(s, info.recv, '[[href]]')]];
    const up = info.recv && info.recv.k === 'o' && this.own(s, info.recv, '[[of]]') && ['', last];
    if (up) {
      const of = this.own(s, info.recv, '[[of]]'), u = new URL(this.own(s, of, '[[href]]').v), k = a[0] && a[0].k !== 'f' ? str(a[0]) : undefined, v = a[1] && str(a[1]);
      switch (up[1]) {
        case 'get': return k === undefined ? undefined : [[s, C(u.searchParams.get(k))]];
        case 'has': return k === undefined ? undefined : [[s, C(u.searchParams.has(k))]];
        case 'toString': return [[s, C(u.searchParams.toString())]];
        case 'set': case 'append': case 'delete': {
          if (k === undefined || (up[1] !== 'delete' && v === undefined)) return undefined;
          u.searchParams[up[1]](k, ...(up[1] === 'delete' ? [] : [v]));
          const r = s.clone();
          this.put(r, of, '[[href]]', C(u.href));
          return [[r, UNDEF]];
        }
        case 'forEach': {
          let cur = [s];
          for (const [x, y] of u.searchParams) cur = cur.flatMap((q) => I.callValue(q, ctx, a[0], undefined, [C(y), C(x), info.recv], info.node).map(([z]) => z));
          return cur.map((q) => [q, UNDEF]);
        }
      }
    }
    if (n === 'btoa' || /\.btoa$/.test(n)) { const x = str(a[0]); if (x !== undefined) { if (/[^\0-\xff]/.test(x)) { ctx.throws.push({ s, v: term('err', ['InvalidCharacterError'], { mask: X, host: true }), node: info.node }); return []; } return [[s, C(b64(x))]]; } }
    if (n === 'atob' || /\.atob$/.test(n)) { const x = str(a[0]); if (x !== undefined) { let y; try { y = atob(x); } catch (e) { ctx.throws.push({ s, v: term('err', ['InvalidCharacterError'], { mask: X, host: true }), node: info.node }); return []; } return [[s, C(y)]]; } }
    if (/(^|\.)[lL]ocation\.(replace|assign|reload)$/.test(n)) {
      if (this.wcfg.navigationFails && this.wcfg.navigationFails(s)) { ctx.throws.push({ s, v: term('err', ['navigation'], { mask: X, host: true }), node: info.node }); return []; }
      return [[I.emit(s, ctx, { name: 'navigate', args: a, node: info.node, time: this.now }), UNDEF]];
    }
    const hs = /(?:^|\.)history\.(pushState|replaceState)$/.exec(n);
    if (hs) {
      const x = a[2] && a[2] !== UNDEF && a[2] !== NULL ? str(a[2]) : undefined;
      let r = I.emit(s, ctx, { name: 'history', args: [C(hs[1]), ...a], node: info.node });
      if (x !== undefined) r = this.setPage(r, 'href', new URL(x, this.href(s)).href);
      return [[r, UNDEF]];
    }
    // ---- elements --------------------------------------------------------------
    if (/(^|\.)createElement$/.test(n)) {
      const t = str(a[0]);
      if (t === undefined) return undefined;
      const r = I.emit(s, ctx, { name: 'create', args: a, node: info.node }).clone();
      const loc = 'el' + ++this.ids;
      r.wHeap().set(loc + '.window', { kind: 'obj', entries: [{ t: 'p', k: '[[win]]', v: C(true) }] });
      return [[r, I.newObj(r, loc, { kind: 'obj', entries: [{ t: 'p', k: '[[tag]]', v: C(t) }] })]];
    }
    if (/(^|\.)createTextNode$/.test(n)) { const r = s.clone(); return [[r, I.newObj(r, 'el' + ++this.ids, { kind: 'obj', entries: [{ t: 'p', k: '[[tag]]', v: C('#text') }] })]]; }
    if (last === 'getElementById') { const id = str(a[0]); const e = this.attached(s).find((x) => { const v = this.own(s, x, 'id'); return v && v.k === 'c' && v.v === id; }); return [[s, e || NULL]]; }
    if (last === 'querySelector' && !(info.recv && info.recv.k === 'o')) return [[s, NULL]];
    if (last === 'querySelectorAll') { const r = s.clone(); return [[r, I.newObj(r, 'nl' + ++this.ids, { kind: 'arr', entries: [], elems: [], dyn: [] })]]; }
    const el = info.recv && info.recv.k === 'o' && this.own(s, info.recv, '[[tag]]') && ['', last];
    if (el) {
      switch (el[1]) {
        case 'appendChild': case 'insertBefore': case 'append': case 'prepend': {
          if (a[0].k !== 'o') return undefined;
          const r = I.emit(s, ctx, { name: 'append', args: [a[0], info.recv], node: info.node, time: this.now }).clone();
          this.put(r, a[0], '[[parent]]', info.recv);
          return [[r, a[0]]];
        }
        case 'remove': case 'removeChild': {
          const x = el[1] === 'remove' ? info.recv : a[0];
          const r = I.emit(s, ctx, { name: 'detach', args: [x], node: info.node, time: this.now }).clone();
          const o = r.heap.get(x.loc);
          r.wHeap().set(x.loc, { ...o, entries: o.entries.filter((e) => e.k !== '[[parent]]') });
          return [[r, el[1] === 'remove' ? UNDEF : x]];
        }
        case 'setAttribute': { const k = str(a[0]); const r = s.clone(); this.put(r, info.recv, k, a[1]); return [[r, UNDEF]]; }
        case 'getAttribute': return [[s, this.own(s, info.recv, str(a[0])) || NULL]];
        case 'addEventListener': case 'removeEventListener': return [[I.emit(s, ctx, { name: el[1][0] === 'a' ? 'listen' : 'unlisten', args: a, recv: info.recv, node: info.node }), UNDEF]];
        case 'querySelector': return [[s, NULL]];
        default: return [[s, UNDEF]];
      }
    }
    // ---- stylesheets --------------------------------------------------------------
    if (n === 'new CSSStyleSheet' || /\.CSSStyleSheet$/.test(n)) { const r = s.clone(); return [[r, I.newObj(r, 'sheet' + ++this.ids, { kind: 'obj', entries: [{ t: 'p', k: '[[sheet]]', v: C(true) }] })]]; }
    if (info.recv && info.recv.k === 'o' && this.own(s, info.recv, '[[sheet]]')) { const r = I.emit(s, ctx, { name: 'sheetText', args: a, recv: info.recv, node: info.node }).clone(); this.put(r, info.recv, '[[text]]', a[0]); return [[r, UNDEF]]; }
    if (/(^|\.)requestAnimationFrame$/.test(n)) { const r = I.emit(s, ctx, { name: 'setTimeout', args: [a[0], C(16)], node: info.node, time: this.now }); return [[r, term('timer', ['setTimeout', String(r.trace ? r.trace.n : 0)], { mask: X })]]; }
    if (/(^|\.)postMessage$/.test(n)) return [[I.emit(s, ctx, { name: 'post', args: a, recv: info.recv, node: info.node, time: this.now }), UNDEF]];
    return undefined;
  }
  // elements attached to the document
  attached(s) {
    const out = [];
    for (const [loc, o] of s.heap) if (o.entries && o.entries.some((e) => e.k === '[[tag]]') && o.entries.some((e) => e.k === '[[parent]]')) out.push(D.O(loc));
    return out;
  }
  // listeners registered on one element, or on the page when none is given
  heardBy(s, type, el) { return this.listeners(s, type).filter((e) => (el ? e.recv && e.recv.loc === el.loc : !(e.recv && e.recv.k === 'o'))); }
  dispatchOn(s, el, type, args = []) {
    let list = [{ s, kind: 'ret', v: UNDEF }];
    for (const e of this.heardBy(s, type, el)) list = list.flatMap((o) => (o.kind === 'ret' ? this.callValue(o.s, e.args[1], args) : [o]));
    return list;
  }
  sheets(s) { return s.heap.get('W:sheets').elems.map((x) => { const t = this.own(s, x, '[[text]]'); return t ? t.v : undefined; }); }
}
module.exports = { DomWorld };
