'use strict';
// The web experiment client over the modelled page: the underlying flag client
// is a boundary with known assignments, dom-mutator a boundary which records
// what it applies and what it takes back.
const L = require('../engine/lib');
const { DomWorld } = require('./dom-world');
const { D, C, term, UNDEF } = L;
const { X } = D;

class ExpWorld extends DomWorld {
  /* W.assigned: {flag: variant literal} answered by the flag client at the moment of the call */
  constructor(ck, cfg = {}) {
    let W;
    const user = cfg.model, pr = cfg.propRead;
    super(ck, cfg.anchor || 'DefaultWebExperimentClient', cfg.hint === undefined ? 'experiment-tag/src/experiment' : cfg.hint, {
      hostFunctions: ['addEventListener', 'removeEventListener'],
      ...cfg,
      globals: ['Node', 'HTMLElement', ...(cfg.globals || [])],
      events: ['marketing', 'mutate', 'undo', 'inject', 'cleanup', 'exposure', 'doFlags', 'setUser', 'addPlugin', 'new', 'integration', ...(cfg.events || [])],
      callbacks: {
        'c:all': (w) => w.assigned,
        'c:variant': (w, s, a) => { const k = (w.I.constOf(s, a[0]) || a[0]).v; return w.assigned[k] || {}; },
        'c:getUser': (w) => w.user || {},
        'c:setUser': (w, s, a) => ({ states: [[w.I.emit(s, w.ctx(), { name: 'setUser', args: a, node: w.cls }), UNDEF]] }),
        'c:addPlugin': (w, s, a) => ({ states: [[w.I.emit(s, w.ctx(), { name: 'addPlugin', args: a, node: w.cls }), UNDEF]] }),
        'c:exposure': (w, s, a) => ({ states: [[w.I.emit(s, w.ctx(), { name: 'exposure', args: a, node: w.cls, time: w.now }), UNDEF]] }),
        'c:exposureInternal': (w, s, a) => ({ states: [[w.I.emit(s, w.ctx(), { name: 'exposure', args: a, node: w.cls, time: w.now }), UNDEF]] }),
        'c:doFlags': (w, s) => ({ states: w.onFlags ? w.onFlags(w, s) : [[w.I.emit(s, w.ctx(), { name: 'doFlags', args: [], node: w.cls }), w.resolved(UNDEF)]] }),
        ...(cfg.callbacks || {}),
      },
      model: (I, s, ctx, info, w) => (user && user(I, s, ctx, info, w)) || W.bound(s, ctx, info),
      propRead: (I, s, ctx, base, key, node) => (pr && pr(I, s, ctx, base, key, node)) || (key === 'history' && base.k === 't' && base.op === 'global' && s.heap.has('W:history') ? [[s, D.O('W:history')]] : undefined),
    });
    W = this;
    this.assigned = {};
  }
  start() {
    let s = super.start();
    const g = this.globalObject();
    for (const k of ['webExperiment', 'WebExperiment', 'experimentConfig', 'experimentIntegration', '__AMP_DEBUG', 'analyticsConnectorInstances', 'opener', '@@@amplitude/spa-link-interceptor-initiated', ...(this.wcfg.unset || [])]) s = this.set(s, g, k, undefined);
    // the history object is real, so that the page may replace its methods
    s.wHeap().set('W:history', { kind: 'obj', entries: [{ t: 'p', k: 'state', v: L.NULL }, ...['pushState', 'replaceState'].map((k) => ({ t: 'p', k, v: this.sym('history.' + k, X) }))] });
    return this.set(s, g, 'frameElement', null);
  }
  // copy heap objects (and what they refer to) of one state into another
  carry(from, r, locs) {
    const seen = new Set();
    const go = (loc) => {
      if (seen.has(loc)) return;
      seen.add(loc);
      const o = from.get(loc);
      if (!o) return;
      r.wHeap().set(loc, o);
      for (const e of o.entries || []) val(e.v), e.k && typeof e.k === 'object' && val(e.k);
      for (const v of [...(o.elems || []), ...(o.dyn || [])]) val(v);
    };
    const val = (v) => { if (!v) return; if (v.k === 'o') go(v.loc); else if (v.k === 't') for (const a of v.args || []) if (a && typeof a === 'object') val(a); };
    locs.forEach(go);
    return r;
  }
  // a navigation of the site itself: pushState / replaceState / back button
  navigate(s, how, url) {
    if (how === 'pop') return this.dispatch(this.setPage(s, 'href', new URL(url, this.href(s)).href), 'popstate', []);
    const h = D.O('W:history');
    return this.callValue(s, L.prop(this.I, s, h, how), [L.NULL, C(''), C(url)]);
  }
  resolved(v) { return term('resolved', [v], { mask: X }); }
  bound(s, ctx, info) {
    const n = info.name || '', I = this.I;
    if (n === 'initialize' && info.args.length === 2) {
      const r = I.emit(s, ctx, { name: 'new', args: info.args, node: info.node }).clone();
      const o = {};
      for (const k of ['all', 'variant', 'getUser', 'setUser', 'addPlugin', 'exposure', 'exposureInternal', 'doFlags', 'getEvaluationTraces']) o[k] = this.sym('c:' + k, X);
      o.integrationManager = { ready: this.sym('c:ready', X) };
      return [[r, this.val(r, o)]];
    }
    const h = /^callback:history\.(pushState|replaceState)$/.exec(n);
    if (h) {
      const x = info.args[2] && this.str(s, info.args[2]), r = I.emit(s, ctx, { name: 'history', args: [C(h[1]), ...info.args], node: info.node });
      return [[x && x !== 'null' && x !== 'undefined' ? this.setPage(r, 'href', new URL(x, this.href(s)).href) : r, UNDEF]];
    }
    if (n === 'UUID') return [[s, C('id-' + ++this.ids)]];
    if (n === 'getTopLevelDomain') return [[s, this.resolved(C('.example.com'))]];
    if (n === 'enrichUserWithCampaignData') return [[s, this.resolved(info.args[1])]];
    if (n === 'setMarketingCookie') return [[I.emit(s, ctx, { name: 'marketing', args: info.args, node: info.node, time: this.now }), this.resolved(UNDEF)]];
    if (n === 'new AmplitudeIntegrationPlugin') { const r = s.clone(); return [[r, this.val(r, { plugin: 'amplitude' })]]; }
    if (/(^|\.)declarative$/.test(n)) {
      let r = I.emit(s, ctx, { name: 'mutate', args: info.args, node: info.node, time: this.now }).clone();
      const id = this.tree(r, info.args[0]);
      const u = 'undo' + ++this.ids;
      r.wHeap().set('undo:' + u, { kind: 'obj', entries: [{ t: 'p', k: 'spec', v: info.args[0] }] });
      return [[r, this.val(r, { revert: this.sym(u, X) })]];
    }
    if (n === 'new DOMParser') { const r = s.clone(); return [[r, this.val(r, { parseFromString: this.sym('parseHtml', X) })]]; }
    if (n === 'callback:parseHtml') {
      const r = s.clone();
      const el = 'el' + ++this.ids;
      r.wHeap().set(el, { kind: 'obj', entries: [{ t: 'p', k: '[[tag]]', v: C('div') }, { t: 'p', k: '[[html]]', v: info.args[0] }] });
      return [[r, this.val(r, { body: { firstElementChild: D.O(el) } })]];
    }
    const j = /^callback:(inj|clean):(.*)$/.exec(n);
    if (j && j[1] === 'inj') {
      let r = I.emit(s, ctx, { name: 'inject', args: [C(j[2]), ...info.args], node: info.node, time: this.now });
      if (info.args[1]) r = I.writeProp(r, ctx, info.args[1], C('remove'), this.sym('clean:' + j[2], X), info.node)[0];
      if ((this.throwing || []).includes(j[2])) { ctx.throws.push({ s: r, v: term('err', ['script'], { mask: X }), node: info.node }); return []; }
      return [[r, UNDEF]];
    }
    if (j) return [[I.emit(s, ctx, { name: 'cleanup', args: [C(j[2])], node: info.node, time: this.now }), UNDEF]];
    const u = /^callback:(undo\d+)$/.exec(n);
    if (u) return [[I.emit(s, ctx, { name: 'undo', args: [this.own(s, D.O('undo:' + u[1]), 'spec')], node: info.node, time: this.now }), UNDEF]];
    return undefined;
  }
  // injected scripts: the page defines the function named by the id; running it
  // records 'inject' and registers a clean-up function which records 'cleanup'
  injections(s, ids, throwing = []) {
    const g = this.globalObject();
    for (const id of ids) s = this.set(s, g, id, term('in', ['inj:' + id, 'h'], { mask: X, func: true }));
    this.throwing = throwing;
    return s;
  }
  // construct the client -> outcomes
  client(s, flags, config = {}, extra = {}) {
    const r = s.clone();
    return this.I.construct ? this.constructed(r, [C('deployment-key'), this.val(r, { initialFlags: JSON.stringify(flags), pageObjects: JSON.stringify(extra.pages || {}), ...(extra.rules ? { behavioralTargetingRules: JSON.stringify(extra.rules) } : {}) }), this.val(r, config)]) : [];
  }
  constructed(r, args) {
    const c = this.ctx();
    const out = this.I.construct(r, c, D.CLS(this.cls), args, this.cls).map(([s, v]) => ({ s, v, kind: 'ret' }));
    return [...out, ...c.throws.map((t) => ({ s: t.s, v: t.v, kind: 'throw', node: t.node }))];
  }
  lit(s, v) {
    const t = this.tree(s, v);
    const go = (x) => (!x ? undefined : 'c' in x ? x.c : x.a ? x.a.map(go) : x.p ? Object.fromEntries(Object.entries(x.p).map(([k, y]) => [k, go(y)])) : '?');
    return go(t);
  }
}
module.exports = { ExpWorld };
