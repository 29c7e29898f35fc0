'use strict';
// The experiment client in the modelled host of world.js.
const L = require('../engine/lib');
const { World } = require('./world');
const { C, D } = L;
const D2 = L;
const NET = ['SdkEvaluationApi.getVariants', 'SdkFlagApi.getFlags'];
class ClientWorld extends World {
  constructor(ck, cfg = {}) {
    super(ck, 'ExperimentClient', 'experiment-browser', {
      budget: ck.thorough ? 4e7 : 8e6, netNames: NET, net: (W, s, name, args, ctx) => W.answer(s, name === NET[0] ? 'variants' : 'flags', args, ctx), ...cfg,
      opaque: (n) => (!cfg.console && /^ConsoleLogger\./.test(n)) || (cfg.opaque && cfg.opaque(n)),
    });
    this.variants = () => [{}, 'ret'];
    this.flags = () => [{}, 'ret'];
    this.inflight = 0;
  }
  // this.variants / this.flags: (s, args) -> [literal or abstract value, 'ret'|'throw'] or a list of those
  answer(s, kind, args, ctx) {
    let states = [s];
    const during = this.during;
    if (during && !this.inflight) {
      this.inflight++;
      try { states = during(s, kind, args); } finally { this.inflight--; }
    }
    return states.flatMap((x) => {
      const r = x.clone();
      const a = this[kind](r, args, ctx);
      const list = Array.isArray(a[0]) ? a : [a];
      return list.map(([v, k]) => { const q = r.clone(); return [q, this.val(q, v), k]; });
    });
  }
  host(s, ctx, info) {
    if (info.name === 'globalThis.location') return undefined;
    return super.host(s, ctx, info);
  }
  // a client built from a configuration literal (single outcome expected)
  client(config = {}, s = this.start(), key = 'client-abcdef') {
    const r = s.clone();
    const outs = this.make([C(key), this.val(r, config)], r);
    return outs;
  }
  err(s, cls, args) {
    const c = this.ctx();
    return this.I.construct(s, c, D.CLS(this.ck.cls(cls, 'experiment-core')), args.map((a) => C(a)), this.cls)[0];
  }
  // run one public call on each world; f(s) builds the arguments
  each(ws, method, f, map) {
    return ws.flatMap((w) => {
      const s = w.s.clone();
      const args = f ? f(s, w) : [];
      return this.call(s, w.self, method, args).map((o) => ({ ...w, s: o.s, v: o.v, kind: o.kind, node: o.node, args, ...(map ? map(o, w) : {}) }));
    });
  }
}
// the same with the network boundary at the configured http client; this.variants and
// this.flags give the response contents (flags as a list), 'throw' rejects the request
class HttpWorld extends ClientWorld {
  constructor(ck, cfg = {}) {
    let W;
    super(ck, { ...cfg, netNames: [], callbacks: { ...cfg.callbacks, request: (_, s, args, ctx) => ({ states: W.respond(s, args, ctx) }) } });
    W = this;
    this.flags = () => [[[], 'ret']];
  }
  url(s, v) { let r; const f = (x) => { if (r !== undefined || !x) return; const c = x.k === 't' ? this.I.constOf(s, x) || x : x; if (c.k === 'c') { if (typeof c.v === 'string' && /\//.test(c.v)) r = c.v; } else if (c.k === 't') c.args.forEach((y) => y && y.k && f(y)); }; f(v); return r; }
  respond(s, args, ctx) {
    const kind = /flags/.test(this.url(s, args[0]) || '') ? 'flags' : 'variants';
    return this.answer(s, kind, args, ctx).map(([x, v, k]) => {
      if (k === 'throw') return [x, D2.term('rejected', [v], { mask: D.X, node: this.cls })];
      const [y, body] = this.stringify(x, v);
      const r = y.clone();
      return [r, D2.term('resolved', [this.val(r, { status: 200, body })], { mask: D.X })];
    });
  }
  client(config = {}, ...rest) { return super.client({ httpClient: { request: this.sym('request', D.X) }, ...config }, ...rest); }
  // the object whose JSON text is (encoded) in a header of a request: [state, object] or undefined
  headerObject(s, e, name) {
    const h = e.args[2] && this.get(s, e.args[2], name);
    const find = (v, d = 0) => {
      if (!v || d > 10) return undefined;
      const c = v.k === 't' ? this.I.constOf(s, v) || v : v;
      if (c.k === 'c') return typeof c.v === 'string' && /^[[{]/.test(c.v) ? c : undefined;
      if (c.k !== 't') return undefined;
      if (c.op === 'json') return c;
      for (const a of c.args) { const r = a && a.k && find(a, d + 1); if (r) return r; }
      return undefined;
    };
    const j = find(h);
    if (!j) return undefined;
    const c = this.ctx();
    const r = this.parse(s, c, j, this.cls);
    return r && r[0];
  }
  requests(s, n = 0) { return s.events().slice(n).filter((e) => e.name === 'callback:request').map((e) => ({ e, url: this.url(s, e.args[0]), headers: e.args[2], timeout: e.args[4], kind: /flags/.test(this.url(s, e.args[0]) || '') ? 'flags' : 'variants' })); }
}
module.exports = { HttpWorld, ClientWorld, NET };
