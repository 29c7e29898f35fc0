'use strict';
// History exploration: an object is constructed abstractly and its public
// methods are applied in every sequence up to a bound, keeping one abstract
// state per distinguishable outcome.
const L = require('../engine/lib');
const { ts, D, C, term, settle } = L;
const { CLS, X } = D;
class Hist {
  constructor(ck, clsName, hint, cfg = {}) {
    this.ck = ck;
    this.cls = clsName && typeof clsName === 'object' ? clsName : ck.cls(clsName, hint);
    this.timers = !!cfg.timers;
    const user = cfg.model;
    this.I = ck.interp({
      watch: () => true, keepArgs: true, smallSize: Infinity,
      ...cfg,
      model: (I, s, ctx, info) => {
        const m = user && user(I, s, ctx, info);
        if (m) return m;
        const k = /(?:^|\.)(setInterval|setTimeout)$/.exec(info.name || '');
        if (k && cfg.timers) {
          const r = I.emit(s, ctx, { name: k[1], args: info.args, node: info.node });
          return [[r, term('timer', [k[1], String(r.trace ? r.trace.n : 0)], { mask: X })]];
        }
        const c = /(?:^|\.)(clearInterval|clearTimeout)$/.exec(info.name || '');
        if (c && cfg.timers) return [[I.emit(s, ctx, { name: c[1], args: info.args, node: info.node }), L.UNDEF]];
        return undefined;
      },
    });
    if (cfg.timers) this.I.cfg.events = [...(this.I.cfg.events || []), /(?:^|\.)(setInterval|setTimeout|clearInterval|clearTimeout)$/];
    this.n = 0;
  }
  ctx() { const c = this.I.ctx0(); c.prefix = 'E' + ++this.n; return c; }
  // -> [{s, v: object, kind}]
  make(args = [], state) {
    const c = this.ctx();
    const r = this.I.construct(state || this.I.state(), c, CLS(this.cls), args, this.cls);
    return [...r.map(([s, v]) => ({ s, v, kind: 'ret' })), ...c.throws.map((t) => ({ s: t.s, v: t.v, kind: 'throw', node: t.node }))];
  }
  fn(name) {
    const m = this.ck.p.findMember(this.cls, name);
    if (!m) throw new L.Anchor(`method ${name} of ${this.cls.name.text}`);
    return m;
  }
  call(s, self, method, args = []) {
    const c = this.ctx();
    this.ck.entries.add(this.cls.name.text + '.' + method);
    const r = this.I.callMethod(s, c, self, C(method), args, this.cls);
    return [...r.map(([x, v]) => settle({ s: x, v, kind: 'ret' })), ...c.throws.map((t) => ({ s: t.s, v: t.v, kind: 'throw', node: t.node }))];
  }
  callValue(s, fv, args = []) {
    const c = this.ctx();
    const r = this.I.callValue(s, c, fv, undefined, args, this.cls);
    return [...r.map(([x, v]) => settle({ s: x, v, kind: 'ret' })), ...c.throws.map((t) => ({ s: t.s, v: t.v, kind: 'throw', node: t.node }))];
  }
  sym(name, mask = X, type) { return term('in', [name, 'h'], { mask, type }); }
  loc(name) { return this.ck.loc(name ? this.fn(name) : this.cls); }
}
// events added between two states of one history
Hist.since = (s, n) => s.events().slice(n);
module.exports = { Hist };
