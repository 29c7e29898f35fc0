'use strict';
// Every presence combination of the variant sources of one key, with the
// lookup result the documentation prescribes for it.
const L = require('../engine/lib');
const { ClientWorld } = require('./client-world');
const { C, D } = L;
const KEY = 'flag-a';
const STORED = ['none', 'plain', 'default', 'valueOnly', 'untracked', 'notDefault', 'web', 'customEvent'];
const FLAGS = ['none', 'local', 'localDefault', 'localNone', 'localUntracked', 'remote', 'remoteDefault', 'remoteNone', 'plain'];
const INLINE = ['none', 'null', 'string', 'object'];
const INITIAL = ['none', 'string', 'object', 'default', 'valueOnly'];
const CONFIG = ['none', 'empty', 'string', 'object', 'payloadOnly'];
class Lookups extends ClientWorld {
  constructor(ck, cfg = {}) {
    super(ck, cfg);
    const S = (n) => this.sym(n, D.S), P = (n) => this.sym(n, D.X);
    this.st = { key: S('storedKey'), value: S('storedValue'), payload: P('storedPayload'), exp: S('storedExp'), mark: P('storedMark') };
    this.ev = { key: 'on', value: S('evalValue'), payload: P('evalPayload'), exp: S('evalExp'), off: S('offValue') };
    this.inl = { string: this.sym('inlineString', D.S | D.E), key: S('inlineKey'), value: S('inlineValue'), exp: S('inlineExp') };
    this.ini = { string: S('initialString'), key: S('initialKey'), value: S('initialValue'), payload: P('initialPayload'), exp: S('initialExp') };
    this.con = { string: this.sym('configString', D.S), key: S('configKey'), value: S('configValue') };
  }
  // ---- source contents -------------------------------------------------------
  storedVariant(kind) {
    const { key, value, payload, exp, mark } = this.st;
    return {
      none: undefined,
      plain: { key, value, payload, metadata: { experimentKey: exp, mark } },
      default: { key, metadata: { default: true, mark } },
      valueOnly: { value },
      untracked: { key, value, metadata: { trackExposure: false, mark } },
      notDefault: { key, value, payload, metadata: { default: false, trackExposure: true } },
      web: { key, value, metadata: { deliveryMethod: 'web', mark } },
      customEvent: { key, value, metadata: { exposureEvent: 'shown', experimentKey: exp, mark } },
    }[kind];
  }
  flag(kind) {
    if (kind === 'none') return undefined;
    const mode = /^local/.test(kind) ? 'local' : /^remote/.test(kind) ? 'remote' : undefined;
    const off = /Default$/.test(kind), none = /None$/.test(kind), un = /Untracked$/.test(kind);
    return {
      key: KEY,
      variants: {
        on: { key: 'on', value: this.ev.value, payload: this.ev.payload, metadata: { experimentKey: this.ev.exp, ...(un ? { trackExposure: false } : {}) } },
        off: { key: 'off', metadata: { default: true } },
      },
      segments: none ? [] : [{ variant: off ? 'off' : 'on' }],
      ...(mode ? { metadata: { evaluationMode: mode } } : {}),
    };
  }
  evaluated(kind) {
    if (kind === 'none' || /None$/.test(kind)) return undefined;
    const md = /^local/.test(kind) ? { evaluationMode: 'local' } : /^remote/.test(kind) ? { evaluationMode: 'remote' } : {};
    if (/Default$/.test(kind)) return { key: 'off', metadata: { ...md, default: true } };
    return { key: 'on', value: this.ev.value, payload: this.ev.payload, expKey: this.ev.exp, metadata: { ...md, experimentKey: this.ev.exp, ...(/Untracked$/.test(kind) ? { trackExposure: false } : {}) } };
  }
  inline(kind) {
    return { none: undefined, null: null, string: this.inl.string, object: { key: this.inl.key, value: this.inl.value, expKey: this.inl.exp } }[kind];
  }
  initial(kind) {
    const { string, key, value, payload, exp } = this.ini;
    return { none: undefined, string, object: { key, value, payload, expKey: exp, metadata: { experimentKey: exp } }, default: { key, value, metadata: { default: true } }, valueOnly: { value } }[kind];
  }
  configured(kind) {
    return { none: undefined, empty: {}, string: this.con.string, object: { key: this.con.key, value: this.con.value }, payloadOnly: { payload: this.con.key } }[kind];
  }
  // ---- what the documentation prescribes ----------------------------------------
  variantOf(v) {
    if (v === undefined || v === null) return undefined;
    if (v === this.inl.string || v === this.ini.string || v === this.con.string) return { key: v, value: v };
    const r = { ...v };
    if (v.metadata && v.metadata.experimentKey) r.expKey = v.metadata.experimentKey;
    return r;
  }
  expected(sc) {
    const D_ = (v) => !!(v && v.metadata && v.metadata.default === true);
    const le = this.evaluated(sc.flag), local = /^local/.test(sc.flag);
    const stored = this.variantOf(this.storedVariant(sc.stored));
    let initial = this.variantOf(this.initial(sc.initial));
    if (initial && !initial.key) initial = { key: initial.value, ...initial };
    const inline = this.variantOf(this.inline(sc.inline));
    const config = sc.config === 'empty' ? undefined : this.variantOf(this.configured(sc.config));
    const cands = {
      stored: stored && { from: 'stored', variant: stored, tags: ['storage', 'secondary-storage'], fallback: false },
      initial: initial && (sc.source === 'initialVariants' && !local ? { from: 'initial', variant: initial, tags: ['initial'], fallback: false } : { from: 'initial', variant: initial, tags: ['secondary-initial'], fallback: true }),
      inline: inline && { from: 'inline', variant: inline, tags: ['fallback-inline'], fallback: true },
      config: config && { from: 'config', variant: config, tags: ['fallback-config'], fallback: true },
      local: le && { from: 'local', variant: le, tags: ['local-evaluation'], fallback: false },
    };
    const walk = (first, rest) => {
      // first: sources whose default-marked variant gives way to any fallback
      let def;
      for (const [k, markable] of [...first, ...rest.map((x) => [x, false])]) {
        const c = cands[k];
        if (!c) continue;
        if (markable && D_(c.variant)) { def = c; continue; }
        return { ...c, hasDefault: !!def };
      }
      return def && { ...def, hasDefault: true };
    };
    let r;
    if (!local) r = sc.source === 'initialVariants' ? walk([['initial', false], ['stored', true]], ['inline', 'config']) : walk([['stored', true]], ['inline', 'initial', 'config']);
    if (local || !r) r = walk([['local', true]], ['inline', 'initial', 'config']);
    return r || { from: 'nothing', variant: {}, tags: [undefined], fallback: true, hasDefault: false };
  }
  // the exposure the documentation prescribes, undefined for none
  exposure(sc, e = this.expected(sc)) {
    const md = e.variant.metadata;
    if (md && md.trackExposure === false) return undefined;
    if (e.fallback && !e.hasDefault) return undefined;
    const x = { flag_key: KEY };
    if (e.variant.expKey) x.experiment_key = e.variant.expKey;
    if (!e.fallback && !(md && md.default)) x.variant = e.variant.key || e.variant.value;
    if (md) x.metadata = md;
    return x;
  }
  describe(sc) {
    return `source=${sc.source}, flag=${sc.flag}, stored=${sc.stored}, initial=${sc.initial}, configured fallback=${sc.config}` + (sc.inline ? `, inline fallback=${sc.inline}` : '');
  }
  // ---- enumeration -----------------------------------------------------------------
  // cb(sc, {s, self}) for clients whose sources hold what sc says
  each2(base, cb, pick = {}) {
    const L_ = (k, l) => pick[k] || l;
    for (const source of L_('source', ['localStorage', 'initialVariants'])) for (const flag of L_('flag', FLAGS)) for (const initial of L_('initial', INITIAL)) for (const config of L_('config', CONFIG)) {
      let s = this.start();
      const cfg = { source, automaticExposureTracking: false, retryFetchOnFailure: false, ...base(s) };
      const f = this.flag(flag);
      if (f) { const j = this.stringify(s, this.val(s, [f])); s = j[0]; cfg.initialFlags = j[1]; }
      const iv = this.initial(initial);
      if (iv !== undefined) cfg.initialVariants = { [KEY]: iv };
      const cv = this.configured(config);
      if (cv !== undefined) cfg.fallbackVariant = cv;
      for (const o of this.client(cfg, s)) {
        if (!this.ck.ob('the client can be constructed', o.kind === 'ret', { at: this.ck.loc(o.node), what: this.describe({ source, flag, stored: 'none', initial, config }), key: 'construct' })) continue;
        for (const stored of L_('stored', STORED)) {
          const sv = this.storedVariant(stored);
          this.variants = () => [sv ? { [KEY]: sv } : {}, 'ret'];
          const ws = stored === 'none' ? [{ s: o.s, self: o.v }] : this.each([{ s: o.s, self: o.v }], 'fetch', (x) => [this.val(x, { user_id: 'u' })]);
          for (const w of ws) cb({ source, flag, stored, initial, config }, { s: w.s, self: o.v });
        }
      }
    }
  }
  recorder(s, name, ret) { return this.sym(name, D.X); }
}
// quick: the kinds that decide the order, crossed; the others beside a plain background
const PASSES = (ck) => ck.thorough ? [{}] : [
  { stored: ['none', 'plain', 'default'], flag: ['none', 'local', 'localDefault', 'localNone', 'remote'], initial: ['none', 'object'], config: ['none', 'object'] },
  { stored: ['valueOnly', 'untracked', 'notDefault', 'web', 'customEvent'], flag: ['none', 'remote'], initial: ['none', 'object'], config: ['none'] },
  { stored: ['none', 'default'], flag: ['localUntracked', 'remoteDefault', 'remoteNone', 'plain'], initial: ['none', 'string'], config: ['none', 'string'] },
  { stored: ['none', 'plain', 'default'], flag: ['none', 'localDefault'], initial: ['string', 'default', 'valueOnly'], config: ['empty', 'payloadOnly'] },
];
module.exports = { PASSES, Lookups, KEY, STORED, FLAGS, INLINE, INITIAL, CONFIG };
