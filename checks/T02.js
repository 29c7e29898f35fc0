'use strict';
const { World } = require('./world');
const { C, D, UNDEF, term, show } = require('../engine/lib');
exports.technique = 'exhaustive abstract histories of the consent state machine and of the start gate, compared with a reference machine';
exports.explanation =
  'Every sequence up to the bound of runtime decisions, configured statuses, invalid values, subscriptions, unsubscriptions and failing listeners is interpreted on the consent manager; every sequence of initialize calls (all consent configurations, on the call and on the page) and setConsentStatus calls is interpreted on the exported entry points. Status, explicitness, results, notifications and starts are compared with the reference machine after every step.';
const STATES = ['pending', 'granted', 'denied'];
const INVALID = ['GRANTED', '', 'true', null, undefined, true, 1, {}];
exports.run = function (ck) { manager(ck); reentrant(ck); gate(ck); };
function manager(ck) {
  const W = new World(ck, 'ConsentManager', 'experiment-tag', { budget: ck.thorough ? 2e8 : 4e7, callbacks: { l1: () => undefined, l2: () => ({ throws: 'broken' }), l3: () => undefined } });
  const at = W.loc('setStatus');
  const L = ['l1', 'l2', 'l3'].map((n) => W.sym(n, D.X));
  const apply = (m, x) => {
    if (x === m.status || x === 'pending') return [false, []];
    const prev = m.status;
    m.status = x;
    return [true, m.subs.map((i) => [i, x, prev])];
  };
  const STEPS = [];
  for (const x of STATES) {
    STEPS.push([`set ${x}`, (w, m) => { m.explicit = true; const [r, n] = apply(m, x); return [W.call(w.s, w.self, 'setStatus', [C(x)]), r, n]; }]);
    STEPS.push([`configured ${x}`, (w, m) => { const [r, n] = m.explicit ? [false, []] : apply(m, x); return [W.call(w.s, w.self, 'seedFromConfig', [C(x)]), r, n]; }]);
  }
  L.forEach((l, i) => {
    STEPS.push([`subscribe ${i + 1}`, (w, m) => { if (m.subs.includes(i)) return null; m.subs.push(i); return [W.call(w.s, w.self, 'onChange', [l]).map((o) => ({ ...o, un: o.v, i })), undefined, []]; }]);
    STEPS.push([`unsubscribe ${i + 1}`, (w, m) => { if (!m.subs.includes(i)) return null; m.subs = m.subs.filter((x) => x !== i); return [W.callValue(w.s, w.un[i], []), undefined, []]; }]);
  });
  const depth = ck.thorough ? 6 : 5;
  let total = 0;
  for (const init of [undefined, ...STATES]) {
    let work = W.make(init ? [C(init)] : [], W.start()).map((o) => ({ s: o.s, self: o.v, m: { status: init || 'pending', explicit: false, subs: [] }, hist: [], un: {} }));
    ck.ob('the machine starts in its initial status', work.length === 1 && W.call(work[0].s, work[0].self, 'getStatus', []).every((o) => W.is(o.s, o.v, init || 'pending') === true), { at, what: `initial status ${init}`, key: 'init' });
    for (let d = 0; d < depth; d++) {
      const next = [];
      for (const w of work) for (const [name, f] of STEPS) {
        if (d >= 3 && /subscribe/.test(name)) continue;
        const m = { ...w.m, subs: [...w.m.subs] };
        const n = w.s.events().length;
        const res = f(w, m);
        if (!res) continue;
        total++;
        const [outs, ret, notes] = res;
        const hist = [...w.hist, name];
        const what = `initially ${init || 'default'}: ${hist.join(', ')}`;
        ck.ob('every history has a single outcome', outs.length === 1, { at, what, key: 'one' });
        for (const o of outs) {
          if (!ck.ob('a failing listener never fails the change', o.kind === 'ret', { at: ck.loc(o.node) || at, what, key: 'throw' })) continue;
          if (ret !== undefined) ck.ob('a change reports whether it was applied', W.is(o.s, o.v, ret) === true, { at, what: `${what}: ${show(o.v, o.s)} instead of ${ret}`, key: 'result' });
          const heard = o.s.events().slice(n).filter((e) => /^callback:l/.test(e.name)).map((e) => `${e.name.slice(10)}:${e.args.map((a) => (a.k === 'c' ? a.v : '?')).join('<')}`);
          const want = notes.map(([i, x, p]) => `${i + 1}:${x}<${p}`);
          ck.ob('listeners hear every real change exactly once, in order', heard.join() === want.join(), { at, what: `${what}: heard [${heard}] instead of [${want}]`, key: 'notify' });
          for (const [q, wantV] of [['getStatus', m.status], ['hasExplicitStatus', m.explicit]]) for (const p of W.call(o.s, w.self, q, [])) ck.ob('the status is that of the machine', p.kind === 'ret' && W.is(p.s, p.v, wantV) === true, { at, what: `${what}: ${q} is ${show(p.v, p.s)} instead of ${wantV}`, key: q });
          next.push({ s: o.s, self: w.self, m, hist, un: o.un ? { ...w.un, [o.i]: o.un } : w.un });
        }
      }
      work = next;
    }
  }
  ck.notes.push(`consent manager: ${total} steps, histories of length ${depth}`);
  ck.atLeast('listeners hear every real change exactly once, in order', 1000);
}
// a listener which answers a change with another one
function reentrant(ck) {
  let self, change;
  const W = new World(ck, 'ConsentManager', 'experiment-tag', { callbacks: { l1: () => undefined, l3: () => undefined, l2: (w, s, args, ctx) => {
    if (!change || (args[0].k === 'c' && args[0].v === change)) return undefined;
    return { states: w.I.callMethod(s, ctx, self, C('setStatus'), [C(change)], w.cls).map(([x]) => [x, UNDEF]) };
  } } });
  const at = W.loc('setStatus');
  for (const first of ['granted', 'denied']) for (change of ['granted', 'denied']) {
    let s = W.start();
    const o = W.make([], s)[0];
    self = o.v;
    s = o.s;
    for (const l of ['l1', 'l2', 'l3']) s = W.call(s, self, 'onChange', [W.sym(l, D.X)])[0].s;
    const n = s.events().length;
    for (const r of W.call(s, self, 'setStatus', [C(first)])) {
      const want = change === first ? 1 : 2;
      for (const l of ['l1', 'l3']) {
        const ev = r.s.events().slice(n).filter((e) => e.name === 'callback:' + l);
        const set = new Set(ev.map((e) => e.args.map((a) => (a.k === 'c' ? a.v : '?')).join()));
        ck.ob('a change made by a listener is heard once as well', r.kind === 'ret' && ev.length === want && set.size === want, { at, what: `set ${first}, a listener sets ${change}: listener ${l} hears ${ev.length} changes`, key: 'reentrant' });
      }
      for (const p of W.call(r.s, self, 'getStatus', [])) ck.ob('the last decision stands', W.is(p.s, p.v, change) === true, { at, what: `set ${first}, a listener sets ${change}`, key: 'last' });
    }
  }
  change = undefined;
}
// ---- initialize and setConsentStatus --------------------------------------------------------
function gate(ck) {
  const idx = ck.p.sources.find((f) => /experiment-tag[/\\]src[/\\]index\.ts$/.test(f.fileName));
  const W = new World(ck, idx, '', {
    budget: ck.thorough ? 3e8 : 6e7, smallSize: Infinity,
    globals: ['document', 'location'],
    callbacks: { start: (w, s) => ({ states: [[s, term('resolved', [UNDEF], { mask: D.X })]] }) },
    events: [/getInstance$/, /fetch$/i],
    model: (I, s, ctx, info, W) => {
      if (/DefaultWebExperimentClient\.getInstance$/.test(info.name || '')) { const r = I.emit(s, ctx, { name: 'getInstance', args: info.args, node: info.node }).clone(); return [[r, W.val(r, { isRedirecting: false, start: W.sym('start', D.X) })]]; }
      if (/(^|\.)isPreviewMode$/.test(info.name || '')) return [[s, C(false)]];
      if (/(^|\.)(armDenialCleanup|removeAntiFlickerCss|applyAntiFlickerCss)$/.test(info.name || '')) return [[s, UNDEF]];
    },
  });
  const at = ck.loc(idx);
  const parse = (x) => (STATES.includes(x) ? x : null);
  const CONF = [{}, { consentRequired: true }, { consentRequired: true, consentStatus: 'granted' }, { consentRequired: true, consentStatus: 'denied' }, { consentRequired: true, consentStatus: 'pending' }, { consentRequired: true, consentStatus: 'yes' }, { consentRequired: false, consentStatus: 'denied' }];
  const g = W.globalObject();
  const STEPS = [];
  const VALUES = [...STATES, ...(ck.thorough ? INVALID : ['GRANTED', null, true])];
  VALUES.forEach((x) => STEPS.push([`setConsentStatus(${JSON.stringify(x)})`, (w, m) => {
    let launch = 0;
    if (parse(x)) {
      m.explicit = true;
      if (x !== 'pending') m.status = x;
      if (m.status === 'granted' && m.deferred && !m.started) { launch = 1; m.key = m.deferred; m.deferred = null; m.started = true; }
    }
    return ['setConsentStatus', (r) => [W.val(r, x)], launch];
  }]));
  CONF.forEach((c, ci) => [['call', c, undefined], ['page', undefined, c], ...(c.consentRequired ? [['mixed', { consentRequired: true }, { consentStatus: c.consentStatus }]] : [])].forEach(([where, own, page]) => {
    if (where !== 'call' && !ck.thorough && (ci === 0 || ci === 4)) return;
    STEPS.push([`initialize(${JSON.stringify(own)}, page ${JSON.stringify(page)})`, (w, m) => {
      let launch = 0;
      const k = 'key' + (m.n = (m.n || 0) + 1);
      if (!m.started) {
        const eff = { ...own, ...page };
        const gated = !!eff.consentRequired || !!m.deferred;
        if (gated && !m.explicit) { const x = parse(eff.consentStatus); if (x && x !== 'pending') m.status = x; }
        if (gated && m.status !== 'granted') m.deferred = k;
        else { launch = 1; m.started = true; m.deferred = null; m.key = k; }
      }
      return ['initialize', (r) => [C(k), W.val(r, {}), W.val(r, own ? { consentOptions: own } : {})], launch, page];
    }]);
  }));
  const depth = ck.thorough ? 4 : 3;
  let s0 = W.start();
  for (const k of ['webExperiment', 'experimentConfig', 'WebExperiment']) s0 = W.set(s0, g, k, UNDEF);
  let work = [{ s: s0, m: { status: 'pending', explicit: false, deferred: null, started: false }, hist: [] }];
  let total = 0;
  const call = (s, name, args) => W.exported(s, name, 'experiment-tag/src/index.ts').flatMap(([x, f]) => { const r = x.clone(); return W.callValue(r, f, args(r)); });
  for (let d = 0; d < depth; d++) {
    const next = [];
    for (const w of work) for (const [name, f] of STEPS) {
      const m = { ...w.m };
      const [fn, args, launch, page] = f(w, m);
      let s = w.s;
      if (fn === 'initialize') s = W.set(s, g, 'experimentConfig', page ? { consentOptions: page } : UNDEF);
      const n = s.events().length;
      const outs = call(s, fn, args);
      total++;
      const hist = [...w.hist, name];
      const what = hist.join('; ');
      ck.ob('every history has a single outcome', outs.length === 1, { at, what: `${what}: ${outs.length} outcomes`, key: 'one-gate' });
      for (const o of outs) {
        if (!ck.ob('the entry points never fail', o.kind === 'ret', { at: ck.loc(o.node) || at, what, key: 'throw-gate' })) continue;
        const ev = o.s.events().slice(n).filter((e) => e.name === 'getInstance');
        const keys = ev.map((e) => (e.args[0].k === 'c' ? e.args[0].v : '?'));
        ck.ob('the client starts exactly when consent allows it, once', ev.length === launch && (!launch || keys[0] === m.key), { at: (ev[0] && ev[0].loc) || at, what: `${what}: starts [${keys}] instead of [${launch ? m.key : ''}]`, key: 'start' });
        for (const [x, gt] of W.exported(o.s, 'consentGate', 'consent/consent-gate.ts')) {
          const st = W.invoke(x, W.get(x, gt, 'manager'), 'getStatus', []);
          const gatedBefore = m.status;
          for (const p of st) ck.ob('the decision of the site wins over configuration', W.is(p.s, p.v, gatedBefore) === true, { at, what: `${what}: status ${show(p.v, p.s)} instead of ${m.status}`, key: 'status' });
        }
        if (!m.started || !w.m.started) next.push({ s: o.s, m, hist });
      }
    }
    work = next;
  }
  // the stub offered before the start takes decisions too
  for (const own of [{ consentRequired: true }]) {
    for (const o of call(s0, 'initialize', (r) => [C('k'), W.val(r, {}), W.val(r, { consentOptions: own })])) {
      const stub = W.get(o.s, g, 'webExperiment');
      for (const p of W.invoke(o.s, stub, 'setConsentStatus', [C('granted')])) ck.ob('a grant through the page object starts the client', p.kind === 'ret' && p.s.events().filter((e) => e.name === 'getInstance').length === 1, { at, what: 'initialize with required consent, webExperiment.setConsentStatus("granted")', key: 'stub' });
    }
  }
  ck.notes.push(`start gate: ${total} steps, histories of length ${depth}`);
  ck.atLeast('the client starts exactly when consent allows it, once', 100);
}
