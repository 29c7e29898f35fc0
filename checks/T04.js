'use strict';
const { TagWorld } = require('./tag-world');
const { C, D, UNDEF, term, show } = require('../engine/lib');
exports.technique = 'exhaustive abstract histories of the consent-gated integration, compared with a reference buffer';
exports.explanation =
  'Every sequence up to the bound of impressions, consent decisions, retry periods and changes of the receiver (accepting, refusing, failing, accepting one) is interpreted on an integration wrapped for consent. The impressions the receiver is given, their order and time stamps, the results reported to the SDK and the writes to storage are compared with the reference buffer; the bound is interpreted with more impressions than fit.';
exports.run = function (ck) {
  const file = ck.fn('wrapIntegrationTrack', 'experiment-tag').getSourceFile();
  let mode = 'accept';
  const W = new TagWorld(ck, file, '', {
    budget: ck.thorough ? 6e8 : 1.5e8,
    callbacks: { track: (w, s) => { const m = mode; if (m === 'one') mode = 'refuse'; return m === 'fail' ? { throws: 'broken' } : m !== 'refuse'; } },
  });
  const at = ck.loc(ck.fn('wrapIntegrationTrack', 'experiment-tag'));
  const T0 = W.now;
  const wrap = (s, integration) => W.exported(s, 'wrapIntegrationTrack', 'experiment-tag').flatMap(([x, f]) => W.callValue(x, f, [integration]));
  const begin = (required, wraps) => {
    let s = W.start();
    if (required) [s] = W.require(s);
    s = s.clone();
    const integration = W.val(s, { name: 'x', type: 'integration', track: W.sym('track', D.X) });
    for (let i = 0; i < wraps; i++) {
      const o = wrap(s, integration);
      ck.ob('an integration can be wrapped', o.length === 1 && o[0].kind === 'ret', { at: ck.loc(o[0] && o[0].node) || at, what: `wrapped ${i + 1} times`, key: 'wrap' });
      s = o[0].s;
    }
    return { s, integration };
  };
  const heard = (s, n) => s.events().slice(n).filter((e) => e.name === 'callback:track');
  const event = (n, timed) => ({ eventType: '$impression', eventProperties: { n, ...(timed ? { time: 5 } : {}) } });
  // ---- reference ------------------------------------------------------------
  const deliver = (m, ev) => { m.sent.push(ev); const x = m.mode; if (x === 'one') m.mode = 'refuse'; return x === 'fail' ? 'throw' : x !== 'refuse'; };
  const flush = (m) => {
    if (m.required && m.consent !== 'granted') { m.buf = []; m.tick = undefined; return; }
    let n = 0;
    for (; n < m.buf.length; n++) if (deliver(m, m.buf[n]) !== true) break;
    m.buf = m.buf.slice(n);
    if (m.buf.length && m.tick === undefined) m.tick = m.now + 1000;
    if (!m.buf.length) m.tick = undefined;
  };
  const pass = (m, ms) => { const end = m.now + ms; while (m.tick !== undefined && m.tick <= end) { m.now = m.tick; m.tick += 1000; const t = m.tick; flush(m); if (m.tick !== undefined) m.tick = t; } m.now = end; };
  const STEPS = [];
  for (const timed of [false, true]) STEPS.push([timed ? 'impression with time' : 'impression', (w, m) => {
    const ev = event(++m.n, timed);
    let ret = true;
    if (!(m.required && m.consent !== 'granted')) ret = deliver(m, ev);
    else if (m.consent === 'pending') m.buf = [...m.buf, timed ? ev : { ...ev, eventProperties: { ...ev.eventProperties, time: m.now } }];
    const s = w.s.clone(), arg = W.val(s, ev);
    return { outs: W.invoke(s, w.integration, 'track', [arg]), ret };
  }]);
  for (const x of ['granted', 'denied']) STEPS.push([x, (w, m) => {
    if (!m.required || m.consent === x) return null;
    if (x === 'granted' && m.consent === 'denied' && m.buf.length) return null; // re-grant inside a retry period: either is fine
    const first = m.consent === 'pending';
    m.consent = x;
    if (first && x === 'granted') flush(m);
    if (first && x === 'denied') m.buf = [];
    return { outs: W.consent(w.s, x) };
  }]);
  STEPS.push(['1 s passes', (w, m) => { pass(m, 1000); return { outs: W.advance(w.s, 1000) }; }]);
  for (const x of ['refuse', 'fail', 'one', 'accept']) STEPS.push([`receiver: ${x}`, (w, m) => (m.mode === x || m.switched ? null : ((m.mode = mode = x), { outs: [{ s: w.s, kind: 'ret', v: UNDEF }], sw: true }))]);
  const lit = (l) => l.map((e) => `${e.eventProperties.n}${e.eventProperties.time !== undefined ? '@' + e.eventProperties.time : ''}`).join();
  let total = 0;
  const explore = (start, depth, label, m0, filter) => {
    let work = [{ ...start, m: m0, hist: [] }];
    for (let d = 0; d < depth; d++) {
      const next = [];
      for (const w of work) for (const [step, f] of STEPS) {
        if (filter && !filter(step, d)) continue;
        const m = { ...w.m, sent: [], switched: w.m.sw };
        mode = m.mode;
        W.now = m.now;
        const n = w.s.events().length;
        const r = f(w, m);
        if (!r) continue;
        m.sw = !!r.sw;
        if (r.sw && d + 1 === depth) continue;
        total++;
        const hist = [...w.hist, step], what = `${label}${hist.join(', ')}`;
        ck.ob('every history has a single outcome', r.outs.length === 1, { at, what, key: 'one' });
        for (const o of r.outs) {
          const fails = r.ret === 'throw';
          ck.ob('consent changes and impressions never fail', o.kind === 'ret' || fails, { at: ck.loc(o.node) || at, what, key: 'throw' });
          if (r.ret !== undefined && !fails && o.kind === 'ret') ck.ob('the result reported to the SDK is that of the receiver, or success while consent is withheld', W.is(o.s, o.v, r.ret) === true, () => ({ at, what: `${what}: ${show(o.v, o.s)} instead of ${r.ret}`, key: 'result' }));
          const ev = heard(o.s, n);
          ck.ob('impressions reach the receiver once each, in order, only with consent', ev.length === m.sent.length && ev.every((e, i) => e.args.length >= 1 && W.is(o.s, e.args[0], m.sent[i]) === true), () => ({ at, what: `${what}: receiver given [${ev.map((e) => show(e.args[0], o.s))}] instead of [${lit(m.sent)}]`, key: 'sent' }));
          ck.ob('the receiver is called as a method of its integration', ev.every((e) => !e.recv || e.recv === w.integration || (W.I.constOf(o.s, e.recv) || e.recv) === w.integration), () => ({ at, what: `${what}: called on ${ev.map((e) => e.recv && show(e.recv, o.s))}`, key: 'this' }));
          ck.ob('impressions are not written to the device', !o.s.events().slice(n).some((e) => e.name === 'Storage.setItem' || e.name === 'cookie'), { at, what, key: 'device' });
          next.push({ s: o.s, integration: w.integration, m: { ...m, mode }, hist });
        }
      }
      work = next;
    }
    return work;
  };
  const M = (required) => ({ required, consent: required ? 'pending' : 'granted', mode: 'accept', buf: [], tick: undefined, n: 0, now: T0, sent: [] });
  explore(begin(true, 1), ck.thorough ? 7 : 6, 'consent pending: ', M(true), (step, d) => !/with time/.test(step) || d === 0);
  const LATE = ['receiver: refuse', 'impression', 'granted', 'denied'];
  explore(begin(true, 1), ck.thorough ? 9 : 8, 'refused after waiting for the receiver: ', M(true), (step, d) => (LATE[d] ? step === LATE[d] : !/with time/.test(step)));
  explore(begin(true, 2), 3, 'wrapped twice, consent pending: ', M(true));
  explore(begin(false, 2), 3, 'wrapped twice, no consent required: ', M(false));
  // ---- the bound ---------------------------------------------------------------
  for (const [count, mode1] of [[512, 'accept'], [513, 'accept'], [515, 'accept'], [514, 'refuse']]) {
    W.now = T0;
    const { s: s0, integration } = begin(true, 1);
    let s = s0;
    for (let i = 1; i <= count; i++) { const x = s.clone(); s = W.invoke(x, integration, 'track', [W.val(x, event(i, true))])[0].s; }
    mode = mode1;
    let n = s.events().length;
    let outs = W.consent(s, 'granted');
    if (mode1 === 'refuse') {
      const o = outs[0];
      ck.ob('the bound keeps the latest impressions', outs.length === 1 && heard(o.s, n).length === 1, { at, what: `${count} impressions, refusing receiver`, key: 'bound' });
      mode = 'accept';
      n = o.s.events().length;
      outs = W.advance(o.s, 1000);
    }
    for (const o of outs) {
      const ev = heard(o.s, n);
      const first = count - 512;
      ck.ob('the bound keeps the latest impressions', outs.length === 1 && ev.length === 512 && ev.every((e, i) => W.is(o.s, e.args[0], event(first + 1 + i, true)) === true), () => ({ at, what: `${count} impressions while pending, then granted: ${ev.length} delivered, first ${ev[0] ? show(ev[0].args[0], o.s) : '-'}`, key: 'bound' }));
    }
  }
  ck.notes.push(`${total} steps`);
  ck.atLeast('impressions reach the receiver once each, in order, only with consent', 1000);
};
