'use strict';
const { TagWorld } = require('./tag-world');
const { C, UNDEF, show } = require('../engine/lib');
exports.technique = 'exhaustive abstract histories of the session manager over a modelled clock, cookie jar and consent state, compared with a reference session';
exports.explanation =
  'Every sequence up to the bound of session reads, activity, elapsed time below, at and beyond the timeout, clearing, consent decisions and activity of another page is interpreted on the session manager, starting from every kind of stored cookie, with and without required consent and with blocked cookies. Session identity, start time and cookie content are compared with the reference session after every step.';
const TIMEOUT = 30 * 60 * 1000, KEY = 'EXP_apikey-lon_rtbt_session';
exports.run = function (ck) {
  let blocked = false;
  const W = new TagWorld(ck, 'SessionManager', 'experiment-tag', { budget: ck.thorough ? 6e8 : 1.5e8, cookieBlocked: () => blocked });
  const at = W.loc('getCurrentSessionId');
  const T0 = W.now;
  const enc = (o) => encodeURIComponent(typeof o === 'string' ? o : JSON.stringify(o));
  const STORED = {
    none: undefined,
    recent: { sessionId: 'old', sessionStartTime: T0 - 5000, lastEventTime: T0 - 1000 },
    stale: { sessionId: 'old', sessionStartTime: T0 - TIMEOUT * 3, lastEventTime: T0 - TIMEOUT - 1 },
    'at the timeout': { sessionId: 'old', sessionStartTime: T0 - TIMEOUT * 3, lastEventTime: T0 - TIMEOUT },
    'without start': { sessionId: 'old', lastEventTime: T0 - 1000 },
    'not JSON': '{x', 'other JSON': '"x"', 'bad id': { sessionId: 5, lastEventTime: T0 }, 'bad time': { sessionId: 'old', lastEventTime: String(T0) }, nothing: 'null',
  };
  const valid = (o) => (o && typeof o === 'object' && typeof o.sessionId === 'string' && typeof o.lastEventTime === 'number' ? { id: 'old', start: typeof o.sessionStartTime === 'number' ? o.sessionStartTime : o.lastEventTime, last: o.lastEventTime } : undefined);
  // ---- reference session -------------------------------------------------------
  const withheld = (m) => m.required && m.consent !== 'granted';
  const current = (m) => (!withheld(m) && m.usable && m.cookie && m.cookie.id ? m.cookie : m.memory);
  const write = (m, v) => {
    m.memory = v;
    if (withheld(m)) { if (m.consent === 'pending') m.armed = true; return; }
    if (!m.usable) return;
    if (m.blocked) m.usable = false; else m.cookie = v;
  };
  const live = (m, t) => { const c = current(m); return c && t - c.last <= m.timeout ? c : null; };
  const read = (m, t) => { const c = live(m, t); if (c) return c; const f = { id: '#' + ++m.n, start: t, last: t }; write(m, f); return f; };
  const act = (m, t) => { const c = live(m, t); write(m, c ? { ...c, last: t } : { id: '#' + ++m.n, start: t, last: t }); };
  const decide = (m, x) => { if (m.consent === x) return; const was = m.consent; m.consent = x; if (was === 'pending') { if (m.armed && x === 'granted' && m.memory) { write(m, m.memory); } m.armed = false; } };
  const STEPS = [
    ['read', (w, m) => { const e = read(m, w.t); return { outs: W.call(w.s, w.self, 'getCurrentSessionId', []), id: e.id }; }],
    ['activity', (w, m) => { act(m, w.t); return { outs: W.call(w.s, w.self, 'recordActivity', []) }; }],
    ['1 ms before the timeout', (w) => ({ outs: [{ s: w.s, kind: 'ret', v: UNDEF }], dt: w.m.timeout - 1 })],
    ['the timeout passes', (w) => ({ outs: [{ s: w.s, kind: 'ret', v: UNDEF }], dt: w.m.timeout })],
    ['1 ms after the timeout', (w) => ({ outs: [{ s: w.s, kind: 'ret', v: UNDEF }], dt: w.m.timeout + 1 })],
    ['clear', (w, m) => { m.memory = undefined; if (!(m.required && m.consent === 'pending') && !m.blocked) m.cookie = undefined; return { outs: W.call(w.s, w.self, 'clearSession', []) }; }],
    ['consent granted', (w, m) => (m.required && m.consent !== 'granted' ? (decide(m, 'granted'), { outs: W.consent(w.s, 'granted') }) : null)],
    ['consent denied', (w, m) => (m.required && m.consent !== 'denied' ? (decide(m, 'denied'), { outs: W.consent(w.s, 'denied') }) : null)],
    ['activity of another page', (w, m) => (m.blocked ? null : ((m.cookie = { id: 'other', start: w.t - 10, last: w.t - 10 }), { outs: [{ s: W.setCookie(w.s, KEY, enc({ sessionId: 'other', sessionStartTime: w.t - 10, lastEventTime: w.t - 10 })), kind: 'ret', v: UNDEF }] }))],
  ];
  const idOf = (w, tok, actual) => {
    if (tok === 'old' || tok === 'other') return actual === tok;
    if (w.ids[tok] !== undefined) return w.ids[tok] === actual;
    if (typeof actual !== 'string' || !actual || Object.values(w.ids).includes(actual) || actual === 'old' || actual === 'other') return false;
    w.ids = { ...w.ids, [tok]: actual };
    return true;
  };
  const str = (s, v) => { const c = v && W.I.constOf(s, v); return c && c.k === 'c' ? c.v : undefined; };
  let total = 0;
  const runs = [];
  for (const [name] of Object.entries(STORED)) for (const required of [false, true]) runs.push([name, required, false, undefined]);
  runs.push(['none', false, true, undefined], ['none', true, true, undefined], ['recent', false, true, undefined], ['none', false, false, 1000], ['recent', false, false, 1000]);
  for (const [name, required, blk, timeout] of runs) {
    blocked = false;
    const o = STORED[name];
    const full = ['none', 'recent'].includes(name) && !timeout;
    const depth = (full ? 4 : 3) + (ck.thorough ? 1 : 0);
    W.now = T0;
    let s = W.start();
    if (o !== undefined) s = W.setCookie(s, KEY, enc(o));
    if (required) [s] = W.require(s);
    blocked = blk;
    const label = `${name === 'none' ? 'no stored session' : 'stored session ' + name}${required ? ', consent required' : ''}${blk ? ', cookies blocked' : ''}${timeout ? ', timeout ' + timeout : ''}`;
    let work = W.make([C('apikey-long-1234'), ...(timeout ? [C(timeout)] : [])], s).map((x) => ({
      s: x.s, self: x.v, t: T0, hist: [], ids: {},
      m: { timeout: timeout || TIMEOUT, required, consent: required ? 'pending' : 'granted', blocked: blk, usable: true, armed: false, n: 0, memory: undefined, cookie: o === undefined ? undefined : valid(o) || { junk: o } },
    }));
    for (let d = 0; d < depth; d++) {
      const next = [];
      for (const w of work) for (const [step, f] of STEPS) {
        if (/timeout/.test(step) && (d + 1 === depth || /timeout/.test(w.hist[d - 1]))) continue;
        const m = { ...w.m };
        W.now = w.t;
        const r = f({ ...w, m: w.m }, m);
        if (!r) continue;
        total++;
        const hist = [...w.hist, step], t = w.t + (r.dt || 0);
        const what = `${label}: ${hist.join(', ')}`;
        ck.ob('every history has a single outcome', r.outs.length === 1 && r.outs[0].kind === 'ret', { at: ck.loc(r.outs[0] && r.outs[0].node) || at, what, key: 'one' });
        for (const q of r.outs) {
          if (q.kind !== 'ret') continue;
          const nw = { s: q.s, self: w.self, t, m, hist, ids: w.ids };
          if (r.id) ck.ob('a session continues within the timeout and rotates after it', idOf(nw, r.id, str(q.s, q.v)), () => ({ at, what: `${what}: session ${show(q.v, q.s)} instead of ${r.id[0] === '#' ? 'a new one' : r.id} (known ${JSON.stringify(nw.ids)})`, key: 'id' }));
          // what is stored on the device
          const raw = W.cookie(q.s, KEY), js = raw && raw.k === 'c' ? (() => { try { return JSON.parse(decodeURIComponent(raw.v)); } catch (e) { return raw.v; } })() : raw;
          let ok;
          if (!m.cookie) ok = raw === undefined;
          else if (!m.cookie.id) ok = raw && raw.v === enc(m.cookie.junk);
          else ok = js && idOf(nw, m.cookie.id, js.sessionId) && js.lastEventTime === m.cookie.last && (js.sessionStartTime === m.cookie.start || (js.sessionStartTime === undefined && m.cookie.start === m.cookie.last));
          ck.ob('the session is stored exactly when persistence is allowed', !!ok, () => ({ at, what: `${what}: cookie ${JSON.stringify(js)} instead of ${JSON.stringify(m.cookie)}`, key: 'cookie' }));
          // what a reader sees next
          const pm = { ...m };
          const want = read(pm, t);
          W.now = t;
          for (const p of W.call(q.s, w.self, 'getSessionStartTime', [])) ck.ob('the start time is that of the session', p.kind === 'ret' && W.is(p.s, p.v, want.start) === true, () => ({ at, what: `${what}: start ${show(p.v, p.s)} instead of ${want.start}`, key: 'start' }));
          const pw = { ...nw, ids: nw.ids };
          for (const p of W.call(q.s, w.self, 'getOrCreateSessionId', [])) ck.ob('a session continues within the timeout and rotates after it', p.kind === 'ret' && idOf(pw, want.id, str(p.s, p.v)), () => ({ at, what: `${what}: then session ${show(p.v, p.s)} instead of ${want.id[0] === '#' ? 'a new one' : want.id} (known ${JSON.stringify(nw.ids)})`, key: 'next-id' }));
          next.push(nw);
        }
      }
      work = next;
    }
  }
  ck.notes.push(`${total} steps`);
  ck.atLeast('a session continues within the timeout and rotates after it', 1000);
};
