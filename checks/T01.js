'use strict';
const { TagWorld } = require('./tag-world');
const { C, D, UNDEF, term, show } = require('../engine/lib');
const { X } = D;
exports.technique = 'exhaustive abstract histories of the gated storages, cookies and start-up over modelled storage, compared with a reference of what a visitor without consent leaves and reveals';
exports.explanation =
  'Every sequence up to the bound of reads, writes, removals and consent decisions is interpreted on the storage helpers, the cookie storage and the session cookie, with and without required consent and with data of an earlier visit on the device; every accepted start is interpreted while consent is pending, refused and granted. After every step what reads return, what is on the device and which accesses the device saw are compared with the reference.';
const J = JSON.stringify;
exports.run = function (ck) {
  storages(ck);
  cookies(ck);
  sessionCookie(ck);
  start(ck);
};
// ---- what the reference remembers -------------------------------------------------
const withheld = (m) => m.required && m.status !== 'granted';
const pending = (m) => m.required && m.status === 'pending';
const decide = (m, x, flush) => {
  if (x === m.status) return;
  const was = m.status;
  m.status = x;
  if (was !== 'pending') return;
  if (x === 'granted' && m.required) flush(m);
  m.pend = {};
};
const copy = (m) => JSON.parse(J(m));
function histories(ck, W, at, label, configs, STEPS, begin, check, depth) {
  let total = 0;
  for (const [cname, required, first] of configs) for (const [dname, b] of begin) {
    let s = W.require(W.start(), required)[0];
    let outs0 = b.make(s);
    let work = outs0.map(([x, self]) => ({ s: x, self, m: { ...copy(b.m), required, status: 'pending' }, hist: [] }));
    if (!ck.ob('the storage can be made', work.length === 1, { at, what: `${label}: ${work.length} outcomes`, key: 'make' + label })) continue;
    if (first) { decide(work[0].m, first, () => {}); work[0].s = W.consent(work[0].s, first)[0].s; }
    const known = new Set();
    for (let d = 0; d < depth; d++) {
      const next = [];
      for (const w of work) for (const [name, f] of STEPS) {
        const m = copy(w.m), n = w.s.events().length;
        const outs = f(w, m);
        if (!outs) continue;
        total++;
        const hist = [...w.hist, name], what = `${label}, consent ${cname}, device with ${dname}: ${hist.join(', ')}`;
        if (!ck.ob('every step has a single outcome and none fails', outs.length === 1 && outs[0].kind === 'ret', () => ({ at: ck.loc(outs[0] && outs[0].node) || at, what: `${what}: ${outs.map((o) => o.kind + ' ' + show(o.v, o.s)).join(' | ').slice(0, 200)}`, key: label + name }))) continue;
        check(outs[0].s, n, m, w, what, name);
        const k = J([m, name]);
        if (known.has(k)) continue;
        known.add(k);
        next.push({ s: outs[0].s, self: w.self, m, hist });
      }
      work = next;
    }
  }
  ck.notes.push(`${label}: ${total} steps`);
}
const CONFIGS = [['not required', false], ['pending', true], ['granted', true, 'granted'], ['refused', true, 'denied']];
const decisions = (W, flush) => ['granted', 'denied'].map((x) => [x, (w, m) => { if (m.status === x) return null; decide(m, x, flush); return W.consent(w.s.clone(), x); }]);
// ---- localStorage and sessionStorage ---------------------------------------------------
function storages(ck) {
  const file = ck.p.sources.find((f) => /experiment-tag[/\\]src[/\\]util[/\\]storage\.ts$/.test(f.fileName));
  const touched = [];
  let broken, manager;
  const W = new TagWorld(ck, file, '', { callbacks: { revoke: (w, s, args, ctx) => (args[0].k === 'c' && args[0].v === 'granted' ? { states: w.I.callMethod(s, ctx, manager, C('setStatus'), [C('denied')], w.cls).map(([x]) => [x, UNDEF]) } : undefined) }, budget: ck.thorough ? 6e8 : 1e8, storage: (op, area, key) => { touched.push([op, area, key]); return key === broken && op === 'setItem' ? 'throw' : undefined; } });
  const at = ck.loc(file);
  const ID = 'EXP_apikey', K = 'EXP_apikey_k', PROV = 'EXP_apikey_DEFAULT_USER_PROVIDER', EX = ['amp-preview-mode', 'visual-editor-state'];
  const call = (w, name, ...args) => W.exported(w.s.clone(), name, 'util/storage').flatMap(([x, f]) => { const r = x.clone(); return W.callValue(r, f, args.map((a) => W.val(r, a))); });
  const area = { localStorage: 'local', sessionStorage: 'session' };
  const keep = { [ID]: ['web_exp_id', 'web_exp_id_v2', 'device_id'], [PROV]: ['first_seen'] };
  const merge = (k, mine, device) => { const r = { ...mine }; for (const p of keep[k.slice(k.indexOf(':') + 1)] || []) if (device && device[p] !== undefined) r[p] = device[p]; return r; };
  const flush = (m) => { for (const [k, v] of Object.entries(m.pend)) if (k.slice(k.indexOf(':') + 1) !== broken) m.dev[k] = merge(k, v, m.dev[k]); };
  const exempt = (k) => EX.includes(k.slice(k.indexOf(':') + 1));
  const SET = [['localStorage', ID, { web_exp_id: 'w2', device_id: 'd2', x: 1 }], ['localStorage', PROV, { first_seen: '9', y: 1 }], ['sessionStorage', PROV, { landing_url: 'u', first_seen: '3' }], ['localStorage', K, { a: 1 }], ['sessionStorage', K, { b: 2 }], ['localStorage', K, { a: 2 }], ...EX.map((k) => ['sessionStorage', k, { e: 1 }])];
  const STEPS = [
    ...SET.map(([t, k, v]) => [`write ${t} ${k} ${J(v)}`, (w, m) => {
      const id = `${t}:${k}`;
      if (!withheld(m) || exempt(id)) { if (k !== broken) m.dev[id] = v; } else if (pending(m)) m.pend[id] = v;
      return call(w, 'setStorageItem', t, k, v);
    }]),
    ...[['localStorage', K], ['sessionStorage', PROV], ['sessionStorage', EX[0]]].map(([t, k]) => [`remove ${t} ${k}`, (w, m) => {
      const id = `${t}:${k}`;
      delete (pending(m) && !exempt(id) ? m.pend : m.dev)[id];
      return call(w, 'removeStorageItem', t, k);
    }]),
    ...decisions(W, (m) => flush(m)),
  ];
  const READ = [['localStorage', ID], ['localStorage', PROV], ['sessionStorage', PROV], ['localStorage', K], ['sessionStorage', K], ['sessionStorage', EX[0]], ['sessionStorage', EX[1]]];
  const seeded = (dev) => ({ m: { dev, pend: {} }, make: (s) => { let r = s; for (const [k, v] of Object.entries(dev)) { const [t, key] = k.split(':'); r = r.clone(); r = W.setStored(r, area[t], key, C(J(v))); } return [[r, UNDEF]]; } });
  const BEGIN = [['nothing', seeded({})], ['an earlier visit', seeded({ [`localStorage:${ID}`]: { web_exp_id: 'w1', web_exp_id_v2: 'v1', device_id: 'd1', z: 1 }, [`localStorage:${PROV}`]: { first_seen: '1', old: 1 }, [`localStorage:${K}`]: { a: 0, first_seen: '0', web_exp_id: 'w0', device_id: 'd0' }, [`sessionStorage:${EX[1]}`]: { e: 0 } })], ['part of an earlier visit', seeded({ [`localStorage:${ID}`]: { web_exp_id_v2: 'v1' }, [`sessionStorage:${PROV}`]: { landing_url: 'o' } })]];
  const compare = (s, m, what, last) => {
    const real = {};
    for (const t of Object.keys(area)) for (const k of W.storedKeys(s, area[t])) { const v = W.stored(s, area[t], k), c = v && (W.I.constOf(s, v) || v); try { real[`${t}:${k}`] = JSON.parse(c.v); } catch (e) { real[`${t}:${k}`] = '?'; } }
    for (const k of new Set([...Object.keys(real), ...Object.keys(m.dev)])) ck.ob('the device holds what consent allows', W.eqj(real[k], m.dev[k]), () => ({ at, what: `${what}: ${k} holds ${J(real[k])} instead of ${J(m.dev[k])}`, key: k + last }));
  };
  W.eqj = (a, b) => { const sort = (o) => (o && typeof o === 'object' ? J(Object.entries(o).sort()) : J(o)); return sort(a) === sort(b); };
  const check = (s, n, m, w, what, last) => {
    // accesses of the step itself; a grant is the moment access becomes allowed
    const seen = touched.splice(0).filter(([op, a, k]) => withheld(m) && !EX.includes(k) && !(op === 'removeItem' && !pending(m)));
    ck.ob('nothing is accessed while consent is withheld', !seen.length, () => ({ at, what: `${what}: ${seen.map((x) => x.join(' '))}`, key: 'touch' + last }));
    compare(s, m, what, last);
    for (const [t, k] of READ) {
      const id = `${t}:${k}`, want = !withheld(m) || exempt(id) ? m.dev[id] : m.pend[id];
      for (const o of call({ s }, 'getStorageItem', t, k)) {
        const got = o.kind === 'ret' ? (W.is(o.s, o.v, want === undefined ? null : want) === true) : false;
        ck.ob('reads reveal only what consent allows', got, () => ({ at, what: `${what}: reading ${id} gives ${show(o.v, o.s)} instead of ${J(want)}`, key: id + last }));
      }
    }
    const reads = touched.splice(0).filter(([op, a, k]) => withheld(m) && !EX.includes(k));
    ck.ob('nothing is accessed while consent is withheld', !reads.length, () => ({ at, what: `${what}: reading accesses ${reads.map((x) => x.join(' '))}`, key: 'read' + last }));
  };
  for (broken of [undefined, K]) histories(ck, W, at, broken ? 'storage refusing one key' : 'storage', CONFIGS, STEPS, BEGIN, check, (ck.thorough ? 4 : 3) - (broken ? 1 : 0));
  broken = undefined;
  // consent taken back by another listener before the buffered writes are handed over
  for (const [o, mgr] of W.require(W.start()).flatMap((x) => W.gate(x).map(([y, g]) => [y, W.get(y, g, 'manager')]))) {
    manager = mgr;
    for (const a of W.invoke(o, mgr, 'onChange', [W.sym('revoke', X)])) for (const b of call(a, 'setStorageItem', 'localStorage', K, { a: 1 })) for (const p of W.invoke(b.s, mgr, 'setStatus', [C('granted')])) {
      ck.ob('the device holds what consent allows', p.kind === 'ret' && p.s.events().some((e) => e.name === 'callback:revoke') && !W.storedKeys(p.s, 'local').includes(K), { at, what: 'a listener takes a grant back before the buffered writes are handed over: they are written', key: 'revoked' });
    }
  }
  ck.atLeast('reads reveal only what consent allows', 500);
  ck.atLeast('the device holds what consent allows', 200);
}
// ---- cookies through analytics-core ---------------------------------------------------
function cookies(ck) {
  let blocked = false;
  const W = new TagWorld(ck, 'ConsentAwareCookieStorage', 'experiment-tag', { budget: ck.thorough ? 6e8 : 1e8, cookieBlocked: (s, k) => blocked && k === 'k' });
  const at = W.loc('get');
  const ID = 'EXP_apikey_identity';
  const lit = (s, v) => { const c = v && (W.I.constOf(s, v) || v); return c && c.k === 'c' ? c.v : v && v.k === 'o' ? (() => { const j = W.stringify(s, v); return j && j[1].k === 'c' ? JSON.parse(j[1].v) : '?'; })() : undefined; };
  const merge = (k, mine, device) => { if (typeof mine !== 'string') return mine; const a = JSON.parse(mine), b = device ? JSON.parse(device) : {}; return J({ ...a, ...Object.fromEntries(['web_exp_id_v2', 'first_seen'].filter((p) => b[p] !== undefined).map((p) => [p, b[p]])) }); };
  const flush = (m) => { for (const [k, v] of Object.entries(m.pend)) if (!(blocked && k === 'k')) m.dev[k] = merge(k, v, m.dev[k]); };
  const invoke = (w, name, ...args) => { const r = w.s.clone(); return W.invoke(r, w.self, name, args.map((a) => W.val(r, a))).map((o) => ({ ...o, v: o.v })); };
  const set = (k, v) => [`write ${k} ${J(v)}`, (w, m) => { if (!withheld(m)) { if (blocked && k === 'k') return null; m.dev[k] = v; } else if (pending(m)) m.pend[k] = v; return invoke(w, 'set', k, v); }];
  const STEPS = [
    set('k', { f: { a: 1 } }), set('j', { g: 2 }), set(ID, J({ web_exp_id_v2: 'n', first_seen: '9' })),
    ['write k and change the object afterwards', (w, m) => {
      if (blocked || !withheld(m)) return null;
      const r = w.s.clone(), v = W.val(r, { f: { a: 1 } });
      if (pending(m)) m.pend.k = { f: { a: 1 } };
      return W.invoke(r, w.self, 'set', [C('k'), v]).map((o) => ({ ...o, s: W.set(o.s, W.get(o.s, v, 'f'), 'a', 7) }));
    }],
    ['read k and change the object read', (w, m) => { if (!pending(m) || !m.pend.k) return null; return invoke(w, 'get', 'k').flatMap((o) => { const v = o.v.k === 't' && o.v.op === 'resolved' ? o.v.args[0] : o.v; return [{ ...o, s: W.set(o.s, v, 'f', 7) }]; }); }],
    ['remove k', (w, m) => { delete (pending(m) ? m.pend : m.dev).k; return invoke(w, 'remove', 'k'); }],
    ...decisions(W, (m) => flush(m)),
  ];
  const BEGIN = [['nothing', {}], ['an earlier visit', { k: { f: { a: 0 } }, [ID]: J({ web_exp_id_v2: 'o', first_seen: '1' }) }]].map(([n, dev]) => [n, { m: { dev, pend: {} }, make: (s) => {
    let r = s.clone();
    for (const [k, v] of Object.entries(dev)) r = W.setCookie(r, k, typeof v === 'object' ? W.val(r, v) : v);
    const d = W.val(r, { get: W.sym('cookieGet', X), set: W.sym('cookieSet', X), remove: W.sym('cookieRemove', X) });
    return W.make([d], r).map((o) => [o.s, o.v]);
  } }]);
  const check = (s, n, m, w, what, last) => {
    const mine = s.events().slice(n).filter((e) => e.name === 'cookie' || /^callback:cookie/.test(e.name));
    const bad = withheld(m) ? mine.filter((e) => pending(m) || (e.args[1] && e.args[1] !== UNDEF)) : [];
    ck.ob('no cookie is accessed while consent is withheld', !bad.length, () => ({ at, what: `${what}: ${bad.map((e) => e.name + ' ' + show(e.args[0], s))}`, key: 'cookie' + last }));
    for (const k of ['k', 'j', ID]) {
      const real = lit(s, W.cookie(s, k));
      ck.ob('the cookies hold what consent allows', J(real) === J(m.dev[k]), () => ({ at, what: `${what}: ${k} holds ${J(real)} instead of ${J(m.dev[k])}`, key: k + last }));
      const want = withheld(m) ? m.pend[k] : m.dev[k];
      for (const o of invoke({ s, self: w.self }, 'get', k)) {
        const v = o.v && o.v.k === 't' && o.v.op === 'resolved' ? o.v.args[0] : o.v, got = lit(o.s, v);
        ck.ob('cookie reads reveal only what consent allows', J(got) === J(want), () => ({ at, what: `${what}: reading ${k} gives ${J(got)} instead of ${J(want)}`, key: k + last }));
        const acc = o.s.events().slice(s.events().length).filter((e) => /^callback:cookie|^cookie$/.test(e.name));
        if (withheld(m)) ck.ob('no cookie is accessed while consent is withheld', !acc.length, () => ({ at, what: `${what}: reading ${k} accesses the cookie`, key: 'read' + last }));
      }
    }
  };
  histories(ck, W, at, 'cookies', CONFIGS, STEPS, BEGIN, check, ck.thorough ? 5 : 4);
  blocked = true;
  histories(ck, W, at, 'cookies refusing one key', CONFIGS.slice(1, 2), STEPS.filter(([n]) => n !== 'remove k'), BEGIN, check, 3);
  ck.atLeast('cookie reads reveal only what consent allows', 500);
}
// ---- the session cookie -----------------------------------------------------------------
function sessionCookie(ck) {
  const W = new TagWorld(ck, 'SyncJsonCookie', 'experiment-tag', { budget: ck.thorough ? 6e8 : 1e8, model: (I, s, ctx, info) => (info.name === 'callback:domain' ? [[s, C('.example.com')]] : undefined) });
  const at = W.loc('read');
  const invoke = (w, name, ...args) => { const r = w.s.clone(); return W.invoke(r, w.self, name, args.map((a) => W.val(r, a))); };
  const STEPS = [
    ...[{ id: 1 }, { id: 2 }].map((v) => [`write ${J(v)}`, (w, m) => { m.mem = v; if (!withheld(m)) m.dev = v; else if (pending(m)) m.pend = { v: 1 }; return invoke(w, 'write', v); }]),
    ['clear', (w, m) => { m.mem = null; if (!pending(m)) m.dev = null; return invoke(w, 'clear'); }],
    ...decisions(W, (m) => { if (m.pend.v && m.mem) m.dev = m.mem; }),
  ];
  const BEGIN = [['nothing', null], ['an earlier visit', { id: 0 }]].map(([n, dev]) => [n, { m: { dev, pend: {}, mem: null }, make: (s) => { const r = dev ? W.setCookie(s, 'c', encodeURIComponent(J(dev))) : s; return W.make([C('c'), W.sym('domain', X), W.val(r, {})], r).map((o) => [o.s, o.v]); } }]);
  const check = (s, n, m, w, what, last) => {
    const c = W.cookie(s, 'c'), k = c && (W.I.constOf(s, c) || c), real = k && k.k === 'c' ? JSON.parse(decodeURIComponent(k.v)) : c ? '?' : null;
    ck.ob('the cookies hold what consent allows', J(real) === J(m.dev), () => ({ at, what: `${what}: holds ${J(real)} instead of ${J(m.dev)}`, key: 'sync' + last }));
    const writes = s.events().slice(n).filter((e) => e.name === 'cookie');
    ck.ob('no cookie is accessed while consent is withheld', !withheld(m) || !writes.length || (last === 'clear' && !pending(m)), () => ({ at, what: `${what}: writes a cookie`, key: 'sync' + last }));
    const want = withheld(m) ? m.mem : m.dev || m.mem;
    for (const o of invoke({ s, self: w.self }, 'read')) ck.ob('cookie reads reveal only what consent allows', o.kind === 'ret' && (want ? W.is(o.s, o.v, want) === true : o.v === UNDEF), () => ({ at, what: `${what}: reading gives ${show(o.v, o.s)} instead of ${J(want)}`, key: 'sync' + last }));
  };
  histories(ck, W, at, 'session cookie', CONFIGS, STEPS, BEGIN, check, ck.thorough ? 6 : 5);
}
// ---- the start ------------------------------------------------------------------------------
function start(ck) {
  const idx = ck.p.sources.find((f) => /experiment-tag[/\\]src[/\\]index\.ts$/.test(f.fileName));
  const touched = [];
  const W = new TagWorld(ck, idx, '', {
    budget: ck.thorough ? 4e8 : 1e8,
    storage: (op, area, key) => { touched.push([op, area, key]); return undefined; },
    callbacks: { start: (w, s) => ({ states: [[s, term('resolved', [UNDEF], { mask: X })]] }), track: () => undefined },
    events: [/getInstance$/, /(^|\.)(fetch|sendBeacon|append|appendChild|insertBefore|createElement|insertRule|replace|pushState)$/, 'track'],
    model: (I, s, ctx, info, w) => {
      if (/DefaultWebExperimentClient\.getInstance$/.test(info.name || '')) { const r = I.emit(s, ctx, { name: 'getInstance', args: info.args, node: info.node }).clone(); return [[r, w.val(r, { isRedirecting: false, start: w.sym('start', X) })]]; }
      if (/(^|\.)isPreviewMode$/.test(info.name || '')) return [[s, C(false)]];
      if (/(^|\.)removeAntiFlickerCss$/.test(info.name || '')) return [[s, UNDEF]];
    },
  });
  const at = ck.loc(idx), g = W.globalObject();
  const KEY = 'deployment-key';
  let s0 = W.start();
  for (const k of ['webExperiment', 'experimentConfig', 'WebExperiment']) s0 = W.set(s0, g, k, UNDEF);
  s0 = W.setStored(s0.clone(), 'local', 'EXP_deployment', C('{"web_exp_id":"old"}'));
  s0 = W.setStored(s0.clone(), 'local', 'mine', C('"site"'));
  const call = (s, name, args, hint = 'experiment-tag/src/index.ts') => W.exported(s, name, hint).flatMap(([x, f]) => { const r = x.clone(); return W.callValue(r, f, args(r)); });
  const event = (s, type) => call(s, 'createPlugin', () => []).flatMap((o) => { const r = o.s.clone(); return W.invoke(r, o.v, 'execute', [W.val(r, { event_type: type, event_properties: { p: 1 } })]); });
  const OPT = { 'not required': {}, pending: { consentRequired: true }, refused: { consentRequired: true, consentStatus: 'denied' }, granted: { consentRequired: true, consentStatus: 'granted' }, 'an invalid status': { consentRequired: true, consentStatus: 'yes' } };
  const STEPS = [
    ...Object.entries(OPT).map(([n, o]) => [`start with consent ${n}`, (w, m) => {
      if (!m.started) {
        const gated = !!o.consentRequired || m.deferred;
        if (gated && !m.explicit && ['granted', 'denied'].includes(o.consentStatus)) m.status = o.consentStatus;
        m.gated = m.gated || gated;
        if (gated && m.status !== 'granted') { m.deferred = true; m.buffer = []; } else { m.started = true; m.deferred = false; }
      }
      return call(w.s, 'initialize', (r) => [C(KEY), W.val(r, {}), W.val(r, { consentOptions: o })]);
    }]),
    ...['granted', 'denied'].map((x) => [`consent ${x}`, (w, m) => { m.explicit = true; m.status = x; if (x === 'granted' && m.deferred && !m.started) { m.started = true; m.deferred = false; } return call(w.s, 'setConsentStatus', () => [C(x)]); }]),
    ['an event', (w, m) => { m.n++; if (!m.deferred || m.started) m.buffer.push('e' + m.n); return event(w.s, 'e' + m.n); }],
  ];
  let work = [{ s: s0, m: { status: 'pending', started: false, deferred: false, explicit: false, buffer: [], n: 0 }, hist: [] }], total = 0;
  const depth = ck.thorough ? 5 : 4, known = new Set();
  for (let d = 0; d < depth; d++) {
    const next = [];
    for (const w of work) for (const [name, f] of STEPS) {
      const m = copy(w.m), n = w.s.events().length;
      touched.length = 0;
      const outs = f(w, m);
      total++;
      const hist = [...w.hist, name], what = hist.join(', ');
      if (!ck.ob('every step has a single outcome and none fails', outs.length === 1 && outs[0].kind === 'ret', () => ({ at: ck.loc(outs[0] && outs[0].node) || at, what: `${what}: ${outs.map((o) => o.kind + ' ' + show(o.v, o.s)).join(' | ').slice(0, 200)}`, key: 'start' + name }))) continue;
      const s = outs[0].s, evs = s.events().slice(n), launched = evs.filter((e) => e.name === 'getInstance').length;
      ck.ob('a client is created only with consent', launched === (m.started && !w.m.started ? 1 : 0), () => ({ at, what: `${what}: ${launched} clients`, key: 'launch' + name }));
      if (!m.started) {
        const net = evs.filter((e) => !/^(Storage\.|cookie$|callback:)/.test(e.name));
        ck.ob('nothing is requested or put on the page before consent', !net.length, () => ({ at: ck.loc(net[0] && net[0].node) || at, what: `${what}: ${net.map((e) => e.name)}`, key: 'effect' + name }));
        const deniedNow = m.gated && m.status === 'denied';
        const acc = touched.filter(([op]) => !(deniedNow && op === 'removeItem')), cook = evs.filter((e) => e.name === 'cookie').filter((e) => { return !(deniedNow && /expires=Thu, 01 Jan 1970|^.?EXP_deployment_erased=1;/.test(show(e.args[0], s))); });
        ck.ob('nothing is accessed on the device before consent', !acc.length && !cook.length, () => ({ at, what: `${what}: ${acc.map((x) => x.join(' '))} ${cook.map((e) => show(e.args[0], s).slice(0, 60))}`, key: 'access' + name }));
      }
      // what was tracked before the start and is handed to the client
      const r0 = s.clone(), client = W.val(r0, { trackEvent: W.sym('track', X) });
      for (const o of call(r0, 'flushEventBuffer', () => [client])) {
        const sent = o.s.events().slice(s.events().length).filter((e) => e.name === 'callback:track').map((e) => (e.args[0].k === 'c' ? e.args[0].v : '?'));
        ck.ob('events tracked without consent are never handed to the client, the others once and in order', sent.join() === m.buffer.join(), () => ({ at, what: `${what}: [${sent}] instead of [${m.buffer}]`, key: 'buffer' + name }));
      }
      const k = J([m, name]);
      if (known.has(k)) continue;
      known.add(k);
      next.push({ s, m, hist });
    }
    work = next;
  }
  ck.notes.push(`start: ${total} steps`);
  ck.atLeast('a client is created only with consent', 100);
}
