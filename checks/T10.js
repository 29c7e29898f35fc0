'use strict';
const { ExpWorld } = require('./exp-world');
const { C, D, UNDEF, show } = require('../engine/lib');
const { X } = D;
exports.technique = 'abstract histories of page loads, redirects and client-side navigation, with the storage of each origin carried over, against a reference of markers and impressions';
exports.explanation =
  'Every sequence of loading pages, landing on the target of a redirect, being sent back, navigating inside the page, interacting and waiting up to the bound is interpreted on the started web client; a page load starts the client anew with the storage of its origin and the cookies. After every step the navigations performed and the impressions sent are compared with the reference.';
const R = 'https://www.example.com', Y = 'https://shop.example.com';
const contains = (u) => [[{ op: 'contains', selector: ['context', 'page', 'url'], values: [u] }]];
// flag -> page and target of its redirect
const RULES = {
  f: { at: '/src', to: `${R}/t?v=1` },
  g: { at: '/src', to: `${R}/u` },
  h: { at: '/x', to: `${Y}/y`, expKey: 'e1', metadata: { evaluationMode: 'local', deliveryMethod: 'web', experimentName: 'caf\u00e9 \u65e5\u672c' } },
  j: { at: '/q', to: `${R}/q?v=2&w=3` },
  k: { at: '/hash', to: `${R}/hash#promo` },
  n: { at: '/self', to: `${R}/self` },
  p: { at: '/scoped', to: `${R}/v`, scope: ['other'] },
};
const META = { evaluationMode: 'local', deliveryMethod: 'web' };
exports.run = function (ck) {
  let failing = false;
  const W = new ExpWorld(ck, { budget: ck.thorough ? 9e8 : 3e8, navigationFails: () => failing });
  if (process.env.FORKS) require('/tmp/forks.js')(W, ck);
  const at = W.loc('applyVariants');
  const payload = (r) => [{ action: 'redirect', data: { url: r.to, ...(r.scope ? { metadata: { scope: r.scope } } : {}) } }];
  const flags = Object.entries(RULES).map(([key, r]) => ({ key, variants: { on: { key: 'on', payload: payload(r) } }, metadata: { evaluationMode: 'local' } }));
  const pages = Object.fromEntries(Object.entries(RULES).map(([key, r]) => [key, { p: { id: 'p', name: 'p', trigger_type: 'url_change', conditions: contains(r.at) } }]));
  W.assigned = Object.fromEntries(Object.entries(RULES).map(([key, r]) => [key, { key: 'on', value: 'on', payload: payload(r), ...(r.expKey ? { expKey: r.expKey } : {}), metadata: r.metadata || META }]));
  // ---- reference -----------------------------------------------------------
  const origin = (u) => new URL(u).origin, base = (u) => { const x = new URL(u); x.search = ''; x.hash = ''; return x.href; }, noQuery = (u) => { const x = new URL(u); x.search = ''; return x.href; };
  const clone = (m) => JSON.parse(JSON.stringify({ ...m, went: [], sent: [] }));
  const box = (m) => (m.boxes[origin(m.url)] = m.boxes[origin(m.url)] || { imp: {}, markers: {}, off: [] });
  const target = (u, to) => { const x = new URL(to), t = new URL(to); new URL(u).searchParams.forEach((v, k) => { if (!x.searchParams.has(k)) t.searchParams.append(k, v); }); return t.href; };
  const added = (from, to) => [...new Set([...new URL(to).searchParams.keys()])].filter((k) => new URL(from).searchParams.get(k) !== new URL(to).searchParams.get(k));
  const arrived = (u, t) => u === t || (!new URL(t).hash && u.replace(/#.*/, '') === t.replace(/#.*/, ''));
  const sameParams = (u, k) => k.keys.every((x) => new URL(u).searchParams.get(x) === new URL(k.target).searchParams.get(x));
  const atTarget = (u, k) => noQuery(u) === noQuery(k.target) && sameParams(u, k);
  const atSource = (u, k) => noQuery(u) === noQuery(k.from) && (!k.keys.length || !sameParams(u, k));
  const send = (m, flag) => { const b = base(m.url); (m.cache[b] = m.cache[b] || {}); if (!m.cache[b][flag]) { m.cache[b][flag] = 1; m.sent.push(flag); } };
  const fire = (m) => {
    const B = box(m);
    const inUrl = m.cfg.url ? m.inUrl : {};
    m.inUrl = {};
    const due = [];
    for (const flag of new Set([...(m.cfg.cookie ? Object.keys(m.cookie) : []), ...Object.keys(B.imp), ...Object.keys(inUrl)])) {
      if (base(RULES[flag].to).replace(/\/$/, '') === base(m.url).replace(/\/$/, '')) { send(m, flag); delete m.wait[flag]; forget(m, flag); }
      else if (!m.wait[flag]) { m.wait[flag] = 1; due.push(flag); }
    }
    if (due.length) m.timers.push({ at: m.now + 500, due });
  };
  const forget = (m, flag) => { delete box(m).imp[flag]; if (m.cfg.cookie) delete m.cookie[flag]; };
  const pass = (m, ms) => { const end = m.now + ms; for (const t of m.timers.filter((x) => x.at <= end)) { m.now = t.at; for (const f of t.due) if (m.wait[f]) { send(m, f); delete m.wait[f]; forget(m, f); } } m.timers = m.timers.filter((x) => x.at > end); m.now = end; };
  const apply = (m) => {
    const b = base(m.url), B = box(m);
    if (!m.cache[b]) m.cache = { [b]: {} };
    fire(m);
    for (const [flag, r] of Object.entries(RULES)) {
      if (m.flight || B.off.includes(flag) || r.scope || !m.url.includes(r.at)) continue;
      const to = target(m.url, r.to);
      if (arrived(m.url, to)) continue;
      const k = B.markers[flag];
      if (k && atSource(m.url, k)) { B.off.push(flag); delete B.markers[flag]; continue; }
      m.flight = true;
      B.imp[flag] = 1;
      const cross = new URL(to).hostname !== new URL(m.url).hostname;
      if (cross && m.cfg.cookie) { m.cookie[flag] = 1; }
      B.markers[flag] = { from: m.url, target: to, keys: added(m.url, to), landed: false };
      if (!m.failing) m.went.push(to);
      m.pending = to;
      m.carry = cross && m.cfg.url ? { [flag]: 1 } : {};
      if (m.failing) { delete B.markers[flag]; m.flight = false; m.pending = null; m.carry = {}; return; }
    }
  };
  const load = (m, url, inUrl = {}) => {
    Object.assign(m, { url, now: 0, timers: [], wait: {}, cache: {}, flight: false, pending: null, carry: {}, inUrl });
    const B = box(m);
    for (const [flag, k] of Object.entries(B.markers)) {
      if (atTarget(url, k)) { if (k.landed) delete B.markers[flag]; else k.landed = true; }
      else { if (atSource(url, k) && !k.landed) B.off.push(flag); delete B.markers[flag]; }
    }
    fire(m);
    apply(m);
  };
  const soft = (m, url) => { if (url === m.url) return; m.url = url; m.flight = false; m.pending = null; m.carry = {}; fire(m); apply(m); };
  // ---- the real client ------------------------------------------------------
  const KEYS = ['W:session', 'W:local'];
  const boot = (w, m, url) => {
    // keep the storage of the origin which is left, and the cookies
    const kept = { ...(w.kept || {}) };
    if (w.s) kept[origin(w.m.url)] = w.s.heap;
    let s = W.start();
    s = W.setPage(s, 'href', url);
    s = W.set(s, W.globalObject(), '@@@amplitude/spa-link-interceptor-initiated', true);
    const mine = kept[origin(url)];
    if (mine) W.carry(mine, s, KEYS);
    if (w.s) W.carry(w.s.heap, s, ['W:cookie']);
    W.now = 0;
    const cfg = { useDefaultNavigationHandler: true, redirectConfig: { encodeRedirectInUrl: !!m.cfg.url, encodeRedirectInCookie: !!m.cfg.cookie } };
    return W.client(s, flags, cfg, { pages }).flatMap((o) => {
      if (o.kind !== 'ret') return [o];
      let r = W.I.writeProp(o.s.clone(), W.ctx(), W.globalObject(), C('webExperiment'), o.v, W.cls)[0];
      if (m.cfg.handler) r = W.invoke(r, o.v, 'setRedirectHandler', [W.sym('handler', X)])[0].s;
      return W.invoke(r, o.v, 'start', []).map((p) => ({ ...p, c: o.v, kept, n: 0 }));
    });
  };
  const run = (outs) => outs;
  const STEPS = [
    ['the redirect lands', (w, m) => {
      if (!m.pending || m.cfg.handler) return null;
      const to = m.pending, real = w.real;
      if (to.replace(/#.*/, '') === m.url.replace(/#.*/, '')) { box(m).markers = {}; soft(m, to); return W.navigate(w.s.clone(), 'pop', to); }
      load(m, to, m.carry);
      return boot(w, m, real || to);
    }],
    ['the handler navigates', (w, m) => { if (!m.pending || !m.cfg.handler || origin(m.pending) !== origin(m.url)) return null; const to = m.pending; soft(m, to); return W.navigate(w.s.clone(), 'pushState', w.real || to); }],
    ['the server sends back', (w, m) => { if (!m.pending || m.cfg.handler) return null; load(m, m.url); return boot(w, m, m.url); }],
    ['the server strips one', (w, m) => { if (!m.pending || m.cfg.handler || !/[?&]w=3/.test(m.pending)) return null; const u = m.pending.replace(/&w=3/, ''), c = m.carry; load(m, u, c); return boot(w, m, u); }],
    ['the server sends elsewhere', (w, m) => { if (!m.pending || m.cfg.handler) return null; const u = origin(m.pending) + '/else', c = m.carry; load(m, u); return boot(w, m, u); }],
    ['reload', (w, m) => { if (m.pending) return null; const u = m.url; load(m, u); return boot(w, m, u); }],
    ...['/src', '/x', '/q?a=1', '/q?a=1&v=3'].map((u) => [`open ${u}`, (w, m) => { load(m, R + u); return boot(w, m, R + u); }]),
    ...['/src', '/t?v=1', '/q?a=1', '/q?v=2&a=1', '/else'].map((u) => [`in-page to ${u}`, (w, m) => { if (origin(m.url) !== R) return null; soft(m, R + u); return W.navigate(w.s.clone(), 'replaceState', u); }]),
    ...['pointerdown', 'keydown', 'popstate'].map((e) => [e, (w, m) => { if (w.hist[w.hist.length - 1] === e || (e === 'popstate' && m.flight)) return null; box(m).markers = {}; return W.dispatch(w.s.clone(), e, [UNDEF]); }]),
    ['apply again', (w, m) => { apply(m); return W.invoke(w.s.clone(), w.c, 'applyVariants', []); }],
    ['wait 300', (w, m) => { pass(m, 300); return W.advance(w.s.clone(), 300); }],
    ['wait 600', (w, m) => { pass(m, 600); return W.advance(w.s.clone(), 600); }],
  ];
  let total = 0;
  const check = (o, n, m, what, last) => {
    const went = [], sent = [], urls = [];
    let order = true;
    for (const e of o.s.events().slice(n)) {
      if (e.name === 'navigate' || e.name === 'callback:handler') { const u = W.str(o.s, e.args[0]); urls.push(u); const x = new URL(u); x.searchParams.delete('AMP_REDIRECT'); went.push(x.href); }
      if (e.name === 'exposure') {
        const flag = W.lit(o.s, e.args[0]), v = e.args[1] ? W.lit(o.s, e.args[1]) : undefined;
        sent.push(flag);
        const r = RULES[flag] || {};
        ck.ob('the impression is that of the variant which redirected', !!v && !!v.variant && v.variant.key === 'on' && v.variant.expKey === r.expKey && JSON.stringify(v.variant.metadata) === JSON.stringify(r.metadata || META), () => ({ at, what: `${what}: ${JSON.stringify(v && v.variant)}`, key: 'variant' + flag }));
      }
    }
    ck.ob('a redirect happens only where it should, once', went.join() === m.went.join(), () => ({ at, what: `${what}: navigates to [${went}] instead of [${m.went}]`, key: last + (went.length < m.went.length) + m.url }));
    ck.ob('the impression of a redirect is sent once, on landing or shortly after', sent.slice().sort().join() === m.sent.slice().sort().join(), () => ({ at, what: `${what}: sends [${sent}] instead of [${m.sent}]`, key: last + (sent.length < m.sent.length) + m.url }));
    return urls[urls.length - 1];
  };
  const runs = (cfg, starts, depth, prefix = []) => {
    const known = new Set(), tag = Object.keys(cfg).join('+') || 'plain';
    let work = starts.map((u) => ({ first: u, hist: [] }));
    for (let d = 0; d <= depth + prefix.length; d++) {
      const next = [];
      for (const w of work) for (const [name, f] of d === 0 ? [['open ' + w.first, (x, m) => { load(m, R + w.first); return boot({}, m, R + w.first); }]] : d <= prefix.length ? STEPS.filter((x) => x[0] === prefix[d - 1]) : STEPS) {
        const m = clone(w.m || { cfg, boxes: {}, cookie: {}, url: R, now: 0, timers: [], wait: {}, cache: {}, inUrl: {}, carry: {} });
        m.failing = failing = !!cfg.failing && d === 0;
        W.now = m.now;
        const n = w.s ? w.s.events().length : 0;
        const outs = f(w, m);
        if (!outs) continue;
        total++;
        const hist = [...w.hist, name], what = `${tag}: ${hist.join(', ')}`;
        if (!ck.ob('every step has a single outcome', outs.length === 1 && (outs[0].kind === 'ret' || m.failing), () => ({ at: ck.loc(outs[0] && outs[0].node) || at, what: `${what}: ${outs.map((o) => o.kind + ' ' + show(o.v, o.s)).join(' | ').slice(0, 200)}`, key: 'one' + name }))) continue;
        const o = outs[0], real = check(o, o.n === undefined ? n : 0, m, what, name);
        const key = JSON.stringify([m.url, m.boxes, m.cookie, m.now, m.timers, m.wait, m.cache, m.flight, m.pending, m.inUrl, name]);
        if (known.has(key)) continue;
        known.add(key);
        next.push({ s: o.s, c: o.c || w.c, kept: o.kept || w.kept, m, hist, real: m.pending ? real || w.real : undefined });
      }
      work = next;
    }
  };
  const only = process.env.T10S, more = ck.thorough ? 1 : 0;
  const go = (cfg, ...a) => (!only || only === (Object.keys(cfg).join('+') || 'plain') ? runs(cfg, ...a) : 0);
  go({}, ['/q?a=1'], 2 + more);
  go({}, ['/src', '/hash', '/x', '/hash#other', '/self', '/self#a', '/scoped', '/src?v=9', '/t?v=1'], 1 + more);
  go({ url: 1 }, ['/x'], 2 + more);
  go({ url: 1 }, ['/x?b=2'], 1 + more);
  go({ cookie: 1 }, ['/x'], 2 + more);
  go({ url: 1, cookie: 1 }, ['/x'], 1 + more);
  go({ handler: 1 }, ['/src'], 2 + more);
  go({ handler: 1 }, ['/q?a=1'], 0 + more);
  // an impression which is still waiting must neither take another one along nor be sent twice
  go({}, ['/src'], 1 + more, ['the server sends elsewhere', 'in-page to /q?a=1', 'wait 600']);
  go({}, ['/src'], 1 + more, ['the server sends elsewhere', 'in-page to /q?a=1', 'the redirect lands']);
  go({}, ['/src'], 1 + more, ['the server sends elsewhere', 'wait 300', 'in-page to /t?v=1', 'wait 300']);
  go({}, ['/src'], 1 + more, ['the redirect lands', 'reload']);
  go({}, ['/q?a=1'], 1 + more, ['the redirect lands', 'in-page to /q?v=2&a=1']);
  go({}, ['/src'], 1 + more, ['the redirect lands', 'popstate']);
  go({ cookie: 1 }, ['/x'], 1 + more, ['the server sends elsewhere', 'open /q?a=1']);
  go({ failing: 1 }, ['/src'], 1 + more);
  ck.notes.push(`${total} steps`);
  ck.atLeast('a redirect happens only where it should, once', 100);
};
