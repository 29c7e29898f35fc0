'use strict';
const { ExpWorld } = require('./exp-world');
const { C, D, UNDEF, NULL, show } = require('../engine/lib');
const { X } = D;
exports.technique = 'abstract histories of navigation, triggers and time on the started web client against a reference of the active pages';
exports.explanation =
  'The web client is started on the modelled page with pages of every trigger type; every sequence of steps up to the bound (navigation by the history functions or the back button, manual switches, analytics events, passing time, hiding the tab, pointer and focus events, mutations, intersections, scrolling) is interpreted. After every step the active pages, the notifications of page changes, the changes present on the page and the exposures are compared with the reference.';
const R = 'https://www.example.com';
const mut = (id, scope) => ({ selector: 'x', id, ...(scope ? { metadata: { scope } } : {}) });
const inj = (id, scope) => ({ action: 'inject', data: { id, js: `run("${id}")`, ...(scope ? { scope } : {}) } });
const url = (u) => [[{ op: 'contains', selector: ['context', 'page', 'url'], values: [u] }]];
const ev = (name, kind) => [[{ op: 'is', selector: ['context', 'data', 'event'], values: [name] }, ...(kind ? [{ op: 'is', selector: ['context', 'data', 'properties', 'kind'], values: [kind] }] : [])]];
const page = (id, trigger_type, trigger_value, at) => ({ id, name: id, trigger_type, ...(trigger_value ? { trigger_value } : {}), ...(at ? { conditions: url(at) } : {}) });
const byId = (list) => Object.fromEntries(list.map((p) => [p.id, p]));
// suites: pages per flag and the changes of the one variant of each flag: [id, kind, scope]
const SUITES = {
  navigation: {
    pages: {
      f: byId([page('u1', 'url_change', undefined, '/a'), page('u2', 'url_change', undefined, '/b')]),
      g: byId([page('m1', 'manual', { name: 'M' }), page('m2', 'manual', { name: 'N' }, '/a')]),
      h: byId([page('e1', 'analytics_event', ev('buy')), page('e2', 'analytics_event', ev('buy', 'x'), '/b')]),
    },
    changes: { f: [['F0'], ['F1', ['u1']], ['iF1', ['u2']]], g: [['G0'], ['iG1', ['m2']]], h: [['H0', ['e1']], ['iH1', ['e2']]] },
  },
  time: {
    pages: {
      f: byId([page('t1', 'time_on_page', { durationMs: 2000 }), page('t2', 'time_on_page', { durationMs: 5000 }), page('t3', 'time_on_page', { durationMs: 2000 }, '/b')]),
      g: byId([page('c1', 'user_interaction', { selector: '.c', interactionType: 'click' }), page('c2', 'user_interaction', { selector: '.d', interactionType: 'click', minThresholdMs: 500 }), page('h1', 'user_interaction', { selector: '.h', interactionType: 'hover', minThresholdMs: 300 }), page('h2', 'user_interaction', { selector: '.h', interactionType: 'focus', minThresholdMs: 0 })]),
      h: byId([page('x1', 'exit_intent', { minTimeOnPageMs: 2000 }), page('x2', 'exit_intent', { minTimeOnPageMs: 3000 })]),
    },
    changes: { f: [['F0', ['t1']], ['iF1', ['t2']]], g: [['G0', ['c1']], ['iG1', ['c2']], ['G2', ['h1']], ['G3', ['h2']]], h: [['H0']] },
  },
  elements: {
    pages: {
      f: byId([page('a1', 'element_appeared', { selector: '#x' }), page('u1', 'url_change', undefined, '/b')]),
      g: byId([page('v1', 'element_visible', { selector: '#y', visibilityRatio: 0.5 })]),
      h: byId([page('s1', 'scrolled_to', { mode: 'percent', percentage: 50 }), page('s2', 'scrolled_to', { mode: 'element', selector: '#z', offsetPx: 10 })]),
    },
    changes: { f: [['F0', ['a1']], ['iF1']], g: [['G0'], ['iG1']], h: [['H0', ['s1']], ['iH1', ['s2']]] },
  },
};
exports.run = function (ck) {
  let present = {}, styles = {}, scrolled = 0;
  const W = new ExpWorld(ck, {
    budget: ck.thorough ? 9e8 : 3e8,
    events: ['observe', 'io'],
    globals: ['IntersectionObserver', 'MutationObserver', 'AbortController', 'getComputedStyle'],
    model: (I, s, ctx, info, w) => {
      const n = info.name || '', a = info.args || [];
      if (n === 'new MutationObserver' || n === 'new IntersectionObserver') {
        const r = s.clone(), io = n === 'new IntersectionObserver';
        return [[r, w.val(r, { '[[fn]]': a[0], '[[opt]]': a[1] || UNDEF, observe: w.sym(io ? 'io.observe' : 'mo.observe', X), unobserve: w.sym('io.unobserve', X), disconnect: w.sym('io.disconnect', X) })]];
      }
      if (/^callback:(io|mo)\.observe$/.test(n)) return [[I.emit(s, ctx, { name: n[9] === 'i' ? 'io' : 'observe', args: a, recv: info.recv, node: info.node }), UNDEF]];
      const m = /^callback:(el|not):(\S*)\.(closest|matches|querySelector|contains)$/.exec(n);
      if (m) {
        if (m[3] === 'contains') return [[s, C(false)]];
        const hit = m[1] === 'el' && a[0] && a[0].v === m[2];
        return [[s, m[3] === 'matches' ? C(hit && true) : m[3] === 'querySelector' ? NULL : hit ? info.recv : NULL]];
      }
      if (/(^|\.)querySelectorAll$/.test(n) && a[0] && a[0].k === 'c') { const r = s.clone(); return [[r, w.val(r, present[a[0].v] ? [elem(r, a[0].v)] : [])]]; }
      if (/(^|\.)getComputedStyle$/.test(n)) { const r = s.clone(), sel = w.own(s, a[0], '[[sel]]'); return [[r, w.val(r, { display: 'block', visibility: 'visible', ...(sel && styles[sel.v]) })]]; }
      return undefined;
    },
    propRead: (I, s, ctx, base, key) => {
      if (key === 'ELEMENT_NODE') return [[s, C(1)]];
      if (key === 'innerHeight') return [[s, C(1000)]];
      if (key === 'scrollHeight') return [[s, C(2000)]];
      if (key === 'scrollY') return [[s, C(scrolled * 10)]];
      return undefined;
    },
  });
  if (process.env.FORKS) require('/tmp/forks.js')(W, ck);
  const at = W.loc('getActivePages');
  const elem = (r, sel, miss) => { const t = miss ? 'not' : 'el', loc = `T12:${t}:${sel}`; r.wHeap().set(loc, { kind: 'obj', entries: Object.entries({ '[[sel]]': C(sel), nodeType: C(1), ...Object.fromEntries(['closest', 'matches', 'querySelector', 'contains'].map((k) => [k, W.sym(`${t}:${sel}.${k}`, X)])) }).map(([k, v]) => ({ t: 'p', k, v })) }); return D.O(loc); };
  const one = (s) => [{ s, kind: 'ret', v: UNDEF }];
  const then = (outs, f) => outs.flatMap((o) => (o.kind === 'ret' ? f(o.s) : [o]));
  const call = (w, name, ...args) => { const r = w.s.clone(); return W.invoke(r, w.c, name, args.map((x) => W.val(r, x))); };
  const fire = (w, type, props) => { const r = w.s.clone(); const e = W.val(r, props(r)); return W.dispatch(r, type, [e]); };
  const observed = (s, name, sel) => s.events().filter((e) => e.name === name && (!sel || (W.own(s, e.args[0], '[[sel]]') || {}).v === sel));
  const mutation = (s, sel, added) => {
    const r = s.clone();
    const rec = W.val(r, [{ addedNodes: added ? [elem(r, sel)] : [], target: elem(r, sel, added) }]);
    let outs = one(r);
    for (const e of observed(s, 'observe')) outs = then(outs, (q) => W.callValue(q, W.own(q, e.recv, '[[fn]]'), [rec]));
    return outs;
  };
  // the browser reports an intersection only for observed elements
  const intersect = (w, sel, entry) => {
    const e = observed(w.s, 'io', sel)[0];
    if (!e) return one(w.s);
    const r = w.s.clone();
    return W.callValue(r, W.own(r, e.recv, '[[fn]]'), [W.val(r, [entry])]);
  };
  // ---- reference --------------------------------------------------------------
  const clone = (m) => ({ ...m, active: Object.fromEntries(Object.entries(m.active).map(([k, v]) => [k, { ...v }])), manual: { ...m.manual }, fired: { ...m.fired }, timers: m.timers.map((t) => ({ ...t })), live: { ...m.live }, seen: { ...m.seen }, present: { ...m.present }, styles: { ...m.styles }, exposed: [], fresh: false });
  const path = (m) => m.url.slice(R.length);
  const okUrl = (m, p) => !p.conditions || m.url.includes(p.conditions[0][0].values[0]);
  const each = (m, f) => { for (const [flag, ps] of Object.entries(m.suite.pages)) for (const p of Object.values(ps)) f(flag, p); };
  const turn = (m, flag, p, on) => { if (on) (m.active[flag] = m.active[flag] || {})[p.id] = 1; else if (m.active[flag]) delete m.active[flag][p.id]; };
  const publish = (m, type, test) => { each(m, (flag, p) => { if (p.trigger_type === type) turn(m, flag, p, okUrl(m, p) && test(p)); }); };
  const isOn = (m, flag, scope) => { const a = m.active[flag] || {}; return scope ? scope.some((x) => a[x]) : Object.keys(a).length > 0; };
  const apply = (m) => {
    const base = m.url.replace(/[?#].*/, '');
    if (m.base !== base) { m.base = base; m.seen = {}; }
    for (const [flag, list] of Object.entries(m.suite.changes)) for (const [id, scope] of list) {
      const on = isOn(m, flag, scope);
      if (on && !m.seen[flag]) { m.seen[flag] = 1; m.exposed.push(flag); }
      if (on) m.live[id] = 1; else delete m.live[id];
    }
  };
  const appear = (m) => { for (const sel of ['#x']) if (m.present[sel] && !m.styles[sel]) m.fired['appeared' + sel] = 1; publish(m, 'element_appeared', (p) => !!m.fired['appeared' + p.trigger_value.selector]); };
  const restartTimers = (m, list) => { m.timers = m.timers.filter((t) => t.type !== 'top'); for (const d of list) m.timers.push({ type: 'top', at: m.now + d, d }); };
  const durations = (m) => { const d = []; each(m, (f, p) => { if (p.trigger_type === 'time_on_page' && !d.includes(p.trigger_value.durationMs)) d.push(p.trigger_value.durationMs); }); return d; };
  const arrive = (m, apply1) => {
    publish(m, 'url_change', () => true);
    each(m, (flag, p) => { if (p.trigger_type !== 'url_change') turn(m, flag, p, false); });
    m.manual = {}; m.fired = {}; m.maxScroll = 0; m.loaded = m.now;
    m.timers = m.timers.filter((t) => t.type !== 'click');
    m.ends = durations(m);
    restartTimers(m, m.ends);
    appear(m);
    if (apply1) { m.fresh = true; apply(m); }
  };
  const interact = (m, key) => { m.fired[key] = 1; publish(m, 'user_interaction', (p) => !!m.fired[`${p.trigger_value.selector} ${p.trigger_value.interactionType}`]); apply(m); };
  const pass = (m, ms) => {
    const end = m.now + ms;
    for (;;) {
      const t = m.timers.filter((x) => x.at <= end).sort((a, b) => a.at - b.at)[0];
      if (!t) break;
      m.timers.splice(m.timers.indexOf(t), 1);
      m.now = t.at;
      if (t.type === 'top') { m.ends = m.ends.filter((d) => d !== t.d); publish(m, 'time_on_page', (p) => t.d >= p.trigger_value.durationMs); apply(m); }
      if (t.type === 'click' || t.type === 'hover') interact(m, t.key);
      if (t.type === 'mutation') { appear(m); apply(m); }
      if (t.type === 'frame') { m.frame = false; if (m.scroll > m.maxScroll) { m.maxScroll = m.scroll; scrollPub(m); } }
    }
    m.now = end;
  };
  const scrollPub = (m) => { publish(m, 'scrolled_to', (p) => (p.trigger_value.mode === 'percent' ? m.maxScroll >= p.trigger_value.percentage : !!m.fired['in' + p.trigger_value.selector])); apply(m); };
  // ---- steps ------------------------------------------------------------------
  const nav = (how, u) => [`${how} ${u}`, (w, m) => {
    const to = R + u;
    if (m.hidden) return null;
    if (to !== m.url) { m.url = to; m.last = to; arrive(m, true); }
    return W.navigate(w.s.clone(), how, u);
  }];
  const manual = (n, on) => [`${n} ${on ? 'on' : 'off'}`, (w, m) => { m.manual[n] = on; publish(m, 'manual', (p) => !!m.manual[p.trigger_value.name]); apply(m); return call(w, 'toggleManualPageObject', n, ...(on ? [] : [false])); }];
  const track = (name, kind) => [`track ${name}${kind ? ' ' + kind : ''}`, (w, m) => {
    each(m, (flag, p) => { if (p.trigger_type !== 'analytics_event') return; const c = p.trigger_value[0]; const hit = okUrl(m, p) && (m.fired[p.id] || (c[0].values[0] === name && (!c[1] || c[1].values[0] === kind))); if (hit) m.fired[p.id] = 1; turn(m, flag, p, hit); });
    apply(m);
    return call(w, 'trackEvent', name, ...(kind ? [{ kind }] : []));
  }];
  const wait = (ms) => [`wait ${ms}`, (w, m) => { pass(m, ms); return W.advance(w.s.clone(), ms); }];
  const click = (sel, t) => [`click ${sel}`, (w, m) => {
    const key = `${sel} click`;
    if (sel !== '.none' && !m.fired[key]) { if (!t) interact(m, key); else if (!m.timers.some((x) => x.key === key)) m.timers.push({ type: 'click', key, at: m.now + t }); }
    return fire(w, 'click', (r) => ({ target: elem(r, sel) }));
  }];
  const over = (type, on) => [`${type} ${on ? 'in' : 'out'}`, (w, m) => {
    const key = '.h ' + (type === 'mouse' ? 'hover' : 'focus');
    if (m.over === undefined) m.over = {};
    if (!!(w.m.over || {})[type] === on) return null;
    m.over = { ...(w.m.over || {}), [type]: on };
    if (type === 'focus') { if (on && !m.fired[key]) interact(m, key); }
    else if (on) { if (!m.fired[key]) m.timers.push({ type: 'hover', key, at: m.now + 300 }); }
    else m.timers = m.timers.filter((x) => x.key !== key);
    return fire(w, { mousetrue: 'mouseover', mousefalse: 'mouseout', focustrue: 'focusin', focusfalse: 'focusout' }[type + on], (r) => ({ target: elem(r, '.h'), relatedTarget: NULL }));
  }];
  const leave = (y, rel) => [`pointer leaves at ${y}${rel ? ' into an element' : ''}`, (w, m) => {
    if (y <= 50 && !rel && m.now >= 2000) { const d = m.now - m.loaded; publish(m, 'exit_intent', (p) => d >= p.trigger_value.minTimeOnPageMs); apply(m); }
    return fire(w, 'mouseleave', (r) => ({ clientY: y, relatedTarget: rel ? elem(r, '.none') : NULL }));
  }];
  const tab = (hide) => [hide ? 'tab hidden' : 'tab shown', (w, m) => {
    if (!!m.hidden === hide) return null;
    m.hidden = hide;
    restartTimers(m, hide ? [] : m.ends);
    return W.dispatch(W.setPage(w.s, 'visibilityState', hide ? 'hidden' : 'visible'), 'visibilitychange');
  }];
  const dom = (name, sel, here, style, added = here) => [name, (w, m) => {
    if (here === !!m.present[sel] && m.styles[sel] === style) return null;
    m.present[sel] = here; m.styles[sel] = style;
    present = m.present; styles = m.styles;
    if (!m.timers.some((t) => t.type === 'mutation')) m.timers.push({ type: 'mutation', at: m.now + 100 });
    else { const t = m.timers.find((x) => x.type === 'mutation'); t.first = t.first === undefined ? t.at - 100 : t.first; t.at = Math.min(m.now + 100, t.first + 200); }
    return mutation(w.s, sel, added);
  }];
  const seen = (sel, ratio) => [`${sel} seen ${ratio}`, (w, m) => {
    if (!m.present[sel] || m.timers.some((t) => t.type === 'mutation')) return null;
    if (sel === '#y') { m.fired['seen' + sel] = ratio >= 0.5; if (ratio >= 0.5) { publish(m, 'element_visible', (p) => !!m.fired['seen' + p.trigger_value.selector]); apply(m); } }
    else if (ratio > 0) { m.fired['in' + sel] = 1; scrollPub(m); }
    return intersect(w, sel, { intersectionRatio: ratio, isIntersecting: ratio > 0 });
  }];
  const scroll = (p) => [`scroll to ${p}%`, (w, m) => { m.scroll = p; scrolled = p; if (!m.timers.some((t) => t.type === 'frame')) m.timers.push({ type: 'frame', at: m.now + 16 }); return fire(w, 'scroll', () => ({})); }];
  const STEPS = {
    navigation: [nav('pushState', '/a'), nav('pushState', '/b'), nav('replaceState', '/a?q=1'), nav('replaceState', '/c#h'), nav('pop', '/b'), manual('M', true), manual('M', false), manual('N', true), track('buy'), track('buy', 'x'), track('other')],
    time: [wait(400), wait(2000), click('.c', 0), click('.d', 500), click('.none'), over('mouse', true), over('mouse', false), over('focus', true), over('focus', false), leave(20), leave(60), leave(20, true), nav('pushState', '/b'), tab(true), tab(false)],
    elements: [dom('#x appears', '#x', true), dom('#x appears hidden', '#x', true, { display: 'none' }), dom('#x is shown', '#x', true, undefined, false), dom('#x goes', '#x', false), dom('#y appears', '#y', true), dom('#z appears', '#z', true), seen('#y', 0.5), seen('#y', 0.2), seen('#z', 0.1), seen('#z', 0), scroll(30), scroll(60), wait(16), wait(200), nav('pushState', '/b')],
  };
  const show1 = (a) => Object.entries(a).flatMap(([f, ps]) => Object.keys(ps).map((p) => `${f}.${p}`)).sort().join();
  const check = (o, n, m, c, what, last, was) => {
    const live = { ...was.live }, bad = [], ran = {}, undone = {}, expo = [], told = [];
    for (const e of o.s.events().slice(n)) {
      const id = e.name === 'mutate' || e.name === 'undo' ? (W.lit(o.s, e.args[0]) || {}).id : e.name === 'inject' || e.name === 'cleanup' ? e.args[0].v : undefined;
      if (e.name === 'mutate' || e.name === 'inject') { if (live[id]) bad.push(`${id} applied again`); live[id] = 1; ran[id] = 1; }
      if (e.name === 'undo' || e.name === 'cleanup') { if (!live[id]) bad.push(`${id} taken back again`); delete live[id]; undone[id] = 1; }
      if (e.name === 'exposure') expo.push(W.lit(o.s, e.args[0]));
      if (e.name === 'callback:told') told.push(W.lit(o.s, e.args[0]));
    }
    const pages = W.invoke(o.s.clone(), c, 'getActivePages', []).map((p) => W.lit(p.s, p.v));
    const want = show1(m.active), got = pages.map((p) => p && show1(p)).join(' | ');
    ck.ob('the active pages are those whose trigger fired and whose conditions hold', got === want, () => ({ at, what: `${what}: [${got}] instead of [${want}]`, key: last + (got.length < want.length) }));
    const L = Object.keys(live).sort().join(), M = Object.keys(m.live).sort().join();
    ck.ob('the page shows the changes whose page is active', L === M, () => ({ at, what: `${what}: [${L}] instead of [${M}]`, key: last + (L.length < M.length) }));
    ck.ob('a change is applied once and taken back once', !bad.length, () => ({ at, what: `${what}: ${bad.join()}`, key: last + bad[0] }));
    const stale = m.fresh ? Object.keys(was.live).filter((id) => id[0] === 'i' && (!undone[id] || (m.live[id] && !ran[id]))) : [];
    ck.ob('injections run afresh on a new address', !stale.length, () => ({ at, what: `${what}: ${stale.join()} kept from the page before`, key: last + stale[0] }));
    ck.ob('an exposure is sent once per page and variant', expo.sort().join() === m.exposed.slice().sort().join(), () => ({ at, what: `${what}: exposures [${expo}] instead of [${m.exposed}]`, key: last + (expo.length < m.exposed.length) }));
    const wasPages = show1(was.active), changed = wasPages !== want;
    ck.ob('page changes are reported exactly when the active pages changed', changed ? told.length >= 1 && show1((told[told.length - 1] || {}).activePages || {}) === want : !told.length || (/^(wait|scroll|seen)/.test(last) && told.length > 1) || (m.fresh && told.length > 1), () => ({ at, what: `${what}: ${told.map((t) => '[' + show1((t || {}).activePages || {}) + ']').join()} reported, [${wasPages}] became [${want}]`, key: last + told.length }));
  };
  let total = 0;
  const runs = (suite, depth, prefix = [], pre = {}) => {
    const S = SUITES[suite];
    present = { ...(pre.present || {}) }; styles = {}; scrolled = 0;
    const ids = Object.values(S.changes).flat().map((x) => x[0]).filter((x) => x[0] === 'i');
    let s0 = W.injections(W.start(), ids);
    s0 = W.set(s0, W.globalObject(), '@@@amplitude/spa-link-interceptor-initiated', true); // T15 is about links
    s0 = W.setPage(s0, 'href', R + '/');
    s0 = W.setPage(s0, 'visibilityState', 'visible');
    const payload = (flag) => [{ action: 'mutate', data: { mutations: S.changes[flag].filter((x) => x[0][0] !== 'i').map(([id, scope]) => mut(id, scope)) } }, ...S.changes[flag].filter((x) => x[0][0] === 'i').map(([id, scope]) => inj(id, scope))];
    const flags = Object.keys(S.pages).map((key) => ({ key, variants: { on: { key: 'on', payload: payload(key) } }, metadata: { evaluationMode: 'local' } }));
    W.assigned = Object.fromEntries(Object.keys(S.pages).map((k) => [k, { key: 'on', value: 'on', payload: payload(k), metadata: { evaluationMode: 'local', deliveryMethod: 'web' } }]));
    W.now = 0;
    const made = W.client(s0, flags, { useDefaultNavigationHandler: true }, { pages: S.pages });
    const begun = made.flatMap((o) => (o.kind === 'ret' ? W.invoke(W.I.writeProp(o.s.clone(), W.ctx(), W.globalObject(), C('webExperiment'), o.v, W.cls)[0], o.v, 'start', []).map((p) => ({ ...p, c: o.v })) : [o]));
    if (!ck.ob('the client starts', begun.length === 1 && begun[0].kind === 'ret', { at, what: `${suite}: ${begun.map((o) => o.kind + ' ' + show(o.v, o.s)).join(' | ').slice(0, 200)}`, key: 'start' })) return;
    const c = begun[0].c;
    const subs = W.invoke(begun[0].s, c, 'addPageChangeSubscriber', [W.sym('told', X)]);
    const m0 = { suite: S, url: R + '/', now: 0, loaded: 0, active: {}, manual: {}, fired: {}, timers: [], live: {}, seen: {}, exposed: [], present: { ...present }, styles: {}, scroll: 0, maxScroll: 0, ends: [] };
    arrive(m0, true);
    check(subs[0], 0, { ...m0, fresh: false }, c, `${suite}: start`, 'start', { ...m0, live: {} });
    let work = [{ s: subs[0].s, c, m: m0, hist: [] }];
    const known = new Set();
    for (let d = 0; d < prefix.length + depth; d++) {
      const next = [];
      for (const w of work) for (const [name, f] of d < prefix.length ? STEPS[suite].filter((x) => x[0] === prefix[d]) : STEPS[suite]) {
        const m = clone(w.m);
        W.now = w.m.now; present = w.m.present; styles = w.m.styles; scrolled = w.m.scroll;
        const n = w.s.events().length;
        const outs = f(w, m);
        if (!outs) continue;
        total++;
        const hist = [...w.hist, name], what = `${suite}: ${hist.join(', ')}`;
        if (!ck.ob('every step has a single outcome', outs.length === 1 && outs[0].kind === 'ret', () => ({ at: ck.loc(outs[0] && outs[0].node) || at, what: `${what}: ${outs.map((o) => o.kind + ' ' + show(o.v, o.s)).join(' | ').slice(0, 200)}`, key: 'one' + name }))) continue;
        check(outs[0], n, m, c, what, name, w.m);
        const key = JSON.stringify([m.url, m.now - m.loaded, m.active, m.manual, m.fired, m.timers.map((t) => [t.type, t.at - m.now, t.key]), m.live, m.seen, m.present, m.styles, m.scroll, m.maxScroll, m.hidden, m.over, name]);
        if (known.has(key)) continue;
        known.add(key);
        next.push({ s: outs[0].s, c, m, hist });
      }
      work = next;
    }
  };
  const only = process.env.T12S, more = ck.thorough ? 1 : 0;
  const go = (...a) => (!only || only === a[0] ? runs(a[0], a[1] + Number(process.env.T12D || 0), a[2], a[3]) : 0);
  go('navigation', 3);
  go('navigation', 2 + more, ['pushState /a', 'N on', 'track buy']);
  go('navigation', 2 + more, ['pushState /b', 'track buy x', 'M on']);
  go('time', 2 + more);
  go('time', 2 + more, ['wait 2000', 'click .d', 'mouse in']);
  go('time', 1 + more, ['pushState /b', 'wait 2000', 'tab hidden', 'wait 2000', 'tab shown', 'wait 2000', 'wait 2000']);
  go('time', 2 + more, ['wait 2000', 'wait 2000', 'pointer leaves at 20']);
  go('elements', 2 + more);
  go('elements', 2 + more, ['#y appears', '#z appears', 'wait 200']);
  go('elements', 2 + more, ['#x appears hidden', 'wait 200', 'scroll to 60%', 'wait 16']);
  go('elements', 2 + more, ['pushState /b'], { present: { '#x': true, '#y': true, '#z': true } });
  // what a page left behind must not count on the next address
  go('time', 1 + more, ['click .c', 'click .d', 'focus in', 'pushState /b']);
  go('time', 1 + more, ['click .d', 'focus in', 'focus out', 'pushState /b', 'click .d']);
  go('time', 1 + more, ['click .c', 'focus in', 'focus out', 'pushState /b', 'click .c', 'focus in']);
  go('time', 1 + more, ['click .d', 'wait 400', 'click .d', 'pushState /b', 'wait 400']);
  go('time', 1 + more, ['mouse in', 'mouse out', 'mouse in']);
  go('elements', 1 + more, ['scroll to 30%', 'wait 16', 'scroll to 60%']);
  go('elements', 1 + more, ['scroll to 60%', 'wait 16', 'pushState /b', 'scroll to 30%']);
  go('elements', 1 + more, ['#x appears', 'wait 200', '#x goes', 'wait 200']);
  go('elements', 1 + more, ['#z appears', 'wait 200', '#z seen 0.1', 'pushState /b', 'scroll to 30%']);
  ck.notes.push(`${total} steps`);
  ck.atLeast('the active pages are those whose trigger fired and whose conditions hold', 200);
};
