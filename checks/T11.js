'use strict';
const { ExpWorld } = require('./exp-world');
const { C, D, UNDEF, NULL, term, show } = require('../engine/lib');
exports.technique = 'abstract histories of applying, previewing and reverting variants against a reference registry';
exports.explanation =
  'Every sequence of assignment changes, page activations, applying, previewing and reverting up to the bound is interpreted on the web client with the flag client and dom-mutator as boundaries. After every step the changes present on the page (mutations, injected scripts, style sheets, clean-ups) are compared with the reference: applied once, taken back once, exactly those of the selection; exposures are compared as well.';
exports.run = function (ck) {
  const W = new ExpWorld(ck, { budget: ck.thorough ? 6e8 : 2e8 });
  const at = W.loc('applyVariants');
  const mut = (id, scope) => ({ selector: 'x', id, ...(scope ? { metadata: { scope } } : {}) });
  const inj = (id, scope, more) => ({ action: 'inject', data: { id, js: `run("${id}")`, css: `${id}{}`, ...(scope ? { scope } : {}), ...more } });
  const PAY = {
    f: {
      A: [{ action: 'mutate', data: { mutations: [mut('A0', ['P']), mut('A1', ['Q']), mut('A2')] } }, inj('i-A-1', ['P'], { html: '<p>1</p>' }), inj('i-A-2')],
      B: [{ action: 'mutate', data: { mutations: [mut('B0')] } }, inj('i-B-1', ['Q'])],
      control: [], off: undefined, none: undefined,
    },
    g: { on: [{ action: 'mutate', data: { mutations: [mut('G0')] } }, inj('i-G-1'), { action: 'mutate', data: { mutations: [] } }, inj(''), { action: 'other', data: {} }] },
  };
  const variant = (flag, v, web = true) => (v === 'none' ? {} : { key: v, value: v, ...(PAY[flag][v] ? { payload: PAY[flag][v] } : {}), metadata: { evaluationMode: 'local', ...(web ? { deliveryMethod: 'web' } : {}) } });
  const flags = ['f', 'g'].map((key) => ({ key, variants: Object.fromEntries(Object.keys(PAY[key]).filter((v) => v !== 'none').map((v) => [v, { key: v, ...(PAY[key][v] ? { payload: PAY[key][v] } : {}) }])), metadata: { evaluationMode: 'local' } }));
  // the changes a payload asks for: [id, kind, scope]
  const wants = (flag, v) => (PAY[flag][v] || []).flatMap((a) => (a.action === 'mutate' ? a.data.mutations.map((m) => [m.id, 'mutate', m.metadata && m.metadata.scope]) : a.action === 'inject' && a.data.id ? [[a.data.id.replace(/-/g, ''), 'inject', a.data.scope]] : []));
  const ALL = ['f', 'g'].flatMap((f) => Object.keys(PAY[f]).flatMap((v) => wants(f, v)));
  const INJ = ALL.filter((x) => x[1] === 'inject').map((x) => x[0]);
  const clone = (m) => ({ ...m, pages: { f: { ...m.pages.f }, g: { ...m.pages.g } }, live: new Map([...m.live].map(([k, v]) => [k, new Map(v)])), seen: { ...m.seen }, exposed: [] });
  const active = (m, flag, scope) => (scope ? scope.some((p) => m.pages[flag][p]) : Object.values(m.pages[flag]).some(Boolean));
  const expose = (m, flag, v) => { if (m.seen[flag] !== v) { m.seen[flag] = v; m.exposed.push(flag); } };
  const takeBack = (m, flag) => m.live.delete(flag);
  const put = (m, flag, v) => {
    for (const [id, kind, scope] of wants(flag, v)) {
      const L = m.live.get(flag) || new Map();
      if (!active(m, flag, scope)) { L.delete(id); if (!L.size) m.live.delete(flag); continue; }
      if (kind === 'mutate' || !L.has(id)) expose(m, flag, v);
      L.set(id, v);
      m.live.set(flag, L);
    }
  };
  const apply = (m, keys) => {
    for (const flag of ['f', 'g']) {
      if (keys && !keys.includes(flag)) continue;
      const v = flag === 'f' ? m.f : 'on';
      const L = m.live.get(flag);
      if (L && ![...L.values()].includes(v)) takeBack(m, flag);
      if (v === 'none') continue;
      if ((v === 'off' || v === 'control') && active(m, flag)) expose(m, flag, v);
      if (v === 'off') { takeBack(m, flag); continue; }
      put(m, flag, v);
    }
  };
  const call = (w, name, opt) => { const r = w.s.clone(); return W.invoke(r, w.c, name, opt === undefined ? [] : [W.val(r, opt)]); };
  const page = (flag, id) => [`page ${id} of ${flag} turns`, (w, m) => { m.pages[flag][id] = !m.pages[flag][id]; const r = w.s.clone(); return W.invoke(r, w.c, 'updateActivePages', [C(flag), W.val(r, { id, name: id }), C(m.pages[flag][id])]); }];
  const STEPS = [
    ...['A', 'B', 'off', 'control', 'none'].map((v) => [`f becomes ${v}`, (w, m) => { if (m.f === v) return null; m.f = v; return [{ s: w.s, kind: 'ret', v: UNDEF }]; }]),
    page('f', 'P'), page('f', 'Q'), page('g', 'R'),
    ['apply all', (w, m) => { apply(m); return call(w, 'applyVariants'); }],
    ['apply f', (w, m) => { apply(m, ['f']); return call(w, 'applyVariants', { flagKeys: ['f'] }); }],
    ['revert all', (w, m) => { m.live.clear(); return call(w, 'revertVariants'); }],
    ['revert f', (w, m) => { takeBack(m, 'f'); return call(w, 'revertVariants', { flagKeys: ['f', 'unknown'] }); }],
    ...['A', 'B'].map((v) => [`preview ${v}`, (w, m) => { takeBack(m, 'f'); put(m, 'f', v); return call(w, 'previewVariants', { keyToVariant: { f: v, unknown: 'A' } }); }]),
    ['preview unknown', (w, m) => { takeBack(m, 'f'); return call(w, 'previewVariants', { keyToVariant: { f: 'unknown' } }); }],
  ];
  const check = (o, n, m, what, last, was, throwing) => {
    const live = new Map([...was.values()].flatMap((L) => [...L.keys()]).map((id) => [id, 1]));
    const twice = [];
    const expo = [];
    for (const e of o.s.events().slice(n)) {
      const id = e.name === 'mutate' || e.name === 'undo' ? (W.lit(o.s, e.args[0]) || {}).id : e.name === 'inject' || e.name === 'cleanup' ? e.args[0].v : undefined;
      if (e.name === 'mutate' || e.name === 'inject') { if (live.has(id)) twice.push(`${id} applied again`); live.set(id, 1); }
      if (e.name === 'undo' || e.name === 'cleanup') { if (!live.has(id)) twice.push(`${id} taken back again`); live.delete(id); }
      if (e.name === 'exposure') expo.push(W.lit(o.s, e.args[0]));
      if (e.name === 'inject') ck.ob('an injected script gets its element, the utilities and its id', !!e.args[3] && W.is(o.s, e.args[3], id) === true && !!W.get(o.s, e.args[2], "waitForElement") && (id === 'iA1' ? !!W.own(o.s, e.args[1], '[[html]]') && W.is(o.s, W.own(o.s, e.args[1], '[[html]]'), '<p>1</p>') === true : e.args[1] === UNDEF), () => ({ at, what, key: 'args' }));
    }
    const want = [...m.live.values()].flatMap((L) => [...L.keys()]).sort(), got = [...live.keys()].sort();
    ck.ob('a change is applied once and taken back once', !twice.length, () => ({ at, what: `${what}: ${twice.join(', ')}`, key: last + twice[0] }));
    ck.ob('the page shows exactly the changes of the applied variants', got.join() === want.join(), () => ({ at, what: `${what}: [${got}] instead of [${want}]`, key: last + (got.length < want.length) }));
    const sheets = W.sheets(o.s).map((t) => String(t)), css = want.filter((x) => INJ.includes(x)).map((x) => x.replace(/^i(.)(.)$/, 'i-$1-$2{}'));
    ck.ob('the style sheets are those of the injections present', sheets.sort().join() === css.sort().join(), () => ({ at, what: `${what}: sheets [${sheets}] instead of [${css}]`, key: last }));
    const scripts = W.attached(o.s).map((e) => W.own(o.s, e, 'id')).filter(Boolean).map((v) => v.v).sort(), js = want.filter((x) => INJ.includes(x) && !throwing.includes(x)).map((x) => 'js-' + x).sort();
    ck.ob('the script elements are those of the injections present', scripts.join() === js.join(), () => ({ at, what: `${what}: scripts [${scripts}] instead of [${js}]`, key: last }));
    const flagsOn = [...m.live.keys()].sort();
    for (const p of W.invoke(o.s, m.c, 'getActiveExperiments', [])) { const l = W.lit(p.s, p.v); ck.ob('the active experiments are those with changes on the page', Array.isArray(l) && l.slice().sort().join() === flagsOn.join(), () => ({ at, what: `${what}: [${l}] instead of [${flagsOn}]`, key: last })); }
    ck.ob('an exposure is sent once per page and variant, when one of its actions is active', expo.join() === m.exposed.join(), () => ({ at, what: `${what}: exposures [${expo}] instead of [${m.exposed}]`, key: last + expo.length }));
  };
  let total = 0;
  const runs = (throwing, depth, start) => {
    let s0 = W.injections(W.start(), INJ, throwing);
    W.assigned = { f: variant('f', 'A'), g: variant('g', 'on') };
    const made = W.client(s0, flags);
    ck.ob('the client is created', made.length === 1 && made[0].kind === 'ret', { at, what: made.map((o) => o.kind).join(), key: 'new' });
    if (!made.length || made[0].kind !== 'ret') return;
    let work = [{ s: made[0].s, c: made[0].v, m: { f: 'A', pages: { f: {}, g: {} }, live: new Map(), seen: {}, exposed: [] }, hist: [] }];
    const seen = new Set();
    for (let d = 0; d < start.length + depth; d++) {
      const next = [];
      for (const w of work) for (const [name, f] of d < start.length ? STEPS.filter((x) => x[0] === start[d]) : STEPS) {
        const m = clone(w.m);
        m.c = w.c;
        const n = w.s.events().length, was = w.m.live;
        if (/becomes|turns/.test(name) && w.hist.length && name === w.hist[w.hist.length - 1]) continue;
        if (d === start.length + depth - 1 && /becomes|turns/.test(name)) continue;
        W.throwing = throwing;
        W.assigned = { f: variant('f', w.m.f), g: variant('g', 'on') };
        const outs = f(w, m);
        if (!outs) continue;
        total++;
        const hist = [...w.hist, name], what = `${throwing.length ? 'failing scripts: ' : ''}${hist.join(', ')}`;
        if (!ck.ob('every step has a single outcome', outs.length === 1 && outs[0].kind === 'ret', () => ({ at: ck.loc(outs[0] && outs[0].node) || at, what: `${what}: ${outs.map((o) => o.kind + ' ' + show(o.v, o.s)).join(' | ').slice(0, 200)}`, key: 'one' + name }))) continue;
        const o = outs[0];
        check(o, n, m, what, name, was, throwing);
        const key = JSON.stringify([m.f, m.pages, [...m.live].map(([k, v]) => [k, [...v]]), m.seen, name, w.hist[w.hist.length - 1]]);
        if (seen.has(key)) continue;
        seen.add(key);
        next.push({ s: o.s, c: w.c, m, hist });
      }
      work = next;
    }
  };
  const ON = ['page P of f turns', 'page R of g turns'];
  const more = ck.thorough ? 1 : 0;
  runs([], 3 + more, []);
  runs([], 3 + more, [...ON, 'apply all']);
  runs([], 3 + more, [...ON, 'page Q of f turns', 'preview B']);
  runs(INJ, 2 + more, [...ON, 'apply all']);
  ck.notes.push(`${total} steps`);
  ck.atLeast('the page shows exactly the changes of the applied variants', 300);
};
