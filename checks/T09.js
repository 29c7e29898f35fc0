'use strict';
const { DomWorld } = require('./dom-world');
const { C, D, UNDEF, NULL, term, show } = require('../engine/lib');
exports.technique = 'abstract histories of the anti-flicker style and of every way the start-up can end';
exports.explanation =
  'First, every sequence of installing, removing and elapsed time up to the bound is interpreted on the anti-flicker functions, and the style sheets adopted by the page are compared with the reference. Then launching the client is interpreted for every combination of preview mode or extension, fetched configuration (arrives, fails, malformed, never), client creation (works, throws) and start (finishes, fails, never) and pending redirect: when the start-up has ended without a redirect neither the installed style nor the style of the site snippet is left.';
exports.run = function (ck) {
  const HIDE = /visibility:\s*hidden/;
  const idx = ck.p.sources.find((f) => /experiment-tag[/\\]src[/\\]index\.ts$/.test(f.fileName));
  let boot = {};
  const pend = (s, loc) => { const r = s.clone(); r.wHeap().set(loc, { kind: 'promise', entries: [] }); return [r, term('promise', ['host', loc], { mask: D.X })]; };
  const W = new DomWorld(ck, idx, '', {
    budget: ck.thorough ? 3e8 : 1e8,
    events: ['getInstance', 'fetchConfigs'],
    callbacks: {
      start: (w, s) => {
        if (boot.start === 'fails') return { states: [[s, term('rejected', [C('no')], { mask: D.X, node: w.cls })]] };
        if (boot.start === 'never') return { states: [pend(s, 'p:start')] };
        return { states: [[s, term('resolved', [UNDEF], { mask: D.X })]] };
      },
    },
    model: (I, s, ctx, info, w) => {
      const n = info.name || '';
      if (/DefaultWebExperimentClient\.getInstance$/.test(n)) {
        const r = I.emit(s, ctx, { name: 'getInstance', args: info.args, node: info.node }).clone();
        if (boot.create === 'throws') { ctx.throws.push({ s: r, v: term('err', ['create'], { mask: D.X }), node: info.node }); return []; }
        return [[r, w.val(r, { isRedirecting: !!boot.redirect, isRunning: false, start: w.sym('start', D.X) })]];
      }
      if (/getPreviewFlagsAndPageViewObjects$/.test(n)) {
        const r = I.emit(s, ctx, { name: 'fetchConfigs', args: info.args, node: info.node }).clone();
        if (boot.fetch === 'fails') return [[r, term('rejected', [C('net')], { mask: D.X, node: info.node })]];
        if (boot.fetch === 'never') return [pend(r, 'p:fetch')];
        return [[r, term('resolved', [boot.fetch === 'malformed' ? UNDEF : w.val(r, { flags: [], pageViewObjects: {}, behavioralTargetingRules: {} })], { mask: D.X })]];
      }
    },
  });
  const at = ck.loc(idx);
  const hidden = (s) => W.sheets(s).filter((t) => HIDE.test(String(t))).length;
  const foreign = (s) => W.sheets(s).filter((t) => !HIDE.test(String(t))).length;
  // ---- the style itself -----------------------------------------------------------------
  const fn = (s, name) => W.exported(s, name, 'util/anti-flicker');
  const withSheet = (s) => { const r = s.clone(); r.wHeap().set('own', { kind: 'obj', entries: [{ t: 'p', k: '[[sheet]]', v: C(true) }, { t: 'p', k: '[[text]]', v: C('a{}') }] }); r.wHeap().set('W:sheets', { kind: 'arr', entries: [], elems: [D.O('own')], dyn: [] }); return r; };
  const snippet = (s) => { const r = s.clone(); r.wHeap().set('snip', { kind: 'obj', entries: [{ t: 'p', k: '[[tag]]', v: C('style') }, { t: 'p', k: 'id', v: C('amp-exp-css') }, { t: 'p', k: '[[parent]]', v: D.O('W:head') }] }); return r; };
  const hasSnippet = (s) => W.attached(s).some((e) => e.loc === 'snip');
  const STEPS = [
    ['install', (w, m) => { if (m.until === undefined) m.until = m.now + 1000; return fn(w.s, 'applyAntiFlickerCss').flatMap(([x, f]) => W.callValue(x, f, [])); }],
    ['remove', (w, m) => { m.until = undefined; m.snip = false; return fn(w.s, 'removeAntiFlickerCss').flatMap(([x, f]) => W.callValue(x, f, [])); }],
    ...[400, 600, 1000].map((ms) => [`${ms} ms`, (w, m) => { m.now += ms; if (m.until !== undefined && m.until <= m.now) { m.until = undefined; m.snip = false; } return W.advance(w.s, ms); }]),
  ];
  const depth = ck.thorough ? 7 : 6;
  let total = 0;
  for (const snip of [false, true]) {
    let s0 = withSheet(W.start());
    if (snip) s0 = snippet(s0);
    let work = [{ s: s0, m: { now: W.now, snip }, hist: [] }];
    const T = W.now;
    for (let d = 0; d < depth; d++) {
      const next = [];
      for (const w of work) for (const [name, f] of STEPS) {
        if (name === 'remove' && w.hist[d - 1] === 'remove' && w.hist[d - 2] === 'remove') continue;
        if (/ms/.test(name) && (!d || name === w.hist[d - 1])) continue;
        const m = { ...w.m };
        W.now = m.now;
        const outs = f(w, m);
        total++;
        const hist = [...w.hist, name], what = `${snip ? 'with the style of the snippet: ' : ''}${hist.join(', ')}`;
        ck.ob('installing and removing never fail', outs.length === 1 && outs[0].kind === 'ret', () => ({ at: ck.loc(outs[0] && outs[0].node) || at, what: `${what}: ${outs.map((o) => o.kind + ' ' + show(o.v, o.s))}`, key: name }));
        for (const o of outs) {
          if (o.kind !== 'ret') continue;
          ck.ob('the page is hidden exactly from installation to removal, at most one second', hidden(o.s) === (m.until === undefined ? 0 : 1), () => ({ at, what: `${what}: ${hidden(o.s)} hiding sheets`, key: name }));
          ck.ob('other style sheets of the page stay', foreign(o.s) === 1, () => ({ at, what: `${what}: ${foreign(o.s)}`, key: name }));
          ck.ob('the style of the site snippet goes with the removal', hasSnippet(o.s) === m.snip, () => ({ at, what: `${what}: snippet style ${hasSnippet(o.s) ? 'left' : 'gone'}`, key: name }));
          next.push({ s: o.s, m, hist });
        }
      }
      work = next;
    }
    W.now = T;
  }
  // ---- starting up -------------------------------------------------------------------------
  for (const mode of ['normal', 'preview', 'stored preview', 'extension']) for (const fetch of mode === 'normal' ? ['arrives'] : ['arrives', 'fails', 'malformed', 'never']) for (const create of ['works', 'throws']) for (const start of create === 'throws' ? ['-'] : ['finishes', 'fails', 'never']) for (const redirect of create === 'throws' ? [false] : [false, true]) for (const snip of [true, false]) {
    boot = { fetch, create, start, redirect };
    const what = `${mode} mode, configuration ${fetch}, client creation ${create}, start ${start}${redirect ? ', redirect under way' : ''}${snip ? ', style of the snippet' : ''}`;
    const T = W.now;
    let s = W.start();
    if (snip) s = snippet(s);
    if (mode === 'preview') s = W.setPage(s, 'href', 'https://www.example.com/?PREVIEW=true');
    if (mode === 'stored preview') s = W.setStored(s, 'session', 'amp-preview-mode', C(JSON.stringify({ previewFlags: { f: 'on' } })));
    const g = W.globalObject();
    if (mode === 'extension') s = W.set(s, g, 'WebExperiment', { injectedByExtension: true });
    else s = W.set(s, g, 'WebExperiment', undefined);
    s = W.set(s, g, 'webExperiment', undefined);
    s = W.set(s, g, 'experimentConfig', undefined);
    const outs = W.exported(s, 'initialize', 'experiment-tag/src/index').flatMap(([x, f]) => { const r = x.clone(); return W.callValue(r, f, [C('key'), W.val(r, { initialFlags: '[]', pageObjects: '{}' }), W.val(r, {})]); });
    total++;
    ck.ob('launching has an outcome', outs.length >= 1, { at, what, key: 'none' });
    for (const o of outs) {
      const created = o.s.events().filter((e) => e.name === 'getInstance').length, fetched = o.s.events().filter((e) => e.name === 'fetchConfigs').length;
      ck.ob('the latest configuration is fetched exactly in preview mode', fetched === (mode === 'normal' ? 0 : 1), () => ({ at, what: `${what}: fetched ${fetched} times`, key: 'fetch' }));
      if (!(mode !== 'normal' && fetch === 'never')) ck.ob('a client is created whatever becomes of the configuration', created >= 1, () => ({ at, what, key: 'create' }));
      const ended = !redirect && start !== 'never' && !(mode !== 'normal' && fetch === 'never');
      // failures in preview mode may leave the page to the safety net of one second
      if (ended) ck.ob('when the start-up has ended the page is visible', hidden(o.s) === 0 && !hasSnippet(o.s), () => ({ at, what: `${what}: ${hidden(o.s)} hiding sheets, snippet style ${hasSnippet(o.s) ? 'left' : 'gone'}`, key: 'end' }));
      if (redirect && start !== 'never' && fetch === 'arrives' && created) ck.ob('a redirect under way keeps the page hidden', hasSnippet(o.s) === snip && hidden(o.s) === (mode === 'normal' ? 0 : 1), () => ({ at, what: `${what}: ${hidden(o.s)} hiding sheets`, key: 'redirect' }));
      for (const p of W.advance(o.s, 1000)) ck.ob('after one second the page is visible whatever happens', hidden(p.s) === 0, () => ({ at, what: `${what}, one second later: ${hidden(p.s)} hiding sheets`, key: 'second' }));
      W.now = T;
    }
  }
  ck.notes.push(`${total} steps`);
  ck.atLeast('the page is hidden exactly from installation to removal, at most one second', 300);
  ck.atLeast('when the start-up has ended the page is visible', 10);
};
