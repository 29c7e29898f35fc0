'use strict';
const { DomWorld } = require('./dom-world');
const { C, D, UNDEF, show } = require('../engine/lib');
exports.technique = 'abstract histories of the editor channel over a table of trusted and look-alike origins';
exports.explanation =
  'The set-up of the editor channel is interpreted from every kind of stored session and, without one, over sequences of messages whose origin, type and script address run over trusted hosts, look-alikes (suffix, prefix, path, user-info, port, sub-domain tricks, other schemes, unparsable text) followed by the script loading or failing. A script element reaches the page exactly when the reference says so, with exactly the checked address, and never twice while one is being loaded or is loaded.';
const KEY = 'visual-editor-state';
exports.run = function (ck) {
  const mk = (noBody) => {
    const W = new DomWorld(ck, 'WindowMessenger', 'util/messenger', { budget: ck.thorough ? 2e8 : 6e7, globals: ['opener'] });
    W.noBody = noBody;
    return W;
  };
  const W = mk(false);
  const at = W.loc('setup');
  const trusted = (u) => { try { return new URL(u).hostname.endsWith('.amplitude.com'); } catch (e) { return false; } };
  const safe = (u) => { try { return trusted(u) && new URL(u).protocol === 'https:'; } catch (e) { return false; } };
  const ORIGINS = ['https://app.amplitude.com', 'https://eu.app.amplitude.com', 'https://app.amplitude.com:8443', 'https://APP.AMPLITUDE.COM',
    'https://amplitude.com', 'https://evilamplitude.com', 'https://evil-amplitude.com', 'https://app.amplitude.com.evil.com', 'https://app.amplitude.comx', 'https://app.amplitudexcom', 'https://app-amplitude.com', 'https://app.amplitude.co', 'https://appxamplitude.com', 'https://evil.com',
    'https://evil.com/app.amplitude.com', 'https://evil.com?x=.amplitude.com', 'https://evil.com#.amplitude.com', 'https://app.amplitude.com@evil.com', 'https://app.amplitude.com.', 'null', '', 'not a url', 'https://.amplitude.com.evil.com', 'file://', 'https://www.example.com', 'https://\u{430}mplitude.com'];
  const SRC = ['https://app.amplitude.com/e.js', 'https://cdn.eu.amplitude.com/a/b.js?x=1', 'https://cdn.amplitude.com:444/e.js',
    'http://app.amplitude.com/e.js', 'https://amplitude.com/e.js', 'https://evil.com/app.amplitude.com', 'https://evil.com/e.js?.amplitude.com', 'https://evil.com/#.amplitude.com', 'https://evilamplitude.com/e.js', 'https://x.amplitude.com.evil.com/e.js', 'https://app.amplitude.com@evil.com/e.js', 'https://u:p@app.amplitude.com/e.js', 'javascript:alert(1)//.amplitude.com', 'data:text/javascript,alert(1)//.amplitude.com', 'blob:https://app.amplitude.com/x', 'ftp://app.amplitude.com/e.js', '//app.amplitude.com/e.js', '/e.js', '', 'https://xamplitude.com', 'https://a.xamplitude.com/e.js', 'https://a.amplitude-com/e.js', 'https://a.amplitude.com.', 'https://amplitude.com.br/.amplitude.com'];
  const scripts = (w, s, n) => s.events().slice(n).filter((e) => e.name === 'append' && w.own(s, e.args[0], '[[tag]]') && w.own(s, e.args[0], '[[tag]]').v === 'script');
  const srcOf = (w, s, e) => { const v = w.own(s, e.args[0], 'src'); return v && (w.I.constOf(s, v) || v); };
  const setup = (w, session) => {
    let s = w.start();
    if (session !== undefined) s = w.setStored(s, 'session', KEY, C(session));
    return w.exported(s, 'WindowMessenger', 'util/messenger').flatMap(([x, v]) => w.invoke(x, v, 'setup', []));
  };
  const RULE = 'a script is loaded exactly when its address and the origin which names it are trusted';
  const check = (w, o, n, want, what) => {
    const l = scripts(w, o.s, n);
    const got = l.map((e) => { const v = srcOf(w, o.s, e); return v && v.k === 'c' ? v.v : v ? show(v, o.s) : '?'; });
    ck.ob(RULE, got.join() === want.join() && got.length === want.length, () => ({ at: (l[0] && ck.loc(l[0].node)) || at, what: `${what}: loads [${got}] instead of [${want}]`, key: what }));
    return l.map((e) => e.args[0]);
  };
  const settle = (outs, w, rule, what) => { for (const o of outs) if (o.kind !== 'ret') ck.ob(rule, false, { at: ck.loc(o.node) || at, what: `${what}: throws ${show(o.v, o.s)}`, key: rule }); return outs.filter((o) => o.kind === 'ret'); };
  // ---- stored sessions --------------------------------------------------------------
  const sessions = [undefined, '', 'null', '5', '{}', 'not json', '[]', '{"injectSrc":5}', '{"injectSrc":null,"amplitudeWindowUrl":"https://app.amplitude.com"}', ...SRC.map((u) => JSON.stringify({ injectSrc: u, amplitudeWindowUrl: 'https://app.amplitude.com' }))];
  const listening = [];
  for (const t of sessions) {
    const what = `stored session ${t}`;
    let src;
    try { const j = JSON.parse(t); src = j && j.injectSrc; } catch (e) { /* none */ }
    const ok = typeof src === 'string' && safe(src);
    const outs = settle(setup(W, t), W, 'setting the channel up never throws', what);
    ck.ob('setting the channel up never throws', outs.length > 0, { at, what, key: 'none' });
    for (const o of outs) {
      const els = check(W, o, 0, ok ? [src] : [], what);
      if (t === undefined) listening.push(o.s);
      if (!ok) {
        ck.ob('without a trusted stored session the channel waits for a message', W.heardBy(o.s, 'message').length === 1, { at, what, key: 'wait' });
        continue;
      }
      // a message which arrives as well never loads a second script
      const n = o.s.events().length;
      for (const step of [null, 'load', 'error']) {
        for (const p of step ? W.dispatchOn(o.s, els[0], step, []) : [o]) {
          if (step === 'error' || !els[0]) continue;
          const data = W.val(p.s.clone(), 0) && p.s.clone();
          const ev = W.val(data, { origin: 'https://app.amplitude.com', data: { type: 'OpenOverlay', context: { injectSrc: SRC[0], amplitudeWindowUrl: '' } } });
          for (const q of W.dispatch(data, 'message', [ev])) ck.ob('at most one script is loaded while one is loading or loaded', scripts(W, q.s, n).length === 0, { at, what: `${what}, ${step || 'still loading'}, then a message`, key: 'twice' });
        }
      }
    }
  }
  // ---- messages ------------------------------------------------------------------------
  const message = (w, s, origin, data) => { const r = s.clone(); return { s: r, v: w.val(r, { origin, data }) }; };
  const open = (src) => ({ type: 'OpenOverlay', context: { injectSrc: src, amplitudeWindowUrl: 'https://app.amplitude.com' } });
  const send = (w, s, origin, data) => { const m = message(w, s, origin, data); return w.dispatch(m.s, 'message', [m.v]); };
  ck.ob('the channel listens for messages', listening.length > 0, { at, what: 'no history without a session', key: 'listening' });
  for (const s0 of listening) {
    const n = s0.events().length;
    for (const origin of ORIGINS) for (const src of (trusted(origin) ? SRC : [SRC[0], SRC[1]])) {
      const what = `message from ${JSON.stringify(origin)} naming ${src}`;
      const want = trusted(origin) && safe(src) ? [src] : [];
      for (const o of send(W, s0, origin, open(src))) check(W, o, n, want, what);
    }
    for (const [name, data] of [['another type', { type: 'Other', context: { injectSrc: SRC[0] } }], ['no type', { context: { injectSrc: SRC[0] } }], ['no context', { type: 'OpenOverlay' }], ['no data', null], ['text', 'OpenOverlay'], ['no address', { type: 'OpenOverlay', context: {} }], ['an untrusted window', { ...open(SRC[0]), type: 'openoverlay' }]]) {
      for (const origin of [ORIGINS[0], 'https://evil.com']) for (const o of send(W, s0, origin, data)) check(W, o, n, [], `message from ${origin} with ${name}`);
    }
    for (const o of (() => { const r = s0.clone(); return W.dispatch(r, 'message', [W.val(r, { data: open(SRC[0]) })]); })()) check(W, o, n, [], 'message without origin');
    // sequences: message, then loading / loaded / failed, then another message
    for (const first of [open(SRC[0]), open('https://evil.com/e.js')]) for (const o of send(W, s0, ORIGINS[0], first)) {
      const els = scripts(W, o.s, n).map((e) => e.args[0]);
      for (const step of [null, 'load', 'error', 'load,error']) {
        if (step && !els.length) continue;
        let list = [o];
        for (const t of step ? step.split(',') : []) list = list.flatMap((x) => W.dispatchOn(x.s, els[0], t, []));
        for (const p of list) {
          const m = p.s.events().length;
          const again = !els.length || step === 'error';
          for (const [origin, src] of [[ORIGINS[0], SRC[1]], ['https://evil.com', SRC[1]], [ORIGINS[0], 'http://app.amplitude.com/e.js']]) {
            const ok = again && trusted(origin) && safe(src);
            for (const q of send(W, p.s, origin, open(src))) check(W, q, m, ok ? [src] : [], `message naming ${first.context.injectSrc}, ${step || 'nothing yet'}, message from ${origin} naming ${src}`);
          }
        }
      }
    }
  }
  // ---- before the body exists --------------------------------------------------------------
  const V = mk(true);
  for (const o of settle(setup(V, undefined), V, 'setting the channel up never throws', 'no body')) {
    const n = o.s.events().length;
    for (const p of send(V, o.s, ORIGINS[0], open(SRC[0]))) {
      check(V, p, n, [], 'no body yet');
      for (const q of send(V, p.s, ORIGINS[0], open(SRC[1]))) {
        V.noBody = false;
        for (const z of V.advance(q.s, 20)) check(V, z, n, [SRC[0]], 'two messages before the body exists');
        V.noBody = true;
      }
    }
  }
  ck.notes.push(`${sessions.length} stored sessions, ${ORIGINS.length} origins, ${SRC.length} script addresses`);
  ck.atLeast(RULE, 150);
};
