'use strict';
const { ExpWorld } = require('./exp-world');
const { ClientWorld } = require('./client-world');
const { TagWorld } = require('./tag-world');
const { World } = require('./world');
const { C, D, UNDEF, term, show } = require('../engine/lib');
const { X } = D;
exports.technique = 'effect collection by abstract interpretation of everything that persists, against the sweep interpreted over a full device with every failing removal';
exports.explanation =
  'The writers of the product (the started web client with a redirect, behavioural targeting, marketing attribution, and the flag client it creates with its caches, exposure queue and records) are interpreted and the keys they store are collected. The sweep of a refusal is interpreted for every way of refusing, on a device holding every key of the product, of another deployment and of the site, with every single removal failing: what is left is compared with what may be left.';
const KEY = 'deployment-key', OTHER = 'other-deployment-key', J = JSON.stringify;
const AREAS = ['local', 'session', 'cookie'];
exports.run = function (ck) {
  const written = { $default_instance: collect(ck, undefined), custom: collect(ck, 'custom') };
  sweep(ck, written);
  elsewhere(ck);
};
// ---- everything the product persists --------------------------------------------------
function collect(ck, instanceName) {
  const keys = {}, own = {};
  const add = (W, s, cookies, at, what) => { for (const [area, l] of [['local', W.storedKeys(s, 'local')], ['session', W.storedKeys(s, 'session')], ['cookie', cookies ? W.cookieKeys(s) : []]]) for (const k of l) keys[`${area}:${k}`] = keys[`${area}:${k}`] || { at, what }; };
  const all = (outs, f) => outs.flatMap((o) => (o.kind === 'ret' ? f(o) : []));
  // the web client
  const config = { useDefaultNavigationHandler: true, redirectConfig: { encodeRedirectInCookie: true }, ...(instanceName ? { instanceName } : {}) };
  const parser = (I, s, ctx, info, w) => {
    if (info.name === 'new CampaignParser') { const r = s.clone(); return [[r, w.val(r, { parse: w.sym('parse', X) })]]; }
    if (info.name === 'callback:parse') { const r = s.clone(), v = w.val(r, { utm_source: 'a' }); return [[r, term('resolved', [v], { mask: X })]]; }
  };
  const E = new ExpWorld(ck, { budget: 2e8, model: parser });
  const payload = [{ action: 'redirect', data: { url: 'https://shop.example.com/t' } }];
  E.assigned = { f: { key: 'on', value: 'on', payload, metadata: { evaluationMode: 'local', deliveryMethod: 'web' } } };
  const flags = [{ key: 'f', variants: { on: { key: 'on', payload } }, metadata: { evaluationMode: 'local' } }];
  const pages = { f: { p: { id: 'p', name: 'p', trigger_type: 'url_change', conditions: [[{ op: 'contains', selector: ['context', 'page', 'url'], values: ['/src'] }]] } } };
  const begin = (url, session = {}) => {
    let s = E.set(E.start(), E.globalObject(), '@@@amplitude/spa-link-interceptor-initiated', true);
    s = E.setPage(s, 'href', url);
    for (const [k, v] of Object.entries(session)) s = E.setStored(s.clone(), 'session', k, C(J(v)));
    return all(E.client(s, flags, config, { pages }), (o) => all(E.invoke(E.I.writeProp(o.s.clone(), E.ctx(), E.globalObject(), C('webExperiment'), o.v, E.cls)[0], o.v, 'start', []), (p) => [p.s]));
  };
  const at = E.loc('start');
  let started = 0, flagConfig;
  const landing = { EXP_deployment_REDIRECT_MARKER: { f: { from: 'https://www.example.com/src', target: 'https://shop.example.com/t', distinguishingParams: [], landed: false } } };
  for (const s of [...begin('https://www.example.com/src'), ...begin('https://www.example.com/src', landing)]) {
    started++;
    add(E, s, true, at, 'the started web client');
    const made = s.events().filter((e) => e.name === 'new')[0];
    if (made) { flagConfig = E.lit(s, made.args[1]); }
  }
  ck.ob('the writers can be interpreted', started >= 2 && !!flagConfig, { at, what: `${started} starts`, key: 'start' });
  ck.ob('the flag client is created for the configured instance', flagConfig && (flagConfig.instanceName || undefined) === instanceName, { at, what: `instance ${flagConfig && flagConfig.instanceName} instead of ${instanceName}`, key: 'instance' });
  // marketing attribution
  for (const [fn, hint, args] of [['setMarketingCookie', 'util/cookie', [KEY, 'www.example.com']], ['persistUrlParams', 'util/campaign', [KEY, { utm_source: 'a' }]]]) {
    const f = ck.p.sources.find((x) => x.fileName.replace(/\\/g, '/').endsWith(`experiment-tag/src/${hint}.ts`));
    const W = new TagWorld(ck, f, '', { budget: 1e8, model: parser });
    const n = Object.keys(keys).length;
    for (const [s, v] of W.exported(W.start(), fn, hint)) { const r = s.clone(); for (const o of W.callValue(r, v, args.map((a) => W.val(r, a)))) add(W, o.s, true, ck.loc(f), fn); }
    ck.ob('the writers can be interpreted', Object.keys(keys).length > n, { at: ck.loc(f), what: `${fn} stores nothing`, key: fn });
  }
  // behavioural targeting
  const B = new TagWorld(ck, 'BehavioralTargetingManager', 'experiment-tag', { budget: 1e8 });
  const rule = { f: { b1: [[{ id: 'c', condition: { type: 'behavior', event_type: 'buy', op: 'greater or equal', value: 1, time_type: 'rolling', time_value: 1, interval: 'day' } }]] } };
  let stored = 0;
  const rules = B.start();
  for (const o of B.make([C(KEY), B.val(rules, rule)], rules)) if (o.kind === 'ret') for (const p of all(B.invoke(o.s.clone(), o.v, 'trackEvent', [C('buy'), UNDEF]), (q) => B.advance(q.s, 1000))) { stored++; add(B, p.s, true, B.loc('trackEvent'), 'behavioural targeting'); }
  ck.ob('the writers can be interpreted', stored > 0, { at: B.loc('trackEvent'), what: 'behavioural targeting stores nothing', key: 'behaviour' });
  // the flag client
  const F = new ClientWorld(ck, {});
  const fc = Object.fromEntries(Object.entries(flagConfig || {}).filter(([k, v]) => ['string', 'number', 'boolean'].includes(typeof v)));
  const s0 = F.start();
  let caches = 0;
  F.variants = () => [{ f: { key: 'on', value: 'on' } }, 'ret'];
  F.flags = () => [{ g: { key: 'g', variants: {}, segments: [] } }, 'ret'];
  for (const o of F.make([C(KEY), F.val(s0, fc)], s0)) if (o.kind === 'ret') for (const p of all(F.invoke(o.s.clone(), o.v, 'fetch', [UNDEF]), (q) => all(F.invoke(q.s.clone(), o.v, 'start', [UNDEF]), (r) => all(F.invoke(r.s.clone(), o.v, 'setTracksAssignment', [C(true)]), (z) => [z])))) { caches++; add(F, p.s, false, F.loc('fetch'), 'the flag client'); }
  ck.ob('the writers can be interpreted', caches > 0, { at: F.loc('fetch'), what: 'the flag client stores nothing', key: 'caches' });
  const Q = new World(ck, 'IntegrationManager', 'experiment-browser', { budget: 1e8 });
  const q0 = Q.start();
  let tracked = 0;
  for (const o of Q.make([Q.val(q0, fc), Q.val(q0, { getUser: Q.sym('getUser', X) })], q0)) if (o.kind === 'ret') { const r = o.s.clone(); for (const p of Q.invoke(r, o.v, 'track', [Q.val(r, { flag_key: 'f', variant: 'on', metadata: {} })])) { tracked++; add(Q, p.s, false, Q.loc('track'), 'tracking exposures'); } }
  ck.ob('the writers can be interpreted', tracked > 0, { at: Q.loc('track'), what: 'tracking stores nothing', key: 'track' });
  const U = new World(ck, 'DefaultUserProvider', 'experiment-browser', { budget: 1e8 });
  for (const o of U.make([UNDEF, C(KEY)], U.start())) if (o.kind === 'ret') for (const p of U.invoke(o.s.clone(), o.v, 'getUser', [])) add(U, p.s, false, U.loc('getUser'), 'the default user provider');
  return keys;
}
// ---- the sweep ---------------------------------------------------------------------------
const EXEMPT = ['session:amp-preview-mode', 'session:visual-editor-state'];
const MARKER = 'EXP_deployment_erased';
function sweep(ck, written) {
  const idx = ck.p.sources.find((f) => /experiment-tag[/\\]src[/\\]index\.ts$/.test(f.fileName));
  let failing, blocked;
  const W = new TagWorld(ck, idx, '', {
    cookieBlocked: (s, c) => !!blocked && blocked.test(c),
    budget: ck.thorough ? 6e8 : 2e8,
    storage: (op, area, key) => (op === 'removeItem' && `${area}:${key}` === failing ? 'throw' : undefined),
    callbacks: { start: (w, s) => ({ states: [[s, term('resolved', [UNDEF], { mask: X })]] }) },
    model: (I, s, ctx, info, w) => {
      if (/DefaultWebExperimentClient\.getInstance$/.test(info.name || '')) { const r = s.clone(); return [[r, w.val(r, { isRedirecting: false, start: w.sym('start', X) })]]; }
      if (/(^|\.)isPreviewMode$/.test(info.name || '')) return [[s, C(false)]];
      if (/(^|\.)removeAntiFlickerCss$/.test(info.name || '')) return [[s, UNDEF]];
    },
  });
  const at = ck.loc(idx), g = W.globalObject();
  const call = (s, name, args) => W.exported(s, name, 'experiment-tag/src/index.ts').flatMap(([x, f]) => { const r = x.clone(); return W.callValue(r, f, args(r)); });
  const put = (s, list) => { let r = s; for (const k of list) { const [a, n] = [k.slice(0, k.indexOf(':')), k.slice(k.indexOf(':') + 1)]; r = a === 'cookie' ? W.setCookie(r, n, 'v') : W.setStored(r.clone(), a, n, C('"v"')); } return r; };
  const left = (s) => [...['local', 'session'].flatMap((a) => W.storedKeys(s, a).map((k) => `${a}:${k}`)), ...W.cookieKeys(s).map((k) => `cookie:${k}`)];
  const open = { consentRequired: true }, yes = { ...open, consentStatus: 'granted' }, no = { ...open, consentStatus: 'denied' };
  const init = (s, own, page, instance, where) => { const r = W.set(s, g, 'experimentConfig', where === 'page' ? { ...(page ? { consentOptions: page } : {}), ...(instance ? { instanceName: instance } : {}) } : UNDEF); return call(r, 'initialize', (q) => [C(KEY), W.val(q, {}), W.val(q, { ...(where === 'page' ? {} : { consentOptions: own, ...(instance ? { instanceName: instance } : {}) }) })]); };
  const set = (s, x) => call(s, 'setConsentStatus', () => [C(x)]);
  // name, steps; every step list ends with the refusal, 'fill' puts the data of the page on the device again
  const WAYS = [
    ['refused before the start', [['start', no]]],
    ['refused by the page before the start', [['consent', 'denied'], ['start', open]]],
    ['refused while pending', [['start', open], ['consent', 'denied']]],
    ['taken back', [['start', yes], ['consent', 'denied']]],
    ['granted, then taken back', [['start', open], ['consent', 'granted'], ['consent', 'denied']]],
    ['taken back twice', [['start', yes], ['consent', 'denied'], ['consent', 'granted'], ['fill'], ['consent', 'denied']]],
    ['refused, granted and refused before the start', [['start', no], ['start', no], ['consent', 'granted'], ['fill'], ['consent', 'denied']]],
  ];
  let total = 0;
  for (const [instance, keys] of Object.entries(written)) {
    const mine = Object.keys(keys).filter((k) => !EXEMPT.includes(k) && k !== 'cookie:' + MARKER);
    const older = [`session:EXP_sent_v2_${instance}`, `session:EXP_sent_${instance}`];
    const rename = (k) => (k.includes('deployment') ? k.replace('deployment', 'other-depl') : k.includes('nt-key') ? k.replace('nt-key', 'ot-key') : null);
    const foreign = [...mine.map(rename).filter(Boolean), 'local:mine', 'session:mine', 'cookie:mine', 'cookie:AMP_MKTG_deployment', 'local:EXP_deployment_visitor_notes', ...EXEMPT, `local:EXP_unsent_another`, 'session:amp-exp-another-web-nt-key'];
    ck.ob('the device of a consenting visitor holds the known families', mine.length >= 14, { at, what: `${instance}: ${mine.length} keys: ${mine}`, key: 'families' + instance });
    for (const where of ['call', 'page']) for (const [wname, steps] of WAYS) for (const fail of [undefined, ...(where === 'call' && (ck.thorough || /taken back$|before the start/.test(wname)) && wname !== 'granted, then taken back' ? [...mine, ...older].filter((k) => !/^cookie/.test(k)) : [])]) {
      failing = fail;
      let s = W.start();
      for (const k of ['webExperiment', 'experimentConfig', 'WebExperiment']) s = W.set(s, g, k, UNDEF);
      s = put(s, [...mine, ...older, ...foreign]);
      let list = [{ s, kind: 'ret' }], n = 0;
      const inst = instance === '$default_instance' ? undefined : instance;
      for (const [i, [what, arg]] of steps.entries()) list = list.flatMap((o) => { if (o.kind !== 'ret') return [o]; if (i === steps.length - 1) n = o.s.events().length; return what === 'fill' ? [{ s: put(o.s, mine), kind: 'ret' }] : what === 'start' ? init(o.s, arg, arg, inst, where) : set(o.s, arg); });
      total++;
      const desc = `${instance}${where === 'page' ? ', configured on the page' : ''}, ${wname}${fail ? `, removing ${fail} fails` : ''}`;
      if (!ck.ob('a refusal never fails', list.length === 1 && list[0].kind === 'ret', () => ({ at: ck.loc(list[0] && list[0].node) || at, what: `${desc}: ${list.map((o) => o.kind + ' ' + show(o.v, o.s)).join(' | ').slice(0, 150)}`, key: wname + fail }))) continue;
      const rest = left(list[0].s);
      for (const k of [...mine, ...older]) if (k !== fail) ck.ob('a refusal erases everything the product stored', !rest.includes(k), () => ({ at: (keys[k] || {}).at || at, what: `${desc}: ${k} (stored by ${(keys[k] || { what: 'an earlier version' }).what}) is still there`, key: k.replace(/custom|\$default_instance/, 'INSTANCE') }));
      for (const k of foreign) ck.ob('a refusal leaves what is not ours', rest.includes(k), () => ({ at, what: `${desc}: ${k} is gone`, key: k.replace(/custom|\$default_instance/, 'INSTANCE') }));
      ck.ob('a refusal is remembered for the other subdomains', W.cookie(list[0].s, MARKER) && W.is(list[0].s, W.cookie(list[0].s, MARKER), '1') === true, () => ({ at, what: `${desc}: no marker`, key: 'marker' + wname }));
      const extra = rest.filter((k) => ![...mine, ...older, ...foreign, 'cookie:' + MARKER].includes(k));
      ck.ob('a refusal stores nothing else', !extra.length, () => ({ at, what: `${desc}: ${extra}`, key: 'extra' + extra[0] }));
      // cookies are erased for the host and for every parent domain
      const sent = list[0].s.events().slice(n).filter((e) => e.name === 'cookie').map((e) => show(e.args[0], list[0].s));
      for (const k of mine.filter((x) => /^cookie:/.test(x)).map((x) => x.slice(7))) for (const [dn, re] of [['the host', (c) => !/domain=/.test(c)], ['.example.com', (c) => /domain=\.example\.com/.test(c)], ['.www.example.com', (c) => /domain=\.www\.example\.com/.test(c)]])
        ck.ob('cookies are erased for the host and every parent domain', sent.some((c) => c.replace(/^"/, '').startsWith(k + '=;') && /expires=Thu, 01 Jan 1970/.test(c) && re(c)), () => ({ at, what: `${desc}: ${k} is not expired for ${dn}`, key: k + dn }));
      const mark = sent.filter((c) => c.replace(/^"/, '').startsWith(MARKER + '='));
      ck.ob('the marker is kept for a year on the root domain', mark.some((c) => /domain=\.example\.com/.test(c) && /max-age=31536000/.test(c)), () => ({ at, what: `${desc}: ${mark}`, key: 'year' }));
    }
  }
  // hosts below a public suffix and hosts which share nothing
  failing = undefined;
  for (const [host, root, pub] of [['shop.example.co.uk', '.example.co.uk', /domain=\.?co\.uk/], ['example.co.uk', '.example.co.uk', /domain=\.?co\.uk/], ['example.com', '.example.com', null], ['localhost', null, /domain=/]]) {
    blocked = pub;
    const page = W.start();
    const p0 = page.heap.get('W:page');
    page.wHeap().set('W:page', { ...p0, entries: p0.entries.map((e) => (e.k === 'hostname' ? { ...e, v: C(host) } : e)) });
    let s = page;
    for (const k of ['webExperiment', 'experimentConfig', 'WebExperiment']) s = W.set(s, g, k, UNDEF);
    const mine = Object.keys(written.$default_instance).filter((k) => !EXEMPT.includes(k) && k !== 'cookie:' + MARKER);
    s = put(s, mine);
    const n = s.events().length, outs = init(s, no, no, undefined, 'call');
    const ok = outs.length === 1 && outs[0].kind === 'ret';
    ck.ob('a refusal never fails', ok, { at, what: `on ${host}`, key: 'host' + host });
    if (!ok) continue;
    const r = outs[0].s, rest = left(r);
    for (const k of mine) ck.ob('a refusal erases everything the product stored', !rest.includes(k), () => ({ at, what: `on ${host}: ${k} is still there`, key: k.replace(/custom|\$default_instance/, 'INSTANCE') }));
    const sent = r.events().slice(n).filter((e) => e.name === 'cookie').map((e) => show(e.args[0], r).replace(/^"/, ''));
    const kept = sent.filter((c) => c.startsWith(MARKER + '=') && !/expires=Thu, 01 Jan 1970|max-age=0/.test(c) && !(pub && pub.test(c)));
    ck.ob('a refusal is remembered for the other subdomains', root ? kept.some((c) => c.includes(`domain=${root};`) || c.endsWith(`domain=${root}`) || c.includes(`domain=${root}"`)) && rest.includes('cookie:' + MARKER) : !kept.length, () => ({ at, what: `on ${host}: ${kept}`, key: 'host' + host }));
  }
  blocked = undefined;
  ck.notes.push(`${total} refusals; keys: ${Object.keys(written.custom).join(' ')}`);
  ck.atLeast('a refusal erases everything the product stored', 100);
}
// ---- an erasure made on another subdomain ----------------------------------------------------
function elsewhere(ck) {
  const file = ck.p.sources.find((f) => /experiment-tag[/\\]src[/\\]consent[/\\]clear-data\.ts$/.test(f.fileName));
  const E = new ExpWorld(ck, { budget: 1e8 });
  const at = E.loc('start');
  for (const instance of [undefined, 'custom']) for (const marker of [true, false]) for (const identity of [true, false]) {
    let s = E.set(E.start(), E.globalObject(), '@@@amplitude/spa-link-interceptor-initiated', true);
    s = E.setStored(s.clone(), 'local', 'EXP_deployment', C(J({ web_exp_id: 'old', device_id: 'old', web_exp_id_v2: 'old' })));
    s = E.setStored(s.clone(), 'local', `EXP_unsent_${instance || '$default_instance'}`, C('[]'));
    if (marker) s = E.setCookie(s, MARKER, '1');
    if (identity) s = E.setCookie(s, 'EXP_deployment_identity', J({ web_exp_id_v2: 'shared', first_seen: '1' }));
    const erased = marker && !identity;
    const outs = E.client(s, [], instance ? { instanceName: instance } : {}, {});
    for (const o of outs) {
      const queue = o.kind === 'ret' && E.storedKeys(o.s, 'local').includes(`EXP_unsent_${instance || '$default_instance'}`);
      ck.ob('an erasure on another subdomain reaches this one before anything is read', queue === !erased, () => ({ at: file ? ck.loc(file) : at, what: `instance ${instance || 'default'}, marker ${marker}, shared identity ${identity}: the exposure queue is ${queue ? 'kept' : 'erased'}`, key: `queue${instance}${marker}${identity}` }));
      const kept = o.kind === 'ret' && E.storedKeys(o.s, 'local').includes('EXP_deployment');
      ck.ob('an erasure on another subdomain reaches this one before anything is read', kept === !erased, () => ({ at: file ? ck.loc(file) : at, what: `marker ${marker}, shared identity ${identity}: the identity of this origin is ${kept ? 'kept' : 'erased'}`, key: `elsewhere${marker}${identity}` }));
      if (o.kind === 'ret') for (const p of E.invoke(E.I.writeProp(o.s.clone(), E.ctx(), E.globalObject(), C('webExperiment'), o.v, E.cls)[0], o.v, 'start', [])) {
        const users = p.s.events().filter((e) => e.name === 'setUser').map((e) => J(E.lit(p.s, e.args[0])) || '');
        ck.ob('an erased identity is not used again', !erased || (users.length > 0 && users.every((u) => !/"old"/.test(u))), () => ({ at, what: `marker ${marker}, shared identity ${identity}: ${users[0]}`, key: `identity${marker}${identity}` }));
      }
    }
  }
  ck.atLeast('an erasure on another subdomain reaches this one before anything is read', 4);
}
