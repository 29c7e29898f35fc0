'use strict';
const { HttpWorld } = require('./client-world');
const { C, D, show } = require('../engine/lib');
exports.technique = 'abstract interpretation of initialisation histories over the page registry, with the real client, connector and integration';
exports.explanation =
  'The factory module is loaded abstractly with an empty page. Every sequence up to the bound of initialisations, over both entry points, instance names (absent, empty, distinct), deployments and internal suffixes, is interpreted. Equal identity must give the same object without any effect or change of its configuration, different identity a different object with its own configuration; the analytics integration must be connected exactly when the creating call asked for it, once.';
const RC = D.X;
exports.run = function (ck) {
  const W = new HttpWorld(ck, {
    budget: ck.thorough ? 6e7 : 2e7, absent: ['navigator', 'document', 'location'], callbacks: { receiver: () => undefined },
    model: (I, s, c, info, w) => { if (/getResult$/.test(info.name)) { const r = s.clone(); return [[r, w.val(r, { browser: {}, os: {}, device: {} })]]; } },
  });
  const at = (n) => ck.loc(ck.fn(n, 'experiment-browser'));
  const items = [];
  for (const entry of ['initialize', 'initializeWithAmplitudeAnalytics']) for (const name of [undefined, 'A', 'B']) for (const key of ['client-1', 'client-2']) for (const suffix of [undefined, 'web'])
    if (!(suffix && (key === 'client-2' || name === 'B'))) items.push({ entry, name, key, suffix });
  items.push({ entry: 'initialize', name: '', key: 'client-1' }, { entry: 'initialize', name: null, key: 'client-1' }, { entry: 'initialize', none: true, key: 'client-1' }, { entry: 'initializeWithAmplitudeAnalytics', none: true, key: 'client-1' }, { entry: 'initialize', name: '$default_instance', key: 'client-1' }, { entry: 'initialize', name: 'a', key: 'client-1' }, { entry: 'initialize', name: 'A', key: 'Client-1' });
  const eff = (i) => i.name || '$default_instance';
  const id = (i) => `${eff(i)} / ${i.key} / ${i.suffix || ''}`;
  const label = (i) => `${i.entry}(${i.key}, ${i.none ? 'no configuration' : 'instance ' + i.name}${i.suffix ? ', suffix ' + i.suffix : ''})`;
  // the page: empty registries, a connector per name with an identity and a receiver
  let s = W.start();
  const g = W.globalObject();
  s = W.set(s, g, 'analyticsConnectorInstances', {});
  const loaded = W.load(s, 'experiment-browser/src/factory.ts');
  if (!ck.ob('the factory module loads', loaded.length === 1, { what: loaded.length + ' outcomes', key: 'load' })) return;
  s = loaded[0];
  const receiver = W.sym('receiver', RC);
  const [[s1, conn]] = W.exported(s, 'AnalyticsConnector', 'analytics-connector/src');
  s = s1;
  for (const n of ['$default_instance', 'A', 'B', 'a']) {
    const [c] = W.invoke(s, conn, 'getInstance', [C(n)]);
    s = c.s;
    const r = s.clone();
    [s] = W.invoke(r, W.get(r, c.v, 'identityStore'), 'setIdentity', [W.val(r, { userId: 'user-' + n })]).map((o) => o.s);
    [s] = W.invoke(s, W.get(s, c.v, 'eventBridge'), 'setEventReceiver', [receiver]).map((o) => o.s);
  }
  const call = (x, item, i) => {
    const [[y, f]] = W.exported(x, item.entry, 'experiment-browser/src/factory');
    const r = y.clone();
    const args = [C(item.key)];
    if (!item.none) {
      const cfg = { fallbackVariant: { key: 'fallback' + i, value: 'fallback' + i }, httpClient: { request: W.sym('request', D.X) } };
      if (item.name !== undefined) cfg.instanceName = item.name;
      if (item.suffix) cfg.internalInstanceNameSuffix = item.suffix;
      args.push(W.val(r, cfg));
    }
    ck.entries.add(item.entry);
    return W.callValue(r, f, args);
  };
  const probe = (w, what) => {
    // every client still has the configuration and connection of its creating call
    for (const [k, c] of w.clients) {
      for (const o of W.call(w.s, c.v, 'variant', [C('nothing')])) {
        const want = c.item.none ? {} : { key: 'fallback' + c.i, value: 'fallback' + c.i };
        ck.ob('a client keeps the configuration it was created with', o.kind === 'ret' && W.is(o.s, o.v, want) === true, { at: at(c.item.entry), what: `${what}: the client of ${k} answers ${show(o.v, o.s).slice(0, 80)}`, key: 'config' });
      }
    }
  };
  const connected = (w, what) => {
    for (const [k, c] of w.clients) {
      W.variants = () => [{ f: { key: 'on', value: 'on' } }, 'ret'];
      const fs = W.call(w.s, c.v, 'fetch', []);
      for (const f of fs) {
        const rq = f.s.events().slice(w.s.events().length).filter((e) => e.name === 'callback:request');
        const wantUser = c.item.entry === 'initialize' ? undefined : 'user-' + eff(c.item);
        if (!c.item.none) {
          if (!ck.ob('a fetch sends one request', rq.length === 1, { at: at(c.item.entry), what: `${what}: ${rq.length} requests`, key: 'rq' })) continue;
          const u = W.headerObject(f.s, rq[0], 'X-Amp-Exp-User');
          const got = u && W.get(u[0], u[1], 'user_id');
          ck.ob('the client takes its identity from the analytics connector exactly when connected', !!u && got === C(wantUser), { at: at(c.item.entry), what: `${what}: the client of ${k} requests with user ${u ? show(got, u[0]) : 'unknown'}`, key: 'identity:' + c.item.entry });
        }
        if (!c.item.none) for (const o of W.call(f.s, c.v, 'exposure', [C('f')])) {
          const n = o.s.events().slice(f.s.events().length).filter((e) => e.name === 'callback:receiver').length;
          ck.ob('exposures reach the analytics receiver exactly once when connected', n === (c.item.entry === 'initialize' ? 0 : 1), { at: at(c.item.entry), what: `${what}: an exposure of the client of ${k} is received ${n} times`, key: 'exposure:' + c.item.entry });
        }
      }
    }
  };
  const bound = ck.thorough ? 3 : 2;
  let work = [{ s, clients: new Map(), seq: [] }];
  for (let d = 0; d < bound; d++) {
    const next = [];
    for (const w of work) items.forEach((item, ii) => {
      if (d === 2 && ii % 3 && id(item) !== id(w.last)) return;
      const seq = [...w.seq, label(item)];
      const what = seq.join(', then ');
      const n = w.s.events().length;
      for (const o of call(w.s, item, d)) {
        if (!ck.ob('initialising never fails', o.kind === 'ret', { at: ck.loc(o.node) || at(item.entry), what, key: 'throw' })) continue;
        const old = w.clients.get(id(item));
        const clients = new Map(w.clients);
        if (old) {
          ck.ob('the same instance name and deployment give the existing client', o.v === old.v, { at: at(item.entry), what: `${what}: a different client is returned`, key: 'same' });
          const ev = o.s.events().slice(n).filter((e) => !/^Storage\.(setItem|removeItem)$/.test(e.name) || !/EXP_test/.test(show(e.args[0], o.s)));
          ck.ob('initialising again has no effect', !ev.length, { at: ev[0] ? ev[0].loc : at(item.entry), what: `${what}: ${ev.map((e) => e.name).slice(0, 3).join()}`, key: 'again' });
        } else {
          ck.ob('a new identity gives a new client', o.v.k === 'o' && ![...w.clients.values()].some((c) => c.v === o.v), { at: at(item.entry), what: `${what}: an existing client is returned`, key: 'new' });
          clients.set(id(item), { v: o.v, item, i: d });
        }
        const q = { s: o.s, clients, seq, last: item };
        probe(q, what);
        if (d === 0 || (d === 1 && (ck.thorough || old))) connected(q, what);
        next.push(q);
      }
    });
    work = next;
  }
  ck.notes.push(`${work.length} histories of length ${bound} over ${items.length} initialisations`);
  ck.atLeast('the same instance name and deployment give the existing client', 20);
  ck.atLeast('a new identity gives a new client', 100);
};
