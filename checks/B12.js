'use strict';
const { ClientWorld } = require('./client-world');
const { C, D } = require('../engine/lib');
exports.technique = 'typestate analysis: abstract histories of failing fetches, retry timers and overlapping fetches over the constructed client and modelled timers';
exports.explanation =
  'The client is constructed abstractly over modelled timers and a modelled network. For every kind of failure a fetch is followed by firing its retry timers to the end, and every history up to the bound of fetches, retries and overlapping fetches (one issued while another, or a retry, is in flight) is interpreted. At every point at most one retry timer is live, and it exists exactly when the rules prescribe; the retries never exceed the documented number and back off between the documented minimum and maximum.';
const ATTEMPTS = 8, MIN = 500, MAX = 10000;
const FAIL = [['status 300', 300, true], ['status 399', 399, true], ['status 400', 400, false], ['status 401', 401, false], ['status 404', 404, false], ['status 413', 413, false], ['status 428', 428, false], ['status 429', 429, true], ['status 430', 430, false], ['status 499', 499, false], ['status 500', 500, true], ['status 503', 503, true], ['status 599', 599, true], ['a timeout', 'timeout', true], ['a network error', 'error', true]];
exports.run = function (ck) {
  const W = new ClientWorld(ck, {});
  const at = W.loc('fetch');
  const set = (kind) => {
    W.variants = (s) => {
      if (kind === 'ok') return [{ a: { key: 'on', value: 'on' } }, 'ret'];
      if (kind === 'error') return [{ message: 'network' }, 'throw'];
      const [x, v] = kind === 'timeout' ? W.err(s, 'TimeoutError', ['t']) : W.err(s, 'FetchError', [kind, 'm']);
      Object.assign(s, x.clone());
      return [v, 'throw'];
    };
  };
  const retries = (s) => W.timersOf(s).filter((t) => t.kind === 'setTimeout');
  const reqs = (s, n) => s.events().slice(n).filter((e) => /getVariants/.test(e.name));
  const unhandled = (o, what) => { const u = o.s.events().find((e) => e.name === 'unhandled'); ck.ob('no rejection goes unhandled', !u, { at: u ? u.loc : at, what: what + ': a rejected promise is left unhandled', key: 'unhandled' }); };
  const fetchOf = (w, user, opts) => W.each([w], 'fetch', (s) => [W.val(s, { user_id: user }), ...(opts ? [W.val(s, opts)] : [])]);
  const mk = (cfg) => W.client({ automaticExposureTracking: false, ...cfg }).map((o) => ({ s: o.s, self: o.v }))[0];
  // (1) every kind of failure, retries on / off / default
  for (const on of [true, false, undefined]) for (const [name, kind, retryable] of FAIL) {
    const w = mk(on === undefined ? {} : { retryFetchOnFailure: on });
    set(kind);
    const what = `fetch failing with ${name}, retryFetchOnFailure=${on}`;
    for (const o of fetchOf(w, 'u', { flagKeys: ['a'] })) {
      unhandled(o, what);
      const want = on !== false && retryable ? 1 : 0;
      if (!ck.ob('a retry is scheduled exactly for retryable failures', retries(o.s).length === want, { at, what: `${what}: ${retries(o.s).length} retries are scheduled`, key: name + ':' + on })) continue;
      if (!want) continue;
      // fire to the end
      let cur = o, n = 0, prev = 0;
      while (retries(cur.s).length && n <= ATTEMPTS + 1) {
        const t = retries(cur.s)[0];
        const d = t.delay && t.delay.k === 'c' ? t.delay.v : NaN;
        ck.ob('delays stay within the documented range and never shrink', d >= MIN && d <= MAX && d >= prev && (n > 0 || d === MIN), { at, what: `${what}: retry ${n + 1} waits ${d} ms after ${prev} ms`, key: 'delay' });
        prev = d;
        const r = W.fire(cur.s, t);
        ck.ob('a retry tick never throws', r.length === 1 && r[0].kind === 'ret', { at, what, key: 'tick' });
        const q = reqs(r[0].s, cur.s.events().length);
        ck.ob('each retry sends the same request once', q.length === 1 && W.is(r[0].s, W.get(r[0].s, q[0].args[0], 'user_id'), 'u') === true && W.is(r[0].s, W.get(r[0].s, q[0].args[1], 'flagKeys'), ['a']) === true, { at, what: `${what}: retry ${n + 1} sends ${q.length} requests, or for another user or other options`, key: 'same' });
        n++;
        cur = r[0];
        ck.ob('at most one retry is pending', retries(cur.s).length <= 1, { at, what: `${what}: ${retries(cur.s).length} retries pending after attempt ${n}`, key: 'one' });
        unhandled(cur, what);
      }
      ck.ob('retries stop after the documented number', n === ATTEMPTS, { at, what: `${what}: ${n} retries are made`, key: 'count' });
    }
    if (on === true && retryable) {
      // a successful retry ends the sequence and stores its variants
      for (const o of fetchOf(w, 'u')) {
        const t = retries(o.s)[0];
        if (!t) continue;
        set('ok');
        for (const r of W.fire(o.s, t)) {
          ck.ob('a successful retry ends the sequence', !retries(r.s).length, { at, what: `${what}: retries continue after a successful one`, key: 'end' });
          for (const v of W.call(r.s, w.self, 'variant', [C('a')])) ck.ob('variants of a successful retry are available', W.is(v.s, v.v, { key: 'on', value: 'on' }) === true, { at, what: `${what}: the retried variants are not returned`, key: 'stored' });
        }
        set(kind);
      }
    }
  }
  // (2) histories of overlapping fetches and retries
  const ops = [
    { name: 'fetch failing', kind: 500 }, { name: 'fetch succeeding', kind: 'ok' }, { name: 'fetch refused', kind: 400 },
    { name: 'fetch failing while another fetch fails', kind: 500, inner: 500 },
    { name: 'fetch failing while another fetch succeeds', kind: 500, inner: 'ok' },
    { name: 'fetch succeeding while another fetch fails', kind: 'ok', inner: 500 },
    { name: 'retry failing', kind: 500, tick: true }, { name: 'retry succeeding', kind: 'ok', tick: true }, { name: 'retry refused', kind: 400, tick: true },
    { name: 'retry failing while a fetch fails', kind: 500, tick: true, inner: 500 },
    { name: 'retry failing while a fetch succeeds', kind: 500, tick: true, inner: 'ok' },
    { name: 'retry succeeding while a fetch fails', kind: 'ok', tick: true, inner: 500 },
  ];
  let work = [{ ...mk({}), seq: [], live: false }];
  const bound = ck.thorough ? 4 : 3;
  let count = 0;
  for (let d = 1; d <= bound; d++) {
    const next = [];
    for (const w of work) for (const op of ops) {
      const t = retries(w.s)[0];
      if (op.tick && !t) continue;
      const seq = [...w.seq, op.name];
      const what = seq.join(', then ');
      set(op.kind);
      let done = false;
      W.during = (s) => {
        if (done) return [s];
        done = true;
        // a new fetch has ended the previous sequence before its own request
        ck.ob('a new fetch ends the previous retries', !retries(s).length, { at, what: `${what}: a retry timer is still live while the request is in flight`, key: op.tick ? 'tick-live' : 'live' });
        if (op.inner === undefined) return [s];
        set(op.inner);
        const r = W.call(s, w.self, 'fetch', [W.val(s, { user_id: 'inner' })]).map((o) => o.s);
        set(op.kind);
        return r;
      };
      const outs = op.tick ? W.fire(w.s, t) : fetchOf(w, 'u');
      for (const o of outs) {
        count++;
        unhandled(o, what);
        const n = retries(o.s).length;
        ck.ob('at most one retry is pending', n <= 1, { at, what: `${what}: ${n} retry sequences are active`, key: 'overlap' });
        let want;
        if (op.tick) want = op.inner !== undefined ? op.inner === 500 : op.kind === 500 || op.kind === 400 ? 'either' : false;
        else want = op.inner !== undefined ? (op.kind === 500 ? true : op.inner === 500) : op.kind === 500;
        if (want !== 'either' && n <= 1) ck.ob('a retry is pending exactly when the last fetch failed retryably', n === (want ? 1 : 0), { at, what: `${what}: ${n} retries are pending`, key: op.name });
        next.push({ s: o.s, self: w.self, seq });
      }
      W.during = null;
    }
    work = next;
  }
  ck.notes.push(`${FAIL.length} kinds of failure x 3 configurations, ${count} histories of length <= ${bound}`);
  ck.atLeast('a retry is scheduled exactly for retryable failures', 40);
  ck.atLeast('at most one retry is pending', 100);
};
