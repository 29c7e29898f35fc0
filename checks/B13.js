'use strict';
const { ClientWorld } = require('./client-world');
const { C, D, show } = require('../engine/lib');
exports.technique = 'exception-flow analysis: abstract interpretation of start and fetch on the constructed client for every failure of every request and every error and logging configuration';
exports.explanation =
  'The client is constructed abstractly for every combination of throwOnError, log level, retry and start options. fetch and start are interpreted with every combination of outcome of the flag and variant requests (success, timeout, HTTP error, other error) and of the API key. The outcome must be a rejection with the error of the failing request exactly when throwOnError is set, and a fulfilment otherwise; cached variants stay available and no rejection is left unhandled.';
const KINDS = ['ok', 'timeout', 500, 404, 'error', 'empty'];
exports.run = function (ck) {
  const levels = ck.thorough ? [undefined, 0, 1, 2, 3, 4, 5] : [undefined, 0, 5];
  let n = 0;
  for (const throwOnError of [true, false, undefined]) for (const logLevel of levels) {
    const W = new ClientWorld(ck, {});
    const cfg = { automaticExposureTracking: false, retryFetchOnFailure: false };
    if (throwOnError !== undefined) cfg.throwOnError = throwOnError;
    if (logLevel !== undefined) { cfg.logLevel = logLevel; cfg.loggerProvider = Object.fromEntries(['error', 'warn', 'info', 'debug', 'verbose'].map((k) => [k, W.sym('log' + k, D.X)])); }
    const strict = throwOnError === true;
    let errs = {};
    const respond = (kind, k) => (s) => {
      if (k === 'ok') return [kind === 'variants' ? { a: { key: 'on', value: 'on' } } : { f: { key: 'f', variants: {}, segments: [] } }, 'ret'];
      const [x, v] = k === 'timeout' ? W.err(s, 'TimeoutError', ['t']) : k === 'error' || k === 'empty' ? [s, W.val(s, { message: k })] : W.err(s, 'FetchError', [k, 'm']);
      if (x !== s) Object.assign(s, x.clone());
      errs[kind] = v;
      return [v, 'throw'];
    };
    for (const call of ['fetch', 'start']) for (const fk of call === 'start' ? KINDS.slice(0, 5) : ['ok']) for (const vk of KINDS) for (const fetchOnStart of call === 'start' ? [true, false] : [true]) {
      const at = W.loc(call);
      const what = `${call} with ${call === 'start' ? `flags ${fk}, fetchOnStart=${fetchOnStart}, ` : ''}variants ${vk}, throwOnError=${throwOnError}, logLevel=${logLevel}`;
      const [o] = W.client({ ...cfg, fetchOnStart }, undefined, vk === 'empty' ? '' : undefined);
      // a first successful fetch fills the cache
      W.variants = respond('variants', 'ok');
      let ws = vk === 'empty' ? [{ s: o.s, self: o.v }] : W.each([{ s: o.s, self: o.v }], 'fetch', (s) => [W.val(s, { user_id: 'u' })]);
      errs = {};
      W.flags = respond('flags', fk);
      W.variants = respond('variants', vk);
      for (const r of W.each(ws, call, (s) => [W.val(s, { user_id: 'u' })])) {
        n++;
        const fails = (call === 'start' && fk !== 'ok') || ((call === 'fetch' || fetchOnStart) && vk !== 'ok');
        const un = r.s.events().find((e) => e.name === 'unhandled');
        ck.ob('no rejection goes unhandled', !un, { at: un ? un.loc : at, what: what + ': a rejected promise is left unhandled', key: 'unhandled:' + call });
        if (strict && fails) {
          ck.ob('an error surfaces when asked for', r.kind === 'throw', { at, what: what + ': fulfils although the request failed', key: call + ':silent' });
          if (r.kind === 'throw' && vk !== 'empty') ck.ob('the error that surfaces is the one of the request', Object.values(errs).includes(r.v), { at, what: `${what}: rejects with ${show(r.v, r.s)}`, key: call + ':same' });
        } else ck.ob(fails ? 'an error stays silent unless asked for' : 'a successful call fulfils', r.kind === 'ret', { at: ck.loc(r.node) || at, what: what + ': rejects', key: call + ':reject' });
        if (call === 'fetch' && r.kind === 'ret') ck.ob('fetch fulfils with the client', r.v === o.v, { at, what: what + ': fulfils with something else', key: 'client' });
        if (vk !== 'empty') for (const v of W.call(r.s, o.v, 'variant', [C('a')])) ck.ob('lookups keep working from the cache', v.kind === 'ret' && W.is(v.s, v.v, { key: 'on', value: 'on' }) === true, { at, what: `${what}: variant lookup afterwards ${v.kind === 'ret' ? 'gives ' + show(v.v, v.s) : 'throws'}`, key: call + ':lookup' });
      }
    }
  }
  ck.notes.push(n + ' configurations and outcomes');
  ck.atLeast('an error surfaces when asked for', 20);
  ck.atLeast('an error stays silent unless asked for', 40);
};
