'use strict';
const { ClientWorld } = require('./client-world');
const { C } = require('../engine/lib');
exports.technique = 'typestate analysis: abstract histories of start and stop, including calls made while a start is in flight, over the constructed client and modelled timers';
exports.explanation =
  'The client is constructed abstractly over modelled timers and a modelled network. Every sequence up to the bound of start and stop, with every outcome of the start-up requests and with start or stop also called while a start waits for its requests, is interpreted. After each step the number of live polling timers and of requests sent must be what the state machine of the documentation prescribes.';
const MS = 90000;
exports.run = function (ck) {
  for (const poll of [true, false, undefined]) for (const fetchOnStart of poll === true ? [true, false, undefined] : [true]) histories(ck, poll, fetchOnStart);
  ck.atLeast('polling runs exactly when the client is started', 40);
  ck.atLeast('a stop during start is not undone', 4);
};
function histories(ck, pollOnStart, fetchOnStart) {
  const W = new ClientWorld(ck, {});
  const poll = pollOnStart !== false;
  const at = W.loc('start');
  const ops = [
    { name: 'start' },
    { name: 'start with failing flags', flags: 'fail' },
    { name: 'start with failing variants', variants: 'fail' },
    { name: 'stop', stop: true },
    { name: 'start, stopped while its flags are requested', flags: 'stop' },
    { name: 'start, stopped while its variants are requested', variants: 'stop' },
    { name: 'start, started again while its flags are requested', flags: 'start' },
    { name: 'start, stopped and started while its flags are requested', flags: 'stopstart' },
  ];
  const cfg = { retryFetchOnFailure: false, flagConfigPollingIntervalMillis: MS };
  if (pollOnStart !== undefined) cfg.pollOnStart = pollOnStart;
  if (fetchOnStart !== undefined) cfg.fetchOnStart = fetchOnStart;
  let work = W.client(cfg).map((o) => ({ s: o.s, self: o.v, running: false, polling: false, seq: [] }));
  const bound = ck.thorough ? 4 : 3;
  for (let d = 1; d <= bound; d++) {
    const next = [];
    for (const w of work) for (const op of ops) {
      if (op.variants === 'stop' && fetchOnStart === false) continue;
      const seq = [...w.seq, op.name];
      const what = `pollOnStart=${pollOnStart}, fetchOnStart=${fetchOnStart}: ${seq.join(', then ')}`;
      let hit = false;
      for (const k of ['flags', 'variants']) W[k] = (s) => (op[k] === 'fail' ? [W.sym('error', 64), 'throw'] : [{}, 'ret']);
      W.during = (s, kind) => {
        const act = op[kind];
        // the first request of the start itself; polling requests after it are left alone
        if (!act || act === 'fail' || hit) return [s];
        hit = true;
        let l = [s];
        for (const m of act === 'stopstart' ? ['stop', 'start'] : [act]) l = l.flatMap((x) => W.call(x, w.self, m, m === 'start' ? [W.val(x, { user_id: 'v' })] : []).map((o) => o.s));
        return l;
      };
      const n = w.s.events().length;
      for (const o of W.each([w], op.stop ? 'stop' : 'start', (s) => (op.stop ? [] : [W.val(s, { user_id: 'u' })]))) {
        const un = o.s.events().slice(n).find((e) => e.name === 'unhandled');
        ck.ob('no rejection goes unhandled', !un, { at: un ? un.loc : at, what: what + ': a rejected promise is left unhandled', key: 'unhandled' });
        if (!ck.ob('start and stop never throw', o.kind === 'ret', { at: ck.loc(o.node) || at, what: what + ' throws', key: op.name })) continue;
        const ev = o.s.events().slice(n);
        const reqs = ev.filter((e) => /^Sdk/.test(e.name));
        const live = W.timersOf(o.s).filter((t) => t.kind === 'setInterval');
        let running, polling;
        if (op.stop) { running = false; polling = false; } else if (w.running) { running = true; polling = w.polling; } else {
          const stopped = hit && [op.flags, op.variants].includes('stop');
          running = !stopped;
          polling = poll && running;
        }
        if (!op.stop && w.running) ck.ob('starting a started client does nothing', !reqs.length && !ev.some((e) => e.name === 'setInterval'), { at, what: `${what}: the client was already started but ${reqs.length ? 'requests are sent again' : 'polls again'}`, key: 'restart' });
        else if (!op.stop) {
          ck.ob('a start requests the flags', reqs.some((e) => /getFlags/.test(e.name)), { at, what: what + ': no flag request', key: 'flags' });
          const rv = reqs.some((e) => /getVariants/.test(e.name));
          ck.ob('a start requests variants exactly when configured', rv === (fetchOnStart !== false), { at, what: `${what}: variants are ${rv ? '' : 'not '}requested`, key: 'fetchOnStart' });
        }
        if (op.stop) ck.ob('stopping sends no request', !reqs.length, { at, what, key: 'stop-request' });
        const rule = hit && !w.running && [op.flags, op.variants].includes('stop') ? 'a stop during start is not undone' : 'polling runs exactly when the client is started';
        ck.ob(rule, live.length === (polling ? 1 : 0), { at, what: `${what}: ${live.length} polling timers are live, expected ${polling ? 1 : 0}`, key: op.name + (polling ? '' : ':off') });
        for (const t of live) ck.ob('polling uses the configured interval', t.delay === C(MS), { at, what: what + ': wrong interval', key: 'interval' });
        next.push({ s: o.s, self: w.self, running, polling, seq });
      }
    }
    work = next;
    W.during = null;
    W.flags = W.variants = () => [{}, 'ret'];
  }
  // a polling timer refreshes the flags and survives failures
  for (const o of W.each(W.client(cfg).map((x) => ({ s: x.s, self: x.v })), 'start', (s) => [W.val(s, { user_id: 'u' })])) {
    for (const t of W.timersOf(o.s)) for (const bad of [false, true]) {
      W.flags = () => (bad ? [W.sym('error', 64), 'throw'] : [{}, 'ret']);
      for (const r of W.fire(o.s, t)) {
        const reqs = r.s.events().slice(o.s.events().length).filter((e) => /getFlags/.test(e.name));
        const un = r.s.events().find((e) => e.name === 'unhandled');
        ck.ob('no rejection goes unhandled', !un, { at: un ? un.loc : at, what: 'a failing polling request is left as an unhandled rejection', key: 'unhandled-tick' });
        ck.ob('each polling tick requests the flags once and never fails', r.kind === 'ret' && reqs.length === 1 && W.timersOf(r.s).length === 1, { at, what: `polling tick${bad ? ' with failing request' : ''}: ${r.kind === 'ret' ? reqs.length + ' requests' : 'fails'}`, key: 'tick' });
      }
    }
  }
  ck.notes.push(`pollOnStart=${pollOnStart} fetchOnStart=${fetchOnStart}: ${work.length} histories of length ${bound}`);
}
