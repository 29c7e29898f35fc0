'use strict';
const L = require('../engine/lib');
const { Hist } = require('./hist');
const { D, derives, show } = L;
exports.technique = 'typestate analysis: abstract histories of start and stop over the constructed poller with timer identities';
exports.explanation =
  'The poller is constructed abstractly and every sequence of start and stop up to the bound is interpreted, each setInterval yielding a new timer identity. In every reached state at most one timer is live, a stop leaves none live and a following start creates exactly one again; the timer callback and every failing action path are interpreted too and must not end the polling.';
exports.run = function (ck) {
  const H = new Hist(ck, 'Poller', 'experiment-core', { timers: true, events: [/^Poller\.|action$/] });
  const action = H.sym('action'), ms = H.sym('ms', D.ALL & ~D.NULLISH);
  const bound = ck.thorough ? 7 : 5;
  const at = H.loc('start');
  // the clear/set functions are available in the environment being analysed
  const avail = (s) => {
    for (const [, f] of s.facts) { const t = f.term; if (!(f.mask & D.TRUTHY) && (L.isGet(t, /^(set|clear)(Interval|Timeout)$/) || L.isCall(t, /bind$/) || t.op === 'global')) return false; }
    return true;
  };
  const live = (s) => {
    const l = new Set();
    for (const e of s.events()) {
      if (e.name === 'setInterval' && !e.detached) l.add(e);
      if (/^clear/.test(e.name)) for (const x of l) if (timerOf(s, x, e.args[0])) l.delete(x);
    }
    return l;
  };
  const timerOf = (s, ev, v) => {
    let n = 0;
    for (const e of s.events()) { n++; if (e === ev) break; }
    return v && v.k === 't' && v.op === 'timer' && v.args[1] === String(n);
  };
  const desc = (seq) => seq.join(', ') || 'construction';
  let work = H.make([action, ms]).map((o) => ({ ...o, seq: [] }));
  let histories = 0;
  const callbacks = new Map();
  for (let d = 0; d < bound; d++) {
    const next = [];
    for (const w of work) {
      for (const m of ['start', 'stop']) {
        const before = live(w.s).size;
        for (const o of H.call(w.s, w.v, m)) {
          histories++;
          const seq = [...w.seq, m];
          const n = live(o.s).size;
          ck.ob('start and stop never throw', o.kind === 'ret', () => ({ at: ck.loc(o.node) || at, what: `${desc(seq)} throws ${show(o.v, o.s)}`, key: m }));
          ck.ob('at most one live timer', n <= 1, { at, what: `after ${desc(seq)} ${n} timers are running`, key: 'timers' });
          if (!avail(o.s)) continue;
          if (m === 'start') ck.ob('start leaves exactly one timer running', n === 1, { at, what: `after ${desc(seq)} ${n} timers are running`, key: 'start' });
          else ck.ob('stop leaves no timer running', n === 0, { at: H.loc('stop'), what: `after ${desc(seq)} ${n} timers are still running (${before} before)`, key: 'stop' });
          for (const e of live(o.s)) if (e.args[0]) callbacks.set(e.args[0].id, { e, s: o.s, self: w.v, seq });
          next.push({ s: o.s, v: w.v, kind: 'ret', seq });
        }
      }
    }
    // one representative per distinguishable history suffix
    const uniq = new Map();
    for (const w of next) uniq.set(w.s.key() + w.seq.slice(-1), w);
    work = [...uniq.values()];
  }
  for (const { e, s, seq } of callbacks.values()) {
    ck.ob('the period is the configured one', e.args[1] === ms, { at: e.loc, what: `the timer period is ${show(e.args[1], s)}`, key: 'period' });
    const outs = H.callValue(s, e.args[0]);
    const base = s.events().length;
    ck.ob('every tick runs the action', outs.length > 0 && outs.every((o) => o.s.events().slice(base).filter((x) => x.recv === action || derives(o.s, x.recv || x.args[0], (y) => y === action) || /(^|[.:])action$/.test(x.name)).length === 1), { at: e.loc, what: `a tick of the timer does not run the poll action exactly once`, key: 'tick' });
    ck.ob('a tick never ends the polling', outs.every((o) => live(o.s).size === live(s).size), { at: e.loc, what: `a path through the timer callback ends or duplicates the polling (${desc(seq)})`, key: 'tickclear' });
  }
  ck.notes.push(`${histories} abstract histories of length <= ${bound}`);
  ck.atLeast('start leaves exactly one timer running', 8);
  ck.atLeast('stop leaves no timer running', 8);
  ck.atLeast('every tick runs the action', 1);
};
