'use strict';
const { World } = require('./world');
const { ClientWorld } = require('./client-world');
const { C, D, show } = require('../engine/lib');
exports.technique = 'abstract interpretation of every log call for every level, severity and argument count, and of client histories for every logging configuration; the emitted sink calls are enumerated';
exports.explanation =
  'The level-filtering logger is constructed abstractly for every level and every severity is logged with symbolic arguments: the sink must receive exactly the enabled calls, through the function of the same severity, with the same arguments. The console sink must map each severity to the console. A client is constructed for every debug flag and log level, and its requests are interpreted with success and failure: every sink call must be enabled, and the calls an enabled level requires must be there.';
const SEV = ['error', 'warn', 'info', 'debug', 'verbose'];
exports.run = function (ck) {
  sink(ck); consoleSink(ck); client(ck);
  ck.atLeast('a call reaches the sink exactly when its severity is enabled', 60);
};
const only = (s, n) => s.events().slice(n);
function sink(ck) {
  const W = new World(ck, 'AmpLogger', 'experiment-browser', { events: [/^[Cc]onsole\./] });
  const fns = Object.fromEntries(SEV.map((x) => [x, W.sym(x, D.X)]));
  for (const level of [0, 1, 2, 3, 4, 5, undefined]) {
    const s0 = W.start();
    const args = [W.val(s0, fns), ...(level === undefined ? [] : [C(level)])];
    for (const o of W.make(args, s0)) SEV.forEach((sev, i) => {
      for (let n = 0; n <= (ck.thorough ? 4 : 3); n++) {
        const a = Array.from({ length: n }, (_, k) => W.sym('arg' + k, 127));
        const at = W.loc(sev);
        const what = `level ${level}, ${sev} with ${n} arguments`;
        for (const r of W.call(o.s, o.v, sev, a)) {
          const ev = only(r.s, o.s.events().length);
          const on = (level === undefined ? 1 : level) > i;
          ck.ob('logging never throws', r.kind === 'ret', { at, what, key: sev });
          ck.ob('a call reaches the sink exactly when its severity is enabled', ev.length === (on ? 1 : 0), { at: ev[0] ? ev[0].loc : at, what: `${what}: ${ev.length} sink calls`, key: sev + ':' + level });
          for (const e of ev) {
            ck.ob('the sink function of the same severity is called', e.name === 'callback:' + sev, { at: e.loc, what: `${what}: calls ${e.name}`, key: sev + ':fn' });
            const got = e.args.filter((x, k) => k < n || x !== C(undefined));
            ck.ob('arguments are passed unchanged', got.length === n && got.every((x, k) => x === a[k]), { at: e.loc, what: `${what}: passes ${e.args.map((x) => show(x, r.s)).join(', ')}`, key: sev + ':args' });
          }
        }
      }
    });
  }
}
function consoleSink(ck) {
  const W = new World(ck, 'ConsoleLogger', 'experiment-browser', { events: [/^[Cc]onsole\./] });
  for (const o of W.make([], W.start())) for (const sev of SEV) {
    const a = [W.sym('a', 127), W.sym('b', 127)];
    for (const r of W.call(o.s, o.v, sev, a)) {
      const ev = only(r.s, o.s.events().length);
      const ok = sev === 'verbose' ? ['Console.debug', 'Console.log'] : ['Console.' + sev];
      ck.ob('the console sink writes each severity to the console once', ev.length === 1 && ok.includes(ev[0].name.replace('console', 'Console')), { at: W.loc(sev), what: `${sev} calls ${ev.map((e) => e.name).join() || 'nothing'}`, key: sev });
      for (const e of ev) ck.ob('arguments are passed unchanged', e.args.length === 2 && e.args.every((x, k) => x === a[k]), { at: e.loc, what: `console ${sev} passes ${e.args.map((x) => show(x, r.s)).join(', ')}`, key: 'console:' + sev });
    }
  }
}
function client(ck) {
  for (const provider of [true, false]) for (const debug of [undefined, false, true]) for (const logLevel of [undefined, 0, 1, 2, 3, 4, 5]) {
    const W = new ClientWorld(ck, { events: [/^[Cc]onsole\./], console: true });
    const at = W.loc('fetch');
    const cfg = { automaticExposureTracking: false, retryFetchOnFailure: false };
    if (provider) cfg.loggerProvider = Object.fromEntries(SEV.map((k) => [k, W.sym('log' + k, D.X)]));
    if (debug !== undefined) cfg.debug = debug;
    if (logLevel !== undefined) cfg.logLevel = logLevel;
    const level = debug === true ? 4 : logLevel === undefined ? 1 : logLevel;
    const sevOf = (e) => { const m = /^(?:callback:log|[Cc]onsole\.)(\w+)$/.exec(e.name); return m && m[1]; };
    for (const call of ['fetch', 'start', 'variant', 'clear']) for (const bad of call === 'fetch' || call === 'start' ? [false, 'timeout', 'error'] : [false]) {
      W.variants = W.flags = (s) => {
        if (!bad) return [{}, 'ret'];
        const [x, v] = bad === 'timeout' ? W.err(s, 'TimeoutError', ['t']) : W.err(s, 'FetchError', [500, 'm']);
        Object.assign(s, x.clone());
        return [v, 'throw'];
      };
      for (const o of W.client(cfg)) for (const r of W.call(o.s, o.v, call, call === 'variant' ? [C('k')] : call === 'clear' ? [] : [W.val(o.s, { user_id: 'u' })])) {
        const ev = r.s.events().filter((e) => sevOf(e));
        const what = `debug=${debug}, logLevel=${logLevel}, ${call}${bad ? ' failing with ' + bad : ''}`;
        for (const e of ev) {
          const i = SEV.indexOf(sevOf(e));
          const on = !provider && sevOf(e) === 'debug' ? level >= 4 : level > i;
          ck.ob('the client emits no message below its level', on, { at: e.loc, what: `${what}: emits ${sevOf(e)}`, key: sevOf(e) });
          ck.ob('messages go to the configured sink', provider === /^callback/.test(e.name), { at: e.loc, what: `${what}: goes to ${e.name}`, key: 'sink' });
        }
        if (bad === 'error' && call === 'fetch') ck.ob('a failed fetch is logged as an error when errors are enabled', ev.some((e) => sevOf(e) === 'error') === level >= 1, { at, what, key: 'err' });
        if (call === 'fetch') ck.ob('debug messages appear when debugging is enabled', ev.some((e) => sevOf(e) === 'debug') === level >= 4, { at, what, key: 'debug' });
      }
    }
  }
}
