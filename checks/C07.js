'use strict';
const L = require('../engine/lib');
const { D, C, U, N, derives, isGet, isCall, isIn, prop, show, showFacts } = L;
exports.technique = 'path-complete abstract interpretation of request construction and response handling';
exports.explanation =
  'Every path of the two API entry points is enumerated with a case split on each option. On each path the request object handed to the transport is read back: headers, query and timeout must carry exactly the options proven present. A return needs the path fact status = 200; a throw after the request must carry the status.';
// option -> carrier
const CASES = [
  { fn: 'SdkEvaluationApi.getVariants', opts: 1, status: 'FetchError', user: (s, v) => derives(s, v, (x) => isIn(x, 0)),
    carried: [
      ['flagKeys', 'header', 'X-Amp-Exp-Flag-Keys', 'b64'], ['trackingOption', 'header', 'X-Amp-Exp-Track'],
      ['exposureTrackingOption', 'header', 'X-Amp-Exp-Exposure-Track'], ['evaluationMode', 'query', 'eval_mode'], ['deliveryMethod', 'query', 'delivery_method'],
    ] },
  { fn: 'SdkFlagApi.getFlags', opts: 0, status: null,
    carried: [['user', 'header', 'X-Amp-Exp-User', 'b64'], ['libraryName', 'header', 'X-Amp-Exp-Library', null, 'libraryVersion'], ['libraryVersion', 'header', 'X-Amp-Exp-Library', null, 'libraryName'], ['deliveryMethod', 'query', 'delivery_method']] },
];
const consts = (s, v, out = [], seen = new Set()) => {
  derives(s, v, (x) => { if (x.k === 'c' && typeof x.v === 'string') out.push(x.v); if (x.k === 't') for (const a of x.args) if (typeof a === 'string') out.push(a); return false; });
  return out;
};
// the field the constructor keeps its i-th parameter in
const fieldOf = (fn, i, dflt) => {
  const ts = L.ts || require('../engine/program').ts;
  const ctor = fn.parent && (fn.parent.members || []).find((m) => ts.isConstructorDeclaration(m) && m.body);
  const p = ctor && ctor.parameters[i];
  if (!p || !ts.isIdentifier(p.name)) return dflt;
  if ((p.modifiers || []).length) return p.name.text;
  let f;
  const walk = (n) => {
    if (!f && ts.isBinaryExpression(n) && n.operatorToken.kind === ts.SyntaxKind.EqualsToken && ts.isPropertyAccessExpression(n.left) && n.left.expression.kind === ts.SyntaxKind.ThisKeyword && ts.isIdentifier(n.right) && n.right.text === p.name.text) f = n.left.name.text;
    else ts.forEachChild(n, walk);
  };
  walk(ctor.body);
  return f || dflt;
};
exports.run = function (ck) {
  for (const c of CASES) {
    const fn = ck.fn(c.fn, 'experiment-core');
    const I = ck.interp({ events: [/^HttpClient\.request/, /^URLSearchParams\./], watch: () => true, keepArgs: true });
    const outs = I.run(fn, {}).map(L.settle);
    const at = ck.loc(fn);
    const keyField = fieldOf(fn, 0, 'deploymentKey'), urlField = fieldOf(fn, 1, 'serverUrl');
    const optIn = I.input(fn, c.opts);
    let rets = 0, throws = 0;
    for (const o of outs) {
      const ev = o.s.events();
      const reqs = ev.filter((e) => e.name === 'HttpClient.request');
      const bad = (w) => ({ at, what: `${c.fn}: ${w}`, key: c.fn + ':' + w, detail: showFacts(o.s) });
      if (o.kind === 'throw' && !reqs.length) continue; // refused before any request
      if (!ck.ob('exactly one request per call', reqs.length === 1 && !reqs[0].loop, bad(`${reqs.length} requests on one path`))) continue;
      const s = o.s, rq = reqs[0].args[0];
      const P = (v, k) => v && prop(I, s, v, k);
      const headers = P(rq, 'headers');
      const H = (k) => { const v = headers && P(headers, k); return v === L.UNDEF ? undefined : v; };
      const auth = H('Authorization');
      ck.ob('the deployment key authenticates the request', auth && consts(s, auth).some((x) => /^Api-Key $/.test(x)) && derives(s, auth, (x) => isGet(x, keyField, (b) => b.op === 'this')), bad(`Authorization header is ${auth ? show(auth, s) : 'missing'}`));
      const url = P(rq, 'requestUrl');
      ck.ob('the configured server is addressed', url && derives(s, url, (x) => isGet(x, urlField, (b) => b.op === 'this')), bad(`URL ${url && show(url, s)} does not derive from the configured server`));
      if (c.user) {
        const u = H('X-Amp-Exp-User');
        ck.ob('the encoded user is transmitted', u && isCall(u, /^Base64\.encodeURL$/i) && c.user(s, u), bad(`user header is ${u ? show(u, s) : 'missing'}`));
      }
      const to = P(rq, 'timeoutMillis');
      const optsNull = !(I.maskOf(s, optIn) & ~(U | N));
      ck.ob('the timeout is passed through', to === L.UNDEF ? optsNull : to && derives(s, to, (x) => isGet(x, 'timeoutMillis', (b) => b === optIn)), bad(`timeout is ${to && show(to, s)}`));
      // query additions before the request
      const qs = ev.slice(0, ev.indexOf(reqs[0])).filter((e) => /^URLSearchParams\.(append|set)$/.test(e.name) && derives(s, url, (x) => x.op === 'call' && derives(s, e.recv, (y) => y === x)));
      for (const [k, kind, name, enc, also] of c.carried) {
        const from = (v) => !!v && derives(s, v, (x) => isGet(x, k, (b) => b === optIn));
        const val = optsNull ? L.UNDEF : prop(I, s, optIn, k);
        const other = also && !optsNull ? prop(I, s, optIn, also) : null;
        const m = I.maskOf(s, val), FALSY = D.FALSY;
        const given = !(m & FALSY) && (!other || !(I.maskOf(s, other) & FALSY));
        const absent = !(m & ~FALSY) || (other && !(I.maskOf(s, other) & ~FALSY));
        let carried, right = true;
        if (kind === 'header') {
          const h = H(name);
          carried = h && (I.maskOf(s, h) & ~(U | N)) ? h : undefined;
          right = from(carried) && (!enc || isCall(carried, /^Base64\.encodeURL$/i)) && (enc || also || carried === val);
        } else {
          const q = qs.filter((e) => e.args[0] === C(name));
          carried = q.length ? q[0].args[1] : consts(s, url).some((x) => x.includes(name + '=')) ? url : undefined;
          right = q.length < 2 && from(carried) && (q.length === 0 || carried === val);
        }
        const rule = 'an option is transmitted exactly when given';
        if (given) ck.ob(rule, carried && right, bad(`option ${k} is given but ${carried ? 'transmitted as ' + show(carried, s) : `no ${name} ${kind} is sent`}`));
        else if (absent) ck.ob(rule, !carried, bad(`${name} is sent although ${k} is not given`));
        else ck.ob(rule, false, bad(`${name} does not depend on whether ${k} is given`));
      }
      // response handling
      const st = [...s.facts.values()].filter((f) => isGet(f.term, 'status', (b) => derives(s, b, (x) => isCall(x, 'HttpClient.request'))));
      const is200 = st.some((f) => f.eq === C(200));
      if (o.kind === 'ret') {
        rets++;
        ck.ob('only a 200 response is returned as data', is200, bad('returns data although the response status may not be 200'));
        const body = (x) => isGet(x, 'body', (b) => derives(s, b, (y) => isCall(y, 'HttpClient.request')));
        const empty = [...s.facts.values()].some((f) => f.term.op === 'len' && f.eq === C(0) && derives(s, f.term, body));
        ck.ob('returned data is the response body', derives(s, o.v, body) || empty, bad(`returns ${show(o.v, s)}`));
      } else {
        if (o.v.k === 't' && o.v.op === 'err') continue; // the transport itself failed
        throws++;
        const stTerm = (x) => isGet(x, 'status', (b) => derives(s, b, (y) => isCall(y, 'HttpClient.request')));
        ck.ob('an error carries the response status', derives(s, o.v, stTerm), bad(`throws ${show(o.v, s)} without the status`));
        if (c.status) {
          const sc = prop(I, s, o.v, 'statusCode');
          ck.ob('an error exposes the status code', sc && stTerm(sc), bad(`statusCode of the error is ${sc && show(sc, s)}`));
        }
        ck.ob('a 200 response is not rejected', !is200, bad('throws on status 200'));
      }
    }
    ck.ob('both outcomes are reachable', rets > 0 && throws > 0, { at, what: `${c.fn}: ${rets} returning and ${throws} throwing paths`, key: c.fn });
  }
  ck.atLeast('an option is transmitted exactly when given', 100);
};
