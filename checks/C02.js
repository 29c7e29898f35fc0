'use strict';
const L = require('../engine/lib');
const EC = require('./eval-common');
const { D, C, N, isCall, derives, show, showFacts } = L;
const { X, U, S, E } = D;
exports.technique = 'abstract interpretation of whole-flag evaluation; path facts matched against segment order and bucket ranges';
exports.explanation =
  'The exported evaluation is analysed on a flag with symbolic conditions, variants and metadata, and on a flag with symbolic salt, bucketing value and ranges. For every path the facts must justify the chosen segment or distribution and refute every earlier one; the hash input and the two derived bucket values are checked as terms.';
const dyn = (v, map) => v && v.k === 't' && (v.op === 'dynget' || (v.op === 'get' && v.args[1] && v.args[1].k)) && derives({ heap: new Map() }, v, (x) => x === map);
exports.run = function (ck) {
  // ---- segment order and conditions -----------------------------------------
  {
    const seg = (h, i) => h.obj({ conditions: h.arr([h.arr([h.cond(h.str('m1' + i)), h.cond(h.str('m2' + i))]), h.arr([h.cond(h.str('m3' + i))])]), variant: h.optStr('V' + i) });
    let VARS, V, M;
    const r = EC.flagScenario(ck, (h) => {
      VARS = h.sym('VARS', X);
      V = [1, 2].map((i) => h.optStr('V' + i));
      M = [1, 2].map((i) => ['m1', 'm2', 'm3'].map((m) => h.str(m + i)));
      return { context: h.obj({}), flags: h.arr([h.obj({ key: C('f1'), variants: VARS, segments: h.arr([seg(h, 1), seg(h, 2), h.obj({ variant: h.optStr('V3') })]) })]) };
    });
    V.push(r.optStr('V3'));
    const at = ck.loc(r.fn);
    const seen = new Set();
    for (const o of r.outs) {
      if (!ck.ob('evaluation of a flag never throws', o.kind === 'ret', { at, what: `evaluation throws ${show(o.v, o.s)}`, key: 'throw' })) continue;
      const val = (t) => EC.held(o.s, t);
      const matched = (i) => { const [a, b, c] = M[i].map(val); return (a === true && b === true) || c === true ? true : (a === false || b === false) && c === false ? false : undefined; };
      const key = (i) => L.mayBe(r.I, o.s, V[i], ~(U | N)) && !L.mayBe(r.I, o.s, V[i], U | N);
      const noVariant = (i) => !L.mayBe(r.I, o.s, V[i], ~(U | N)) || [...o.s.facts.values()].some((f) => dyn(f.term, VARS) && f.term.args.includes(V[i]) && !(f.mask & D.TRUTHY));
      const res = EC.resultOf(r.I, o.s, o.v, 'f1');
      const idx = res === undefined ? -2 : res === L.UNDEF ? -1 : V.findIndex((v) => derives(o.s, res, (x) => dyn(x, VARS) && x.args.includes(v)));
      seen.add(idx);
      const why = (w) => ({ at, what: `${idx < 0 ? 'no variant' : `the variant of segment ${idx + 1}`} although ${w}`, key: idx + w, detail: showFacts(o.s) });
      if (!ck.ob('the result is a variant of some segment or none', idx >= -1, { at, what: `result ${show(o.v, o.s)}`, key: 'idx' })) continue;
      if (idx >= 0) {
        if (idx < 2) ck.ob('the deciding segment matches', matched(idx) === true, why(`the conditions of segment ${idx + 1} are not proven`));
        ck.ob('the deciding segment names an existing variant', key(idx), why('the segment has no variant'));
      }
      for (let j = 0; j < (idx < 0 ? 3 : idx); j++) ck.ob('every earlier segment is proven not to decide', (j < 2 && matched(j) === false) || noVariant(j), why(`segment ${j + 1} may decide`));
    }
    for (const i of [-1, 0, 1, 2]) ck.ob('every segment can decide', seen.has(i), { at, what: `no path ${i < 0 ? 'leaves the flag without variant' : `lets segment ${i + 1} decide`}`, key: 'reach' + i });
  }
  // empty condition lists: no conjunction never matches, an empty conjunction always does
  {
    const r = EC.flagScenario(ck, (h) => ({ context: h.obj({}), flags: h.arr([h.obj({ key: C('f1'), variants: h.obj({ a: h.sym('A', X), b: h.sym('B', X) }), segments: h.arr([h.obj({ conditions: h.arr([]), variant: C('a') }), h.obj({ conditions: h.arr([h.arr([])]), variant: C('b') })]) })]) }));
    for (const o of r.outs) {
      const res = EC.resultOf(r.I, o.s, o.v, 'f1');
      ck.ob('empty condition lists keep their meaning', o.kind === 'ret' && res && derives(o.s, res, (x) => L.isIn(x, 'B')), { at: ck.loc(r.fn), what: `conditions [] then [[]] evaluate to ${show(o.v, o.s)}`, key: 'empty' });
    }
  }
  // ---- bucketing -------------------------------------------------------------
  {
    const r = EC.flagScenario(ck, (h) => ({ context: h.obj({ u: h.sym('uid', S | E | U | N, ck.p.checker.getStringType()) }), flags: h.arr([EC.bucketFlag(h)]) }));
    const at = ck.loc(r.fn);
    const inp = (n) => (v) => L.isIn(v, n);
    const isHash = (v) => isCall(v, 'hash32x86');
    const isAlloc = (v) => v && v.k === 't' && v.op === 'bin:%' && isHash(v.args[0]) && v.args[1] === C(100);
    const divided = (v) => v && v.k === 't' && v.op === 'bin:/' && isHash(v.args[0]) && v.args[1] === C(100);
    const isDist = (v) => v && v.k === 't' && ((isCall(v, /^Math\.(floor|trunc)$/) && v.args.some(divided)) || (v.op === 'bin:|' && divided(v.args[0]) && v.args[1] === C(0)) || (v.op === 'bin:>>>' && divided(v.args[0])));
    let hashes = 0;
    const hashOk = (t) => {
      const a = t.args[2] && t.args[2].k ? t.args[2] : t.args[1];
      const parts = a && a.op === 'tmpl' ? a.args : [];
      return parts.length === 3 && inp('SALT')(parts[0]) && parts[1] === C('/') && derives({ heap: new Map() }, parts[2], inp('uid'));
    };
    // truth of  value in [start, end)
    const rel = (s, isVal, lo, hi) => {
      let a, b;
      for (const f of s.facts.values()) {
        if (f.term.op !== 'lt') continue;
        const yes = !(f.mask & D.FALSY), no = !(f.mask & D.TRUTHY), [x, y] = f.term.args;
        if (isVal(x) && inp(lo)(y)) a = no ? true : yes ? false : a; // value < start
        if (isVal(x) && inp(hi)(y)) b = yes ? true : no ? false : b; // value < end
      }
      return a === true && b === true ? true : a === false || b === false ? false : undefined;
    };
    const seen = new Set();
    for (const o of r.outs) {
      if (!ck.ob('evaluation of a flag never throws', o.kind === 'ret', { at, what: `bucketing throws ${show(o.v, o.s)}`, key: 'bthrow' })) continue;
      for (const f of o.s.facts.values()) derives(o.s, f.term, (x) => { if (isHash(x)) { hashes++; ck.ob('the hash input is salt, slash, bucketing value', hashOk(x), { at, what: `hashes ${show(x, o.s)}`, key: 'hash' }); } return false; });
      // which distribution variant was looked up
      const res = EC.resultOf(r.I, o.s, o.v, 'f1');
      const facts = [...o.s.facts.values()];
      const names = ['D00', 'D01', 'D10', 'D11', 'DEF'];
      const looked = new Set();
      const look = (v) => derives(o.s, v, (x) => { if (x.k === 't' && (x.op === 'dynget' || x.op === 'get')) for (const n of names) if (x.args.some(inp(n))) looked.add(n); return false; });
      for (const f of facts) look(f.term);
      if (res) look(res);
      const noDef = facts.some((f) => inp('DEF')(f.term) && !(f.mask & ~(U | N)));
      if (!looked.size && noDef) looked.add('DEF');
      if (!ck.ob('bucketing yields one configured variant', looked.size === 1, { at, what: `a path looks up ${[...looked].join(' and ') || 'no variant'}: ${show(o.v, o.s)}`, key: 'one', detail: showFacts(o.s) })) continue;
      const d = [...looked][0];
      seen.add(d);
      const empty = facts.some((f) => derives(o.s, f.term, inp('uid')) && (!(f.mask & D.TRUTHY) || (f.eq && (f.eq.v === '' || f.eq.v == null))) && !isHash(f.term) && f.term.op !== 'lt');
      const inA = (a) => rel(o.s, isAlloc, 'as' + a, 'ae' + a), inD = (a, i) => rel(o.s, isDist, 'ds' + a + i, 'de' + a + i);
      const out = (a, i) => inA(a) === false || inD(a, i) === false;
      const why = (w) => ({ at, what: `${d === 'DEF' ? 'the default variant' : `distribution ${d.slice(1)}`} is chosen ${w}`, key: d + w, detail: showFacts(o.s) });
      if (d === 'DEF') {
        if (empty) ck.ob('an empty bucketing value falls to the default', true, {});
        else for (const a of [0, 1]) for (const i of [0, 1]) ck.ob('the default is taken only when no distribution covers the hash', out(a, i), why(`although allocation ${a} distribution ${i} may cover the hash`));
      } else {
        const a = +d[1], i = +d[2];
        ck.ob('a distribution is taken only for a bucketing value', !empty && (!L.mayBe(r.I, o.s, r.sym('uid', 0), E | U | N) || facts.some((f) => f.term.op === 'len' && inp('uid')(f.term.args[0]) && ((f.ne || []).includes(C(0)) || !(f.mask & D.FALSY)))), why('for an empty bucketing value'));
        ck.ob('the allocation range contains the hash modulo 100', inA(a) === true, why('without its allocation containing hash % 100'));
        ck.ob('the distribution range contains the hash divided by 100', inD(a, i) === true, why('without its range containing hash / 100'));
        for (const x of [0, 1]) for (const y of [0, 1]) if (x < a || (x === a && y < i)) ck.ob('earlier distributions do not cover the hash', out(x, y), why(`although allocation ${x} distribution ${y} may cover the hash`));
      }
    }
    for (const n of ['D00', 'D01', 'D10', 'D11', 'DEF']) ck.ob('every distribution can be chosen', seen.has(n), { at, what: `no path chooses ${n}`, key: 'reach' + n });
    ck.ob('bucketing hashes the salted value', hashes > 0, { at, what: 'no hash of the bucketing value is computed', key: 'nohash' });
  }
  ck.atLeast('every earlier segment is proven not to decide', 20);
};
