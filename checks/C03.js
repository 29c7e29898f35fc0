'use strict';
const L = require('../engine/lib');
const EC = require('./eval-common');
const { D, C, derives, isCall, showFacts, show, isTruthy, term } = L;
exports.technique = 'abstract interpretation of condition evaluation per operator; path facts matched against an operator table';
exports.explanation =
  'The exported condition evaluation is analysed once per operator and operand kind (absent, single value, list) with a constant operator and symbolic operands. Every path that answers true must carry a fact proving the documented relation for some filter value, every path that answers false a fact refuting it for all of them; negative operators must be the exact complement.';
const lower = (v) => isCall(v, /toLowerCase$|toLocaleLowerCase$|toUpperCase$/);
const hasOp = (v, op, root, seen = new Set()) => {
  if (!v || !v.k || seen.has(v.id)) return false;
  seen.add(v.id);
  if (v.k !== 't') return false;
  if (v.op === op && v.args.some((a) => a === root)) return true;
  return v.args.some((a) => hasOp(a, op, root, seen));
};
exports.run = function (ck) {
  const go = (op, kind, opts) => {
    const r = EC.condition(ck, op, kind, opts);
    return { ...r, at: ck.loc(r.fn) };
  };
  // which side a term is on
  const mk = (r, s) => {
    const isP = (v) => derives(s, v, (x) => x === r.P || (x.k === 't' && x.op === 'in' && x.args[0] === 'plist'));
    const isV = (v) => derives(s, v, (x) => x === r.VAL);
    const side = (v) => (isV(v) ? (isP(v) ? '?' : 'v') : isP(v) ? 'p' : '');
    const wit = (v) => hasOp(v, 'wit', r.VAL), all = (v) => hasOp(v, 'elem', r.VAL);
    return { side, wit, all };
  };
  const facts = (s) => [...s.facts.values()];
  // no filter values at all: nothing to refute
  const noValues = (r, s) => facts(s).some((f) => f.term.op === 'len' && f.term.args[0] === r.VAL && f.eq && f.eq.v === 0);
  const yes = (f) => !(f.mask & D.FALSY), no = (f) => !(f.mask & D.TRUTHY);
  // base relations: do the facts prove it for some value / refute it for all
  const IS = {
    some: (r, s) => {
      const m = mk(r, s);
      const low = { p: [], v: [] };
      for (const f of facts(s)) {
        if (f.term.op === 'eq' && yes(f)) {
          const [a, b] = f.term.args.map(m.side);
          if ((a === 'p' && b === 'v') || (a === 'v' && b === 'p')) if (f.term.args.some(m.wit)) return true;
        }
        if (lower(f.term) && f.eq) {
          const q = m.side(f.term);
          if (q === 'p') low.p.push(f.eq);
          if (q === 'v' && m.wit(f.term)) low.v.push(f.eq);
        }
      }
      return low.p.some((x) => low.v.includes(x));
    },
    none: (r, s) => {
      const m = mk(r, s);
      for (const f of facts(s)) {
        const q = m.side(f.term);
        if (f.term.op === 'eq' && no(f)) {
          const [a, b] = f.term.args.map(m.side);
          if (((a === 'p' && b === 'v') || (a === 'v' && b === 'p')) && f.term.args.some(m.all)) return true;
        }
        if (lower(f.term) && q === 'v' && m.all(f.term) && (f.ne || f.eq)) return true;
        if (lower(f.term) && q === 'p' && f.eq) return true; // boolean-like operand: compared through its lower case form
      }
      return false;
    },
  };
  const callRel = (name, check) => ({
    some: (r, s) => { const m = mk(r, s); return facts(s).some((f) => isCall(f.term, name) && yes(f) && check(m, f.term) && m.wit(f.term)); },
    none: (r, s) => { const m = mk(r, s); return facts(s).some((f) => isCall(f.term, name) && no(f) && check(m, f.term) && m.all(f.term)); },
  });
  const CONTAINS = callRel(/^String\.(includes|indexOf)$/, (m, t) => m.side(t.args[1]) === 'p' && m.side(t.args[2]) === 'v' && lower(t.args[1]) && lower(t.args[2]));
  const REGEX = callRel(/^RegExp\.(exec|test)$|^String\.(match|search)$/, (m, t) => t.args.some((a) => a && a.k && m.side(a) === 'p') && t.args.some((a) => a && a.k && m.side(a) === 'v'));
  const check = (op, kind, res, r, rel, neg) => {
    let n = 0;
    for (const o of r.outs) {
      if (o.kind !== 'ret') { ck.ob('operators never throw on ordinary operands', false, { at: r.at, what: `${op}/${kind}: evaluation may throw ${show(o.v, o.s)}`, key: op + kind }); continue; }
      const v = o.v.k === 'c' ? o.v.v : isTruthy(r.I, o.s, o.v) ? true : undefined;
      if (typeof v !== 'boolean') { ck.ob('operators answer true or false', false, { at: r.at, what: `${op}/${kind}: answers ${show(o.v, o.s)}`, key: op + kind }); continue; }
      n++;
      const listed = facts(o.s).some((f) => isCall(f.term, 'Array.isArray') && yes(f));
      const want = neg ? !v : v;
      const some = rel.some(r, o.s);
      if (kind === 'list' || listed) {
        if (neg) continue; // a list matches a negative operator when some element does
        ck.ob('a match is justified by the operator relation', !v || some, { at: r.at, what: `${op} on a list answers true without a matching element`, key: op + ':list', detail: showFacts(o.s) });
        ck.ob('a non-match is justified by the operator relation', v || !some, { at: r.at, what: `${op} on a list answers false although an element matches`, key: op + ':list', detail: showFacts(o.s) });
        continue;
      }
      if (want) ck.ob('a match is justified by the operator relation', some, { at: r.at, what: `"${op}" (${kind}) answers ${v} on a path that does not establish the relation for some filter value`, key: op + ':' + kind + ':some', detail: showFacts(o.s) });
      else ck.ob('a non-match is justified by the operator relation', (rel.none(r, o.s) || noValues(r, o.s)) && !some, { at: r.at, what: `"${op}" (${kind}) answers ${v} on a path that does not refute the relation for every filter value`, key: op + ':' + kind + ':none', detail: showFacts(o.s) });
    }
    const vals = new Set(r.outs.map((o) => o.v.v));
    ck.ob('both answers are possible', vals.has(true) && vals.has(false), { at: r.at, what: `"${op}" (${kind}) can only answer ${[...vals]}`, key: op + kind });
  };
  for (const kind of ['string', 'list']) {
    check('is', kind, null, go('is', kind), IS, false);
    check('is not', kind, null, go('is not', kind), IS, true);
    check('contains', kind, null, go('contains', kind), CONTAINS, false);
    check('does not contain', kind, null, go('does not contain', kind), CONTAINS, true);
    check('regex match', kind, null, go('regex match', kind), REGEX, false);
    check('regex does not match', kind, null, go('regex does not match', kind), REGEX, true);
  }
  // ordering operators
  const zero = (v) => v && v.k === 'c' && v.v === 0;
  const num = (v) => isCall(v, /^(Number|parseFloat|parseInt)$/);
  const ver = (v) => isCall(v, 'SemanticVersion.parse');
  // direction of an ordering fact: [strict '<' , operands] normalised to p ? v
  const dir = (m, f) => {
    const t = f.term;
    if (t.op !== 'lt') return null;
    let [a, b] = t.args, flip = false, typed = '';
    const cmp = (x) => isCall(x, /compareTo$/);
    let l, rr;
    if (cmp(a) && zero(b)) { l = a.args[1]; rr = a.args[2]; typed = 'ver'; }
    else if (cmp(b) && zero(a)) { l = b.args[1]; rr = b.args[2]; flip = true; typed = 'ver'; }
    else { l = a; rr = b; if (num(a) && num(b)) typed = 'num'; else if (num(a) || num(b)) typed = 'mixed'; }
    let rel = flip ? '>' : '<'; // l rel rr
    const sl = m.side(l), sr = m.side(rr);
    if (sl === 'v' && sr === 'p') rel = rel === '<' ? '>' : '<';
    else if (!(sl === 'p' && sr === 'v')) return null;
    if (no(f)) rel = rel === '<' ? '>=' : '<=';
    else if (!yes(f)) return null;
    return { rel, typed, wit: m.wit(t), all: m.all(t) };
  };
  const NEG = { '<': '>=', '>=': '<', '>': '<=', '<=': '>' };
  const ORD = { less: '<', 'less or equal': '<=', greater: '>', 'greater or equal': '>=' };
  for (const [name, rel] of Object.entries(ORD))
    for (const pre of ['', 'version ']) {
      const op = pre + name;
      const kinds = new Set();
      const R = {
        some: (r, s) => { const m = mk(r, s); return facts(s).some((f) => { const d = dir(m, f); if (d && d.wit && d.rel === rel) { kinds.add(d.typed); return true; } return false; }); },
        none: (r, s) => { const m = mk(r, s); return facts(s).some((f) => { const d = dir(m, f); return d && d.all && d.rel === NEG[rel]; }); },
      };
      const loose = { ...R, none: (r, s) => { const m = mk(r, s); return R.none(r, s) || (pre && facts(s).some((f) => f.term.op === 'len' && m.side(f.term) === 'v')); } };
      for (const kind of ['string', 'list']) {
        check(op, kind, null, go(op, kind), loose, false);
        if (pre) check(op, kind, null, go(op, kind, { parsable: true }), R, false); // every operand is a version
      }
      ck.ob('ordering compares in the documented number space', kinds.has(pre ? 'ver' : 'num') && !kinds.has(pre ? 'num' : 'ver') && !kinds.has('mixed'), { what: `"${op}" compares as ${[...kinds].join(', ') || 'nothing'}`, key: op });
    }
  // set operators on lists
  const setRun = (op, neg, some, none) => {
    const r = go(op, 'list');
    for (const o of r.outs) {
      const v = o.kind === 'ret' && o.v.k === 'c' ? o.v.v : undefined;
      if (typeof v !== 'boolean') { ck.ob('operators answer true or false', false, { at: r.at, what: `${op}: ${show(o.v, o.s)}`, key: op }); continue; }
      const want = neg ? !v : v;
      const m = mk(r, o.s);
      const [sm, nn] = [some(r, o.s, m), none(r, o.s, m)];
      ck.ob(want ? 'a set match is justified' : 'a set non-match is justified', want ? sm && !nn : nn && !sm, { at: r.at, what: `"${op}" answers ${v} on a path that does not ${want ? 'establish' : 'refute'} the set relation`, key: op + ':' + v, detail: showFacts(o.s) });
    }
    const vals = new Set(r.outs.map((o) => o.v.v));
    ck.ob('both answers are possible', vals.has(true) && vals.has(false), { at: r.at, what: `"${op}" can only answer ${[...vals]}`, key: op });
    // a value that is no list never matches a positive set operator
    const r1 = go(op, 'string');
    for (const o of r1.outs) if (!facts(o.s).some((f) => isCall(f.term, 'Array.isArray') && yes(f))) ck.ob('set operators need a list', o.kind === 'ret' && o.v.v === false, { at: r1.at, what: `"${op}" on a non-list answers ${show(o.v, o.s)}`, key: op });
  };
  const any = {
    some: (r, s) => IS.some(r, s),
    none: (r, s) => !IS.some(r, s),
  };
  const sizeFact = (s, m, pred) => facts(s).some((f) => f.term.op === 'eq' && f.term.args.every((x) => x.op === 'len') && pred(f) && new Set(f.term.args.map(m.side)).size === 2);
  const hasFact = (s, m, pred) => facts(s).some((f) => f.term.op === 'has' && pred(f) && new Set([m.side(f.term.args[2] || f.term.args[0]), m.side(f.term.args[1])]).size === 2);
  const isNone = (s, m) => sizeFact(s, m, no) || hasFact(s, m, no);
  const eqSome = (r, s, m) => sizeFact(s, m, yes) && hasFact(s, m, yes) && !isNone(s, m);
  for (const [op, neg] of [['set is', false], ['set is not', true]]) setRun(op, neg, eqSome, (r, s, m) => isNone(s, m));
  for (const [op, neg] of [['set contains any', false], ['set does not contain any', true]]) setRun(op, neg, any.some, any.none);
  // contains all: refuted by a shorter list or by a filter value without partner
  const shorter = (s, m) => facts(s).some((f) => { if (f.term.op !== 'lt' || !f.term.args.every((x) => x.op === 'len')) return false; const [a, b] = f.term.args.map(m.side); return a === 'p' && b === 'v' && yes(f); });
  const missing = (r, s) => facts(s).some((f) => { const t = f.term; return hasOp(t, 'wit', r.VAL); }) && !IS.some(r, s);
  for (const [op, neg] of [['set contains', false], ['set does not contain', true]]) {
    const r = go(op, 'list');
    for (const o of r.outs) {
      const v = o.v.v, want = neg ? !v : v;
      const m = mk(r, o.s);
      const bad = shorter(o.s, m) || missing(r, o.s);
      ck.ob(want ? 'a set match is justified' : 'a set non-match is justified', want ? !bad : bad, { at: r.at, what: `"${op}" answers ${v} on a path that does not ${want ? 'establish' : 'refute'} containment of all filter values`, key: op + ':' + v, detail: showFacts(o.s) });
    }
    const vals = new Set(r.outs.map((o) => o.v.v));
    ck.ob('both answers are possible', vals.has(true) && vals.has(false), { at: r.at, what: `"${op}" can only answer ${[...vals]}`, key: op });
  }
  // boolean-like operands compare case-insensitively in every equality based operator
  for (const [op, kind] of [['is', 'string'], ['is', 'list'], ['set contains', 'list'], ['set contains any', 'list']]) {
    const fv = op === 'set contains' ? term('in', ['filter0', '0'], { mask: D.S, type: ck.p.checker.getStringType() }) : null;
    const r = go(op, kind, fv ? { values: [fv] } : {});
    const ok = r.outs.some((o) => {
      const m = mk(fv ? { ...r, VAL: fv } : r, o.s);
      const low = { p: [], v: [] };
      for (const f of facts(o.s)) {
        if (f.term.op === 'eq' && yes(f) && f.term.args.every((x) => derives(o.s, x, lower)) && new Set(f.term.args.map(m.side)).size === 2) return true;
        if (lower(f.term) && f.eq && (m.side(f.term) === 'p' || m.side(f.term) === 'v')) low[m.side(f.term)].push(f.eq);
      }
      return low.p.some((x) => low.v.includes(x));
    });
    ck.ob('boolean values compare case-insensitively', ok, { at: r.at, what: `"${op}" (${kind}) has no path matching boolean-like values by their lower case form`, key: op + kind });
  }
  // contains all, per filter value: one and two symbolic filter values
  for (const [op, neg] of [['set contains', false], ['set does not contain', true]])
    for (const n of [1, 2]) {
      const vs = [0, 1].slice(0, n).map((i) => term('in', ['filter' + i, String(i)], { mask: D.S, type: ck.p.checker.getStringType() }));
      const r = go(op, 'list', { values: vs });
      const isP = (s, v) => derives(s, v, (x) => x.k === 't' && x.op === 'in' && x.args[0] === 'plist');
      const member = (s, v) => {
        const low = { p: [], v: [] };
        for (const f of facts(s)) {
          if (f.term.op === 'eq' && yes(f) && f.term.args.includes(v) && f.term.args.some((x) => x !== v && isP(s, x))) return true;
          if (f.term.op === 'has' && yes(f) && f.term.args.includes(v)) return true;
          if (f.term.op === 'eq' && yes(f)) {
            const [a, b] = f.term.args;
            if (lower(a) && lower(b) && [a, b].some((x) => derives(s, x, (y) => y === v)) && [a, b].some((x) => isP(s, x))) return true;
          }
          if (lower(f.term) && f.eq) (derives(s, f.term, (x) => x === v) ? low.v : isP(s, f.term) ? low.p : []).push(f.eq);
        }
        return low.p.some((x) => low.v.includes(x));
      };
      for (const o of r.outs) {
        const v = o.kind === 'ret' && o.v.k === 'c' ? o.v.v : undefined;
        const got = vs.map((x) => member(o.s, x));
        const short = facts(o.s).some((f) => derives(o.s, f.term, (x) => x.op === 'len') && !f.term.args.some((x) => hasOp(x, 'wit', r.VAL)));
        const want = neg ? v === false : v === true;
        ck.ob(want ? 'a set match is justified' : 'a set non-match is justified', typeof v === 'boolean' && (want ? got.every(Boolean) : short || !got.every(Boolean)), { at: r.at, what: `"${op}" with ${n} filter value(s) answers ${v} although ${want ? 'not every filter value is matched' : 'every filter value is matched'}`, key: op + n + v, detail: showFacts(o.s) });
      }
    }
  // absent property: positive operators match only on "(none)", negative ones only without it
  const none = C('(none)');
  const NULLOPS = { pos: ['is', 'contains', 'less', 'less or equal', 'greater', 'greater or equal', 'version less', 'version less or equal', 'version greater', 'version greater or equal', 'set is', 'set contains', 'set contains any'], neg: ['is not', 'does not contain', 'set does not contain', 'set does not contain any'], never: ['set is not', 'regex match', 'regex does not match'] };
  for (const [cls, ops] of Object.entries(NULLOPS))
    for (const op of ops) {
      const r = go(op, 'null');
      for (const o of r.outs) {
        const v = o.kind === 'ret' && o.v.k === 'c' ? o.v.v : undefined;
        const listed = facts(o.s).some((f) => f.eq === none && hasOp(f.term, 'wit', r.VAL));
        const absent = facts(o.s).some((f) => f.ne && f.ne.includes(none) && hasOp(f.term, 'elem', r.VAL));
        const okk = cls === 'never' ? v === false : (cls === 'pos' ? v : !v) === true ? listed : typeof v === 'boolean' && absent && !listed;
        ck.ob('an absent property matches only through (none)', okk, { at: r.at, what: `"${op}" on an absent property answers ${show(o.v, o.s)} regardless of "(none)"`, key: op + ':' + v, detail: showFacts(o.s) });
      }
    }
  // unknown operators never match
  for (const kind of ['null', 'string', 'list']) {
    const r = go('no such operator', kind);
    for (const o of r.outs) ck.ob('an unknown operator never matches', o.kind === 'ret' && o.v.v === false, { at: r.at, what: `unknown operator on ${kind} answers ${show(o.v, o.s)}`, key: kind });
  }
  ck.atLeast('a match is justified by the operator relation', 30);
};
