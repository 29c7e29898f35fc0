'use strict';
const L = require('../engine/lib');
const { ts, D, C, U, N, derives, isGet, isCall, isIn, show, showFacts } = L;
exports.technique = 'inductive contract check of the recursive ordering function by abstract interpretation (recursive calls replaced by the contract)';
exports.explanation =
  'The recursive traversal below topologicalSort is interpreted once with its recursive calls as boundaries (induction hypothesis: a call returns nothing for an unavailable key, otherwise an ordered list ending in that flag, and removes what it lists). Each path must then re-establish the contract: every dependency is checked against the path including the flag itself, then traversed, its list precedes the flag, the flag comes last exactly once and is removed from the available set, and the path is restored.';
exports.run = function (ck) {
  const top = ck.fn('topologicalSort', 'experiment-core');
  // the recursive function reached from the entry
  const rec = recursive(ck, top);
  if (!rec) throw new L.Anchor('recursive traversal below topologicalSort');
  const name = ck.p.fnName(rec);
  ck.entries.add(name);
  const opts = { watch: () => true, keepArgs: true, write: () => true, writeKeys: () => true, smallSize: Infinity };
  // ---- roles of the parameters
  let I = ck.interp({ ...opts, events: [name] });
  const outs = I.run(rec, {}).map((o) => ({ ...o, ev: o.s.events() }));
  const ins = rec.parameters.map((_, i) => I.input(rec, i));
  const isDeps = (t) => isGet(t, 'dependencies');
  const elemOfDeps = (v) => v && v.k === 't' && v.op === 'elem' && isDeps(v.args[0]);
  const at = ck.loc(rec);
  const recs = outs.flatMap((o) => o.ev.filter((e) => e.name === name));
  const K = recs.length ? recs[0].args.findIndex((a) => elemOfDeps(a)) : -1;
  if (!ck.ob('dependencies are traversed recursively', K >= 0, { at, what: `${name} does not recurse into the dependencies`, key: 'rec' })) return;
  const keyIn = ins[K];
  let A = -1;
  for (const o of outs) for (const [, f] of o.s.facts) if (f.term.k === 't' && f.term.op === 'get' && f.term.args[1] === keyIn && ins.includes(f.term.args[0])) A = ins.indexOf(f.term.args[0]);
  if (!ck.ob('the flag is looked up among the available ones', A >= 0, { at, what: `${name} does not look its key up in a map parameter`, key: 'avail' })) return;
  const flag = [...outs].flatMap((o) => [...o.s.facts.values()]).map((f) => f.term).find((t) => t.op === 'get' && t.args[0] === ins[A] && t.args[1] === keyIn);
  const P = rec.parameters.findIndex((_, i) => i !== K && i !== A && recs.some((e) => e.args[i] && (e.args[i].k === 'o' || e.args[i] === ins[i])));
  const ownKey = (v) => v === keyIn || (isGet(v, 'key') && v.args[0] === flag);
  const deps = (v) => isDeps(v) && v.args[0] === flag;
  for (const o of outs) {
    const { s, ev } = o;
    const m = I.maskOf(s, flag);
    const info = (w, key) => ({ at, what: `${name}: ${w}`, key, detail: showFacts(s) });
    const eqs = [...s.facts.values()].filter((f) => f.term.op === 'eq');
    const rel = (f) => { const [a, b] = f.term.args; const d = [a, b].find((x) => x && x.k === 't' && ['elem', 'wit'].includes(x.op) && derives(s, x, deps)); return d ? [a, b].find((x) => x !== d) : null; };
    if (o.kind === 'throw') {
      const hit = eqs.some((f) => !(f.mask & D.FALSY) && rel(f));
      ck.ob('an error is raised only for a dependency already on the path', hit, info(`throws ${show(o.v, s)} on a path without a cycle`, 'throw'));
      continue;
    }
    if (!(m & D.TRUTHY)) {
      const empty = o.v === L.UNDEF || (o.v.k === 'o' && s.heap.get(o.v.loc) && !s.heap.get(o.v.loc).elems.length && !s.heap.get(o.v.loc).dyn.length);
      ck.ob('an unavailable key yields nothing', empty && !ev.some((e) => e.name === name), info(`returns ${show(o.v, s)} for a key that is not available`, 'missing'));
      continue;
    }
    ck.ob('availability is decided before anything else', !(m & D.FALSY), info('uses a flag that may not be available', 'mayMissing'));
    const arr = o.v.k === 'o' && s.heap.get(o.v.loc);
    if (!ck.ob('an available flag yields a list', arr && arr.kind === 'arr', info(`returns ${show(o.v, s)} for an available flag`, 'list'))) continue;
    const seq = [...arr.elems, ...arr.dyn];
    ck.ob('the flag is listed exactly once, last', seq.filter((x) => x === flag).length === 1 && seq[seq.length - 1] === flag && !ev.some((e) => e.recv === o.v && /unshift|reverse|sort|splice/.test(e.mut || '')), info(`the list is ${show(o.v, s)} instead of dependencies followed by the flag`, 'last'));
    // dependencies
    const lens = [...s.facts.values()].filter((f) => f.term.op === 'len' && derives(s, f.term, deps));
    const dep = [...s.facts.values()].map((f) => f.term).find(deps);
    const none = (dep && !(I.maskOf(s, dep) & ~(U | N))) || lens.some((f) => f.eq === C(0) || !(f.mask & ~D.Z));
    const rs = ev.filter((e) => e.name === name);
    if (none) ck.ob('no dependencies, no traversal', !rs.length, info('traverses although there are no dependencies', 'none'));
    else {
      const r = rs.filter((e) => elemOfDeps(e.args[K]) && deps(e.args[K].args[0]) && e.loop);
      ck.ob('every dependency is traversed before the flag is listed', r.length > 0 && r.every((e) => e.args[A] === ins[A]), info('a path lists the flag without traversing its dependencies with the same set', 'deps'));
      // own key on the path handed down, and every dependency compared with it
      const all = eqs.filter((f) => !(f.mask & D.TRUTHY) && f.term.args.some((x) => elemOfDeps(x) && deps(x.args[0])));
      const other = all.map((f) => f.term.args.find((x) => !elemOfDeps(x) || !deps(x.args[0])));
      const viaPath = P >= 0 && other.some((x) => x && x.k === 't' && x.op === 'elem' && x.args[0] === ins[P]);
      const viaOwn = other.some((x) => x && ownKey(x));
      const i0 = ev.indexOf(r[0]);
      const pushed = P >= 0 && ev.slice(0, i0).some((e) => e.recv === ins[P] && e.args.some(ownKey));
      const fresh = P >= 0 && r.length && r.every((e) => e.args[P] && e.args[P].k === 'o');
      const pathUndef = P >= 0 && !(I.maskOf(s, ins[P]) & ~U);
      const handed = pushed || (fresh && r.every((e) => ownFirst(s, e.args[P], ownKey) || ev.slice(0, i0).some((x) => x.recv === e.args[P] && x.args.some(ownKey))));
      ck.ob('every dependency is compared with the whole path and the flag itself', (viaPath || pathUndef) && (viaOwn || handed), info(`a dependency may be traversed without having been compared with ${viaPath || pathUndef ? 'the flag itself' : 'the flags on the path'}`, 'cycle'));
      ck.ob('the path handed down contains the flag', handed, info('the path handed to the traversal of a dependency lacks the flag', 'handed'));
      if (pushed) ck.ob('the path is restored', ev.slice(i0).some((e) => e.recv === ins[P] && (/pop|splice|length/.test(String(e.mut || '')) || !e.args.length || e.args.every((a) => a.k === 'c'))), info('the flag stays on the path of its siblings', 'pop'));
      const got = [...s.facts.values()].some((f) => isCall(f.term, name) && !(f.mask & D.FALSY));
      if (got) ck.ob('lists of dependencies precede the flag', seq.some((x) => derives(s, x, (y) => isCall(y, name))), info('the list of a dependency is dropped', 'dropped'));
      else ck.ob('a dependency is skipped only if it is not available', [...s.facts.values()].some((f) => isCall(f.term, name) && !(f.mask & D.TRUTHY)) || seq.some((x) => derives(s, x, (y) => isCall(y, name))), info('the result of a dependency is ignored', 'ignored'));
    }
    ck.ob('a listed flag is removed from the available ones', ev.some((e) => /^delete/.test(e.name) && e.recv === ins[A] && e.args.some(ownKey)), info('the flag stays available and can be listed again', 'delete'));
  }
  ck.atLeast('the flag is listed exactly once, last', 4);
  ck.atLeast('an error is raised only for a dependency already on the path', 1);
  // ---- entry
  I = ck.interp({ ...opts, events: [name], opaque: (n) => n === name });
  const tin = top.parameters.map((_, i) => I.input(top, i));
  let all = 0, some = 0;
  const tat = ck.loc(top);
  for (const o of I.run(top, {})) {
    const s = o.s, ev = s.events();
    const info = (w, key) => ({ at: tat, what: `topologicalSort: ${w}`, key, detail: showFacts(s) });
    if (!ck.ob('the entry adds no error of its own', o.kind === 'ret', info(`throws ${show(o.v, s)}`, 'tthrow'))) continue;
    const rs = ev.filter((e) => e.name === name);
    const given = !(I.maskOf(s, tin[1]) & ~D.TRUTHY), omitted = !(I.maskOf(s, tin[1]) & D.TRUTHY);
    const wantKey = (v) => (given ? v.op === 'elem' && v.args[0] === tin[1] : v.op === 'keyof' && derives(s, v, (x) => x === tin[0]));
    const lens = [...s.facts.values()].some((f) => f.term.op === 'len' && (f.eq === C(0) || !(f.mask & ~D.Z)));
    if (!rs.length) { ck.ob('every requested key is traversed', lens, info('returns without traversing the requested flags', 'tnone')); continue; }
    ck.ob('every requested key is traversed', rs.every((e) => e.loop && wantKey(e.args[K])), info(`traverses ${rs.map((e) => show(e.args[K], s))} ${given ? 'instead of the requested keys' : omitted ? 'instead of all flags' : ''}`, 'tkeys'));
    for (const e of rs) {
      const a = s.heap.get(e.args[A] && e.args[A].loc);
      ck.ob('traversal consumes a copy of all flags', a && a.entries.length && a.entries.every((x) => (x.t === 's' && x.v === tin[0]) || (x.t !== 's' && derives(s, x.v, (y) => y === tin[0]))), info(`the traversal works on ${show(e.args[A], s)}`, 'tcopy'));
    }
    const arr = o.v.k === 'o' && s.heap.get(o.v.loc);
    const seq = arr ? [...arr.elems, ...arr.dyn] : [];
    const rec1 = (x) => derives(s, x, (y) => isCall(y, name));
    const nothing = [...s.facts.values()].some((f) => isCall(f.term, name) && !(f.mask & D.TRUTHY) && !derives(s, f.term, (y) => y.op === 'wit'));
    if (seq.length) { some++; ck.ob('the result is the concatenation of all traversals', seq.every(rec1) && !ev.some((e) => e.recv === o.v && /unshift|reverse|sort|splice/.test(e.mut || '')), info(`returns ${show(o.v, s)}`, 'tconcat')); } else ck.ob('a traversal is dropped only if it is empty', nothing, info('drops the result of a traversal', 'tdrop'));
    all++;
  }
  ck.ob('requested keys and all keys are both analysed', all > 2 && some > 1, { at: tat, what: 'entry outcomes missing', key: 'tboth' });
};
function ownFirst(s, v, ownKey) {
  const o = v && v.k === 'o' && s.heap.get(v.loc);
  return !!o && o.kind === 'arr' && [...o.elems, ...o.dyn].some(ownKey);
}
function recursive(ck, top) {
  const calls = new Map();
  const of = (fn) => {
    if (calls.has(fn)) return calls.get(fn);
    const out = new Set();
    calls.set(fn, out);
    const I = ck.__ri || (ck.__ri = ck.interp({}));
    const v = (n) => {
      if (ts.isCallExpression(n)) { const d = I.sigDecl(n); if (d && d.body && ck.p.isRepo(d)) out.add(d); }
      ts.forEachChild(n, v);
    };
    v(fn.body);
    for (const d of out) of(d);
    return out;
  };
  of(top);
  const reach = (f, seen = new Set()) => { for (const d of calls.get(f) || []) if (!seen.has(d)) { seen.add(d); reach(d, seen); } return seen; };
  const cyc = [...reach(top)].filter((f) => reach(f).has(f));
  return [...reach(top)].find((f) => cyc.includes(f) && [...(calls.get(top) || [])].includes(f)) || cyc[0];
}
