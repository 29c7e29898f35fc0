'use strict';
const L = require('../engine/lib');
const { Hist } = require('./hist');
const { D, C, show } = L;
exports.technique = 'typestate analysis: abstract histories of identity edits and listener registrations with symbolic identity values';
exports.explanation =
  'The identity store is constructed abstractly. (1) For every ordered pair of identity shapes with symbolic leaf values, setting one after the other must on every path notify exactly when the path facts make some leaf or the shape differ. (2) Every sequence of listener registration, removal and identity changes up to the bound must call exactly the registered listeners, once each. (3) Every sequence of editor operations up to the bound, followed by commit, must yield exactly the edited identity, leave the stored identity alone before the commit and never change the property objects the caller handed in; an editor used again after a commit is included.';
exports.run = function (ck) {
  const H = new Hist(ck, 'IdentityStoreImpl', 'analytics-connector', { events: [/^callback:L\d+$/], recurse: 8 });
  const I = H.I;
  let uid = 0;
  const S = (n) => H.sym(n, D.S | D.E);
  const isV = (v) => !!v && typeof v.k === 'string' && 'id' in v;
  const mkval = (s, v) => {
    if (isV(v)) return v;
    if (Array.isArray(v)) return I.newObj(s, 'lit' + ++uid, { kind: 'arr', entries: [], elems: v.map((x) => mkval(s, x)), dyn: [] });
    if (v && typeof v === 'object') return I.newObj(s, 'lit' + ++uid, { kind: 'obj', entries: Object.entries(v).map(([k, x]) => ({ t: 'p', k, v: mkval(s, x) })) });
    return C(v);
  };
  // true / false / undefined (not decided by the path)
  const eqv = (s, a, b) => {
    if (a === b) return true;
    if (!a || !b) return false;
    const oa = a.k === 'o' && s.heap.get(a.loc), ob = b.k === 'o' && s.heap.get(b.loc);
    if (oa && ob) {
      if ((oa.kind === 'arr') !== (ob.kind === 'arr')) return false;
      if (oa.open || ob.open || (oa.dyn && oa.dyn.length) || (ob.dyn && ob.dyn.length)) return undefined;
      let pa, pb;
      if (oa.kind === 'arr') { pa = oa.elems.map((e, i) => [String(i), e]); pb = ob.elems.map((e, i) => [String(i), e]); }
      else {
        if ([...oa.entries, ...ob.entries].some((e) => e.t !== 'p')) return undefined;
        pa = oa.entries.map((e) => [e.k, e.v]); pb = ob.entries.map((e) => [e.k, e.v]);
      }
      const ma = new Map(pa), mb = new Map(pb);
      if (ma.size !== mb.size || [...ma.keys()].some((k) => !mb.has(k))) return false;
      const r = [...ma].map(([k, x]) => eqv(s, x, mb.get(k)));
      return r.includes(false) ? false : r.includes(undefined) ? undefined : true;
    }
    if (oa || ob) return false;
    if (!(I.maskOf(s, a) & I.maskOf(s, b))) return false;
    const t = I.eqTerm(s, a, b, false);
    const m = I.maskOf(s, t);
    return !(m & D.FALSY) ? true : !(m & D.TRUTHY) ? false : undefined;
  };
  const get = (s, self) => H.call(s, self, 'getIdentity');
  const invoke = (s, recv, m, args = []) => {
    const c = H.ctx();
    const r = I.callMethod(s, c, recv, C(m), args, H.cls).map(([x, v]) => ({ s: x, v, kind: 'ret' }));
    return [...r, ...c.throws.map((t) => ({ s: t.s, v: t.v, kind: 'throw', node: t.node }))];
  };
  const setAt = H.loc('setIdentity');
  const calls = (s, n) => s.events().slice(n).map((e) => ({ l: e.name.slice(9), a: e.args[0] }));
  // (1) change detection over shapes
  const shapes = (i) => {
    const u = S('u' + i), d = S('d' + i), p = S('p' + i), q = S('q' + i);
    return [
      {}, { userId: u }, { deviceId: d }, { userId: u, deviceId: d }, { deviceId: d, userId: u, userProperties: {} },
      { userProperties: { k: p } }, { userProperties: { k: p, l: q } }, { userProperties: { l: p, k: q } }, { userProperties: { m: p } },
      { userProperties: { k: [p] } }, { userProperties: { k: [p, q] } }, { userProperties: { k: [] } }, { userProperties: { k: {} } }, { userProperties: { k: { m: p } } }, { userProperties: { k: { m: p, n: q } } },
      { userProperties: { k: [[p], [q]] } }, { userProperties: { k: [{ m: p }] } },
      { userProperties: { k: null } }, { userProperties: { k: true } }, { userProperties: { k: 1 } }, { userProperties: { k: '1' } }, { userProperties: { k: 0 } }, { userProperties: { k: false } },
      { userId: u, optOut: true }, { userId: u, optOut: false }, { userId: u, deviceId: d, userProperties: { k: p, l: [q, q] }, optOut: true },
    ];
  };
  const A = shapes(1), B = shapes(2);
  const show1 = (x) => JSON.stringify(x, (k, v) => (isV(v) ? '*' : v));
  let pairs = 0;
  for (const a of A) for (const b of B) {
    const [o] = H.make();
    const s0 = o.s.clone();
    const va = mkval(s0, a), vb = mkval(s0, b), l = H.sym('L1', D.X);
    for (const x of H.call(s0, o.v, 'setIdentity', [va])) for (const y of H.call(x.s, o.v, 'addIdentityListener', [l])) {
      const n = y.s.events().length;
      for (const z of H.call(y.s, o.v, 'setIdentity', [vb])) {
        pairs++;
        const same = eqv(z.s, va, vb), got = calls(z.s, n);
        const what = `setting ${show1(b)} after ${show1(a)}`;
        if (!ck.ob('setting an identity never throws', z.kind === 'ret', { at: ck.loc(z.node) || setAt, what: what + ' throws', key: 'throw' })) continue;
        ck.ob('listeners are notified exactly when the identity differs', got.length ? same === false : same === true, { at: setAt, what: `${what}: listeners ${got.length ? 'are' : 'are not'} notified although the identities ${same === undefined ? 'are not proved ' + (got.length ? 'different' : 'equal') : same ? 'are equal' : 'differ'}`, key: got.length ? 'spurious' : 'missed', detail: L.showFacts(z.s) });
        ck.ob('a listener is called once with the new identity', got.length <= 1 && got.every((g) => eqv(z.s, g.a, vb) === true), { at: setAt, what: `${what}: listener calls ${got.map((g) => show(g.a, z.s)).join()}`, key: 'arg' });
        for (const g of get(z.s, o.v)) ck.ob('the stored identity is the given one', g.kind === 'ret' && eqv(g.s, g.v, vb) === true, { at: setAt, what: `${what}: stored ${show(g.v, g.s)}`, key: 'stored' });
      }
    }
  }
  // (2) registration histories
  const ops = ['add L1', 'add L2', 'remove L1', 'set'];
  const bound = ck.thorough ? 7 : 5;
  let work = H.make().map((o) => ({ s: o.s, v: o.v, on: [], seq: [], out: [] })), hist = 0;
  for (let d = 0; d < bound; d++) {
    const next = [];
    for (const w of work) for (const op of ops) {
      const s = w.s.clone();
      let on = w.on.slice(), want = [], m, arg;
      if (op === 'set') { m = 'setIdentity'; arg = mkval(s, { userId: 'u' + d }); want = on; }
      else { const l = op.slice(-2); m = op[0] === 'a' ? 'addIdentityListener' : 'removeIdentityListener'; arg = H.sym(l, D.X); on = on.filter((x) => x !== l || op[0] === 'a'); if (op[0] === 'a' && !on.includes(l)) on.push(l); }
      for (const o of H.call(s, w.v, m, [arg])) {
        hist++;
        const seq = [...w.seq, op], got = calls(o.s, w.s.events().length);
        ck.ob('exactly the registered listeners are called', o.kind === 'ret' && got.map((g) => g.l).sort().join() === want.slice().sort().join(), { at: H.loc(m), what: `${seq.join(', ')}: called ${got.map((g) => g.l).join() || 'nobody'}, registered ${want.join() || 'nobody'}`, key: op });
        next.push({ s: o.s, v: w.v, on, seq });
      }
    }
    work = next;
  }
  // (3) editor histories
  const P = { a: S('x'), b: S('y') };
  const base = { userId: S('u0'), deviceId: S('d0'), userProperties: P };
  const edits = [
    ['setUserId', S('u9'), (m, v) => { m.userId = v; }],
    ['setDeviceId', S('d9'), (m, v) => { m.deviceId = v; }],
    ['setOptOut', C(true), (m, v) => { m.optOut = v; }],
    ['setUserProperties', { c: S('z') }, (m, v) => { m.userProperties = { ...v }; }],
    ['updateUserProperties', { $set: { k: S('k') } }],
    ['updateUserProperties', { $set: { a: S('a9') } }],
    ['updateUserProperties', { $unset: { a: '-' } }],
    ['updateUserProperties', { $clearAll: { a: '-' } }],
    ['updateUserProperties', { $unset: { b: '-' }, $set: { b: S('b9') } }],
    ['updateUserProperties', { $clearAll: {}, $set: { c: S('c9'), d: S('d8') } }],
    ['updateUserProperties', { $set: { c: S('c7') }, $clearAll: {} }],
    ['updateUserProperties', { $other: { a: S('n') } }],
    ['updateUserProperties', {}],
  ];
  const apply = (m, [op, arg, f]) => {
    const r = { ...m, userProperties: m.userProperties && { ...m.userProperties } };
    if (f) { f(r, arg); return r; }
    let p = r.userProperties || {};
    for (const [k, v] of Object.entries(arg)) {
      if (k === '$set') p = { ...p, ...v };
      else if (k === '$unset') { p = { ...p }; for (const q of Object.keys(v)) delete p[q]; } else if (k === '$clearAll') p = {};
    }
    r.userProperties = p;
    return r;
  };
  const edAt = H.loc('editIdentity');
  const run = (starts, seqs) => {
    for (const start of starts) for (const seq of seqs) {
      const label = `editor from ${show1(start)}: ${seq.map((e) => (e === 'commit' ? e : `${e[0]}(${show1(e[1])})`)).join(', ')}`;
      const [o] = H.make();
      const s0 = o.s.clone();
      const v0 = mkval(s0, start);
      let ws = H.call(s0, o.v, 'setIdentity', [v0]).flatMap((x) => H.call(x.s, o.v, 'addIdentityListener', [H.sym('L1', D.X)])).flatMap((x) => H.call(x.s, o.v, 'editIdentity').map((e) => ({ s: e.s, ed: e.v, model: { ...start, userProperties: { ...start.userProperties } }, stored: start, given: [], kind: e.kind })));
      for (const e of seq) {
        ws = ws.flatMap((w) => {
          const s = w.s.clone();
          const n = s.events().length;
          const isC = e === 'commit';
          const arg = isC ? undefined : mkval(s, e[1]);
          const model = isC ? w.model : apply(w.model, e);
          const stored = isC ? w.model : w.stored;
          return invoke(s, w.ed, isC ? 'commit' : e[0], isC ? [] : [arg]).map((r) => {
            ck.ob('editing never throws', r.kind === 'ret', { at: ck.loc(r.node) || edAt, what: label + ' throws', key: 'edit-throw' });
            const given = [...w.given, ...(arg && arg.k === 'o' ? [[arg, e[1]]] : [])];
            const t = r.s.clone();
            const cur = get(r.s, o.v)[0];
            const exp = mkval(t, stored);
            ck.ob(isC ? 'commit applies exactly the edits' : 'edits stay invisible before the commit', cur && cur.kind === 'ret' && eqv(mergeHeap(cur.s, t), cur.v, exp) === true, { at: edAt, what: `${label}: the stored identity is ${cur && show(cur.v, cur.s)} instead of ${show1(stored)}`, key: isC ? 'commit' : 'before' });
            const got = calls(r.s, n);
            if (isC) {
              const before = mkval(t, w.stored);
              const same = eqv(mergeHeap(r.s, t), before, exp);
              ck.ob('commit notifies exactly when something changed', got.length ? same !== true : same === true, { at: edAt, what: `${label}: listeners ${got.length ? 'are' : 'are not'} notified although the committed identity ${same ? 'equals' : 'differs from'} the previous one`, key: 'commit-notify', detail: L.showFacts(r.s) });
            } else ck.ob('edits notify nobody before the commit', !got.length, { at: edAt, what: label + ' notifies listeners before the commit', key: 'early' });
            for (const [v, orig] of given) {
              const ex = mkval(t, orig);
              ck.ob('property objects of the caller are never changed', eqv(mergeHeap(r.s, t), v, ex) === true, { at: edAt, what: `${label}: the argument ${show1(orig)} became ${show(v, r.s)}`, key: 'caller' });
            }
            return { s: r.s, ed: w.ed, model, stored, given };
          });
        });
      }
    }
  };
  function mergeHeap(s, t) {
    const r = s.clone();
    for (const [k, v] of t.heap) if (!r.heap.has(k)) r.wHeap().set(k, v);
    return r;
  }
  const seqs = [];
  for (const a of edits) { seqs.push([a, 'commit']); for (const b of edits) { seqs.push([a, b, 'commit'], [a, 'commit', b, 'commit']); if (ck.thorough) for (const c of edits) seqs.push([a, b, c, 'commit']); } }
  run([base], seqs);
  run([{}, { userId: S('u1') }], edits.flatMap((a) => [[a, 'commit'], [a, edits[4], 'commit'], [edits[6], a, 'commit']]));
  ck.notes.push(`${pairs} shape-pair paths, ${hist} listener histories of length <= ${bound}, ${seqs.length} editor sequences`);
  ck.atLeast('listeners are notified exactly when the identity differs', 300);
  ck.atLeast('commit applies exactly the edits', 100);
};
