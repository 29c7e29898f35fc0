'use strict';
const L = require('../engine/lib');
const { ts, D, C, term, prop, show } = L;
exports.technique = 'abstract interpretation of lookup sequences over the registry on the global object';
exports.explanation =
  'AnalyticsConnector.getInstance is interpreted for every content of the registry (missing, empty, filled by another copy of the library) and every sequence of up to three lookups over symbolic and concrete names. Same name must give the identical object, different names different objects, and after each lookup the registry entry on the host global object under exactly that name is the returned instance.';
const HOST = ['globalThis', 'window', 'self', 'global'];
exports.run = function (ck) {
  const fn = ck.fn('AnalyticsConnector.getInstance', 'analytics-connector');
  const at = ck.loc(fn);
  const I = ck.interp({ watch: () => true, keepArgs: true, write: () => true, writeKeys: () => true, smallSize: Infinity });
  let n = 0;
  const call = (s, k) => {
    const c = I.ctx0();
    c.prefix = 'E' + ++n;
    const r = I.callFn(s, c, fn, 'mod', D.CLS(fn.parent), [k], fn).map(([x, v]) => ({ s: x, v }));
    for (const t of c.throws) ck.ob('a lookup never fails', false, { at: ck.loc(t.node) || at, what: 'getInstance may throw', key: 'throw' });
    return r;
  };
  // the host global object, directly or through the repository's alias
  const roots = [...HOST.map((g) => term('global', [g], { mask: D.X }))];
  for (const f of ck.p.sources) if (/analytics-connector[/\\]src/.test(f.fileName)) ts.forEachChild(f, (st) => {
    if (!ts.isVariableStatement(st)) return;
    for (const d of st.declarationList.declarations) {
      if (!d.initializer || !ts.isIdentifier(d.name)) continue;
      const leaves = [];
      const leaf = (e) => {
        e = e.kind === ts.SyntaxKind.ParenthesizedExpression || ts.isAsExpression(e) ? e.expression : e;
        if (ts.isConditionalExpression(e)) { leaf(e.whenTrue); leaf(e.whenFalse); } else leaves.push(e);
      };
      leaf(d.initializer);
      if (leaves.every((e) => ts.isIdentifier(e) && HOST.includes(e.text))) roots.push(I.evalIdent(I.state(), I.ctx0(), d.name)[0][1]);
    }
  });
  const isRoot = (v) => v && v.k === 't' && roots.some((r) => r === v || (r.op === v.op && r.args[0] === v.args[0]));
  const registered = (s, name, v) => roots.some((r) => {
    const x = prop(I, s, r, 'analyticsConnectorInstances');
    return x && ( I.readDyn(s, x, name) === v || (name.k === 'c' && prop(I, s, x, name.v) === v));
  });
  const viaRegistry = (v) => v.k === 't' && (v.op === 'get' || v.op === 'dynget') && v.args[0] && v.args[0].k === 't' && L.isGet(v.args[0], 'analyticsConnectorInstances') && isRoot(v.args[0].args[0]);
  const a = term('in', ['name', 'h'], { mask: D.S | D.E });
  const pairs = [['a', 'b'], ['Main', 'main'], ['', 'x'], ['abcdefghijkl', 'abcdefghijkm'], [' a', 'a'], ['$default_instance', '']];
  const label = (k) => (k.k === 'c' ? JSON.stringify(k.v) : 'name');
  const seq = (names) => {
    let work = [{ s: I.state(), got: [] }];
    names.forEach((k, i) => {
      const next = [];
      for (const w of work) for (const o of call(w.s, k)) {
        const what = names.slice(0, i + 1).map(label).join(', ');
        w.got.forEach((g, j) => {
          if (names[j] === k) ck.ob('the same name gives the same instance', g === o.v, { at, what: `lookups of ${what}: lookup ${i + 1} returns a different object than lookup ${j + 1}`, key: 'same' });
          else ck.ob('different names give different instances', g !== o.v, { at, what: `lookups of ${what}: lookups ${j + 1} and ${i + 1} return the same object`, key: 'diff' });
        });
        const reg = registered(o.s, k, o.v) || viaRegistry(o.v);
        ck.ob('the returned instance is the one registered on the page', reg, { at, what: `lookup of ${label(k)} returns ${show(o.v, o.s).slice(0, 80)} which is not the global registry entry of that name`, key: 'registered' });
        if (!i) w.n = (w.n || 0) + 1;
        next.push({ s: o.s, got: [...w.got, o.v] });
      }
      work = next;
    });
    return work;
  };
  const first = seq([a]);
  ck.ob('an instance another copy registered is reused', first.some((w) => viaRegistry(w.got[0])), { at, what: 'no path returns an already registered instance', key: 'reuse' });
  ck.ob('a missing instance is created', first.some((w) => w.got[0].k === 'o'), { at, what: 'no path creates an instance', key: 'create' });
  // creating must depend on the entry being absent
  for (const w of first) if (w.got[0].k === 'o') {
    const absent = [...w.s.facts.values()].some((f) => !(f.mask & D.TRUTHY) && (viaRegistry(f.term) || (L.isGet(f.term, 'analyticsConnectorInstances') && isRoot(f.term.args[0]))));
    ck.ob('a registered instance is never replaced', absent, { at, what: 'a new instance is created although one may be registered already', key: 'replace', detail: L.showFacts(w.s) });
  }
  seq([a, a]); seq([a, a, a]);
  for (const [x, y] of pairs) { seq([C(x), C(y), C(x)]); seq([C(x), C(x), C(y)]); }
  ck.notes.push(`${n} abstract lookups`);
  ck.atLeast('the same name gives the same instance', 10);
  ck.atLeast('different names give different instances', 10);
};
