'use strict';
const { World } = require('./world');
const { ts, C, D, show } = require('../engine/lib');
exports.technique = 'effect analysis: every operation of the client interface, read from its type declaration, is interpreted on the stub with symbolic arguments and all outside effects are enumerated';
exports.explanation =
  'The operations are read from the declared client interface. Each one is interpreted on the stub client for every argument kind, alone and after every other operation: no call to anything outside the stub, no write outside it, no exception, and an empty result of the documented shape.';
exports.run = function (ck) {
  const W = new World(ck, 'StubExperimentClient', 'experiment-browser', { events: [/./] });
  let iface;
  for (const f of ck.p.sources) if (/experiment-browser[/\\]src/.test(f.fileName)) ts.forEachChild(f, (n) => { if (ts.isInterfaceDeclaration(n) && n.name.text === 'Client') iface = n; });
  const names = iface ? iface.members.filter((m) => ts.isMethodSignature(m) || ts.isPropertySignature(m)).map((m) => m.name.getText()) : ['start', 'stop', 'fetch', 'variant', 'all', 'clear', 'exposure', 'getUser', 'setUser', 'getUserProvider', 'setUserProvider'];
  const SHAPE = { all: 'empty', variant: 'empty', getUser: 'empty', fetch: 'self', setUserProvider: 'self', getUserProvider: 'null' };
  const U = 127;
  const argSets = (s) => [[], [W.sym('a', U)], [W.sym('a', U), W.sym('b', U)], [C(null), C(null)], [C('flag'), C('fallback')], [W.val(s, { user_id: 'u', user_properties: { a: 1 } }), W.val(s, { flagKeys: ['a'] })]];
  const start = W.start();
  const judge = (o, m, self, n, what) => {
    const at = W.loc(m);
    if (!ck.ob('no operation of the stub fails', o.kind === 'ret', { at: ck.loc(o.node) || at, what: what + ' fails', key: m })) return;
    const ev = o.s.events().slice(n).filter((e) => !/^(enter|exit):/.test(e.name));
    ck.ob('the stub has no outside effect', !ev.length, { at: ev[0] ? ev[0].loc : at, what: `${what}: calls ${ev[0] && ev[0].name}`, key: m });
    const shape = SHAPE[m];
    const ok = shape === 'self' ? o.v === self : shape === 'empty' ? W.is(o.s, o.v, {}) === true : shape === 'null' ? o.v === C(null) || o.v === C(undefined) : W.is(o.s, o.v, undefined) === true || o.v === C(undefined);
    ck.ob('results are empty values of the documented shape', ok, { at, what: `${what}: returns ${show(o.v, o.s).slice(0, 120)}`, key: m });
  };
  for (const o of W.make([], start)) {
    for (const m of names) {
      ck.ob('the stub offers every operation of the client interface', !!ck.p.findMember(W.cls, m), { at: W.loc(), what: `no method ${m}`, key: m });
      if (!ck.p.findMember(W.cls, m)) continue;
      const s0 = o.s.clone();
      argSets(s0).forEach((args, i) => {
        for (const r of W.call(s0, o.v, m, args)) {
          judge(r, m, o.v, s0.events().length, `${m} (argument set ${i})`);
          // the heap reachable from outside the stub is untouched
          for (const a of args) if (a.k === 'o') ck.ob('arguments are not modified', r.s.heap.get(a.loc) === s0.heap.get(a.loc), { at: W.loc(m), what: `${m} modifies its argument`, key: m });
          for (const m2 of names) if (ck.p.findMember(W.cls, m2)) for (const q of W.call(r.s, o.v, m2, args)) judge(q, m2, o.v, s0.events().length, `${m2} after ${m} (argument set ${i})`);
        }
      });
    }
  }
  ck.atLeast('the stub has no outside effect', 100);
};
