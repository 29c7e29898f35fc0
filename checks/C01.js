'use strict';
const L = require('../engine/lib');
const { Effects } = require('../engine/effects');
exports.technique = 'interprocedural effect and alias analysis (summary based, over the type-checked syntax tree)';
exports.explanation =
  'Every function reachable from the exported evaluation and flag ordering entry points gets a summary of which inputs it may modify, at which depth, and which ambient state it consults. The entries must modify nothing they are given, nothing that outlives the call, and consult nothing but their arguments.';
exports.run = function (ck) {
  const entries = ['EvaluationEngine.evaluate', 'EvaluationEngine.evaluateWithTraces', 'EvaluationEngine.evaluateConditions', 'topologicalSort'].map((n) => ck.fn(n, 'experiment-core'));
  const E = new Effects().analyse(entries);
  const who = (r) => (r === 'G' ? 'module or global state' : r[0] === 'T' ? 'the evaluation engine itself' : r.endsWith('*') ? 'an object inside argument ' + (parseInt(r.slice(1), 10) + 1) : 'argument ' + (parseInt(r.slice(1), 10) + 1));
  let calls = 0;
  for (const f of entries) {
    const s = E.of(f), name = ck.p.fnName(f);
    ck.ob('an entry modifies nothing it did not create', s.mut.size === 0, () => {
      const [r, m] = [...s.mut][0];
      const [at, x] = [...m][0];
      return { at, what: `${name} may modify ${who(r)}: ${x.how}`, key: name + r };
    });
    const ext = E.extOf(f);
    ck.ob('an entry consults only its arguments', ext.size === 0, () => {
      const x = [...ext.values()][0];
      return { at: ck.loc(x.node), what: `${name} depends on ${x.name}`, key: name + x.name };
    });
  }
  for (const f of E.fns) {
    const s = E.of(f);
    calls += s.callSites;
    ck.ob('a reachable function leaves shared state alone', !s.mut.has('G'), () => { const [at, x] = [...s.mut.get('G')][0]; return { at, what: `${ck.p.fnName(f)}: ${x.how}`, key: ck.p.fnName(f) }; });
  }
  // results never share the containers the caller could corrupt through them
  const ret = E.of(entries[0]).ret;
  ck.ob('the result is a new object', [...ret.a].every((r) => r === 'F'), { at: ck.loc(entries[0]), what: 'evaluate may return an object it was given', key: 'fresh' });
  ck.notes.push(`${E.fns.size} functions, ${calls} call sites`);
  ck.effects = { functions: [...E.fns].map((f) => ck.p.fnName(f)), calls };
  ck.atLeast('a reachable function leaves shared state alone', 10);
};
