'use strict';
// Loads TypeScript sources of the repository (cwd) for a demonstration.
const path = require('path'), fs = require('fs'), os = require('os');
const repo = process.cwd();
const find = (n) => {
  for (const d of [repo + '/node_modules', '/opt/veriftools/node/node_modules']) if (fs.existsSync(path.join(d, n))) return require(path.join(d, n));
  throw new Error('no ' + n);
};
const pk = (p) => path.join(repo, 'packages', p);
const alias = {
  '@amplitude/experiment-core': pk('experiment-core/src/index.ts'),
  '@amplitude/analytics-connector': pk('analytics-connector/src/index.ts'),
  '@amplitude/experiment-js-client': pk('experiment-browser/src/index.ts'),
};
exports.repo = repo;
// window: jsdom window with the given options, made global; call before load
exports.dom = (html = '<!doctype html><html><head></head><body></body></html>', url = 'https://example.com/') => {
  const { JSDOM } = find('jsdom');
  const dom = new JSDOM(html, { url, pretendToBeVisual: true });
  const w = dom.window;
  const put = (k, v) => Object.defineProperty(globalThis, k, { value: v, configurable: true, writable: true });
  put('window', w);
  for (const k of ['document', 'navigator', 'location', 'localStorage', 'sessionStorage', 'history', 'MutationObserver', 'Event', 'CustomEvent', 'MessageEvent', 'HTMLElement', 'Element', 'Node', 'IntersectionObserver', 'StorageEvent']) if (w[k]) put(k, w[k]);
  for (const k of ['addEventListener', 'removeEventListener', 'dispatchEvent']) put(k, w[k].bind(w));
  return w;
};
// several sources in one bundle (so that they share their modules)
exports.bundle = (files, opts) => exports.load(files, opts);
// load a source file below packages/, bundled together with what it imports
exports.load = (file, { stub = {} } = {}) => {
  const esbuild = find('esbuild');
  const r = esbuild.buildSync({
    stdin: { contents: [].concat(file).map((f) => `export * from ${JSON.stringify(pk(f))};`).join('\n'), resolveDir: repo, loader: 'ts' },
    bundle: true, write: false, format: 'cjs', platform: 'browser', mainFields: ['main', 'module'], target: 'es2020', logLevel: 'error', absWorkingDir: repo,
    alias: Object.fromEntries(Object.entries(alias)), external: ['dom-mutator', 'dom-mutator/*'],
  });
  const m = { exports: {} };
  const req = (n) => (n in stub ? stub[n] : n.startsWith('dom-mutator') ? { default: new Proxy({}, { get: () => () => ({ revert() {} }) }), __esModule: true } : require(n));
  new Function('module', 'exports', 'require', r.outputFiles[0].text)(m, m.exports, req);
  return m.exports;
};
exports.ok = (c, m) => { if (!c) { console.error('FAIL ' + m); process.exit(1); } };
exports.eq = (a, b, m) => exports.ok(JSON.stringify(a) === JSON.stringify(b), `${m}: ${JSON.stringify(a)} !== ${JSON.stringify(b)}`);
exports.memStorage = () => { const d = new Map(); return { d, getItem: (k) => (d.has(k) ? d.get(k) : null), setItem: (k, v) => d.set(k, String(v)), removeItem: (k) => d.delete(k), get length() { return d.size; }, key: (i) => [...d.keys()][i] }; };
exports.tick = (n = 20) => { let p = Promise.resolve(); for (let i = 0; i < n; i++) p = p.then(() => {}); return p; };
exports.main = (f) => Promise.resolve().then(f).then(() => process.exit(0), (e) => { console.error(e && e.stack || e); process.exit(1); });
