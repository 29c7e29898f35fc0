const L = require('./lib');
// one page load of the web client; storages and the document's cookies survive in `device`
exports.page = async (device, href, { flags, variants, pages, rules, config = {} }) => {
  const w = L.dom('<!doctype html><html><head></head><body><div id="a">x</div></body></html>', href);
  const put = (k, v) => Object.defineProperty(globalThis, k, { value: v, configurable: true, writable: true });
  const u = () => new URL(p.href);
  const went = [];
  const p = { href, went, w, tracked: [], exposures: [] };
  const location = { get href() { return p.href; }, set href(x) { went.push(x); }, replace: (x) => went.push(x), assign: (x) => went.push(x), toString: () => p.href };
  for (const k of ['origin', 'hostname', 'host', 'pathname', 'search', 'hash', 'protocol', 'port']) Object.defineProperty(location, k, { get: () => u()[k] });
  put('location', location);
  for (const a of ['localStorage', 'sessionStorage']) { device[a] = device[a] || L.memStorage(); put(a, device[a]); }
  put('history', { pushState: (a, b, x) => { p.href = new URL(x, p.href).href; }, replaceState: (a, b, x) => { p.href = new URL(x, p.href).href; } });
  put('experimentIntegration', { track: (e) => { p.tracked.push(e); return true; }, getUser: () => ({ user_id: 'u', device_id: 'd' }) });
  put('addEventListener', w.addEventListener.bind(w)); put('removeEventListener', w.removeEventListener.bind(w)); put('dispatchEvent', w.dispatchEvent.bind(w));
  put('requestAnimationFrame', (f) => setTimeout(f, 0)); put('CSSStyleSheet', class { replaceSync() {} }); w.document.adoptedStyleSheets = [];
  put('IntersectionObserver', class { observe() {} disconnect() {} unobserve() {} });
  put('webExperiment', undefined); put('experimentConfig', undefined);
  const m = L.load('experiment-tag/src/experiment.ts', { stub: { 'dom-mutator': p.stub = { __esModule: true, default: new Proxy({}, { get: (t, k) => (sel, f) => { p.tracked.push; return { revert() {} }; } }) } } });
  const fetched = { request: async () => ({ status: 200, body: JSON.stringify(flags) }) };
  p.client = m.DefaultWebExperimentClient.getInstance('deployment-key', { initialFlags: JSON.stringify(flags), pageObjects: JSON.stringify(pages || {}), behavioralTargetingRules: rules && JSON.stringify(rules) }, { httpClient: fetched, useDefaultNavigationHandler: true, ...config });
  await p.client.start();
  await L.tick(50);
  return p;
};
exports.flag = (key, payload, extra = {}) => ({ key, metadata: { deployed: true, evaluationMode: 'local', flagType: 'experiment', deliveryMethod: 'web', ...extra }, segments: [{ metadata: { segmentName: 'All' }, variant: 'treatment' }], variants: { control: { key: 'control', value: 'control' }, treatment: { key: 'treatment', value: 'treatment', payload } } });
exports.on = (id, url, extra = {}) => ({ [id]: { id, name: id, conditions: [[{ op: 'regex match', selector: ['context', 'page', 'url'], values: [url] }]], trigger_type: 'url_change', ...extra } });
