'use strict';
// Source of properties.jsonl:  node tools/props.js
const fs = require('fs');
const path = require('path');
const out = [];
const B = 'packages/experiment-browser/src/', K = 'packages/experiment-core/src/', A = 'packages/analytics-connector/src/', T = 'packages/experiment-tag/src/', G = 'packages/plugin-segment/src/';
// id, title, statement, over, text, why, files, mechanism [name, where][], extra
const P = (id, title, statement, over, text, why, files, mech, extra = {}) =>
  out.push({ id, title, statement, quantifier: { over, text }, why_tests_cant: why, anchors: { files, mechanism: mech.map(([name, where]) => ({ name, where })), ...extra } });

// ---- evaluation core --------------------------------------------------------
P('C01', 'Flag evaluation is a pure function of flags and context',
  'Evaluating flags reads only the flag configurations and the evaluation context it is given and returns the same result every time. It never modifies the flags, the context or any state that outlives the call, and never consults clocks, randomness or the environment.',
  ['inputs', 'histories'], 'Every flag configuration and evaluation context, after any history of earlier evaluations.',
  'Tests evaluate a handful of flags once each; hidden state or an in-place edit only shows in a later evaluation of some other flag.',
  [K + 'evaluation/evaluation.ts', K + 'evaluation/topological-sort.ts', K + 'evaluation/select.ts'], [['evaluation works on locals only; the target wraps context and result', K + 'evaluation/evaluation.ts']]);
P('C02', 'Segments are tried in order and bucketing follows the documented split',
  'The first segment whose targeting conditions hold (some conjunction all true, or no conditions) decides the flag, and a segment without a chosen variant passes on to the next. A user is assigned from a hash of the bucketing salt and value only: an allocation is taken when its half-open range contains the hash modulo 100 and a distribution when its half-open range contains the hash divided by 100, and a segment without a bucketing value falls to its default variant.',
  ['inputs'], 'Every flag, segment list, allocation/distribution layout, and context.',
  'The network-backed evaluation tests are not run offline and sample few flags; boundary hashes and empty bucketing values are not sampled.',
  [K + 'evaluation/evaluation.ts'], [['segment evaluation, condition matching and bucketing', K + 'evaluation/evaluation.ts']]);
P('C03', 'Every operator has its documented meaning and exact negation',
  'Each targeting operator answers true exactly when its documented relation holds between the selected property and some filter value: equality (boolean-like values ignore case), case-insensitive containment, numeric or version order in the named direction, regular expression match, and for set operators set equality, inclusion of all, or inclusion of any. A negative operator is the exact complement of its positive partner for a single value, and for set operators on lists; a list value matches a non-set operator if some element does. An absent property matches positive operators only when the filter lists "(none)" and negative ones only when it does not; an unknown operator never matches.',
  ['inputs'], 'Every condition operator, property value (absent, scalar, list) and filter value list.',
  'Tests sample operand values per operator; complementarity is over all values and operand kinds.',
  [K + 'evaluation/evaluation.ts', K + 'evaluation/flag.ts', K + 'evaluation/semantic-version.ts'], [['operator dispatch', K + 'evaluation/evaluation.ts']]);
P('C04', 'Evaluation with traces returns exactly the plain evaluation results',
  'Asking for evaluation traces never changes the outcome: for every flag list and context the traced evaluation returns the same flag-to-variant map as the plain evaluation, including which flags are visible to later flags.',
  ['inputs'], 'Every flag list and context.',
  'The two code paths are separate copies; tests compare a few flags.',
  [K + 'evaluation/evaluation.ts'], [['plain and traced flag and segment evaluation', K + 'evaluation/evaluation.ts']]);
P('C05', 'Flag ordering puts dependencies first, each flag once, and rejects cycles',
  'Ordering flags for evaluation yields each requested flag and each transitively required, available flag exactly once, every flag after all its available dependencies, regardless of the order of the input. A dependency cycle is reported as an error instead of an order.',
  ['inputs'], 'Every dependency graph and requested key subset.',
  'Graph shapes are unbounded; tests list a dozen.',
  [K + 'evaluation/topological-sort.ts'], [['depth-first ordering with cycle path', K + 'evaluation/topological-sort.ts']]);
P('C06', 'Variant metadata is merged flag, then segment, then variant',
  'The variant returned for a flag carries the merge of flag, segment and variant metadata with the more specific level winning on every key, and is otherwise the configured variant unchanged. Evaluating never writes merged metadata back into the flag configuration.',
  ['inputs', 'histories'], 'Every combination of metadata at the three levels.',
  'Tests check single levels; precedence is a per-key statement over all maps.',
  [K + 'evaluation/evaluation.ts'], [['metadata merge after a segment matched', K + 'evaluation/evaluation.ts']]);
P('C07', 'Remote API calls authenticate, transmit the options, and reject failures',
  'Every evaluation or flag request carries the deployment key, the encoded user and exactly the requested options. Any response other than 200 raises an error carrying the status instead of being returned as data.',
  ['inputs', 'fault_sequences'], 'Every option combination and every response status.',
  'Tests use live servers (not run offline) or one mocked response.',
  [K + 'api/evaluation-api.ts', K + 'api/flag-api.ts'], [['request construction and status check', K + 'api/evaluation-api.ts']]);
P('C08', 'A poller runs at most one timer and stops when told',
  'Starting a poller that already runs creates no second timer, and stopping clears the running timer so that a later start polls again. A failing poll action never ends the polling.',
  ['histories', 'fault_sequences'], 'Every sequence of start and stop calls and every outcome of the poll action.',
  'Tests run a few start/stop sequences.',
  [K + 'util/poller.ts'], [['guarded interval', K + 'util/poller.ts']]);
P('C09', 'Versions are ordered number by number and a pre-release precedes its release',
  'Two versions compare by major, then minor, then patch number (as numbers of any length, a missing patch counting as 0), and of two versions with equal numbers the one with a pre-release comes first; two pre-releases compare as text. A text that is not major.minor, major.minor.patch or major.minor.patch-prerelease is no version.',
  ['inputs'], 'Every pair of versions and every text.', 'Tests compare listed pairs.',
  [K + 'evaluation/semantic-version.ts'], [['parsing and comparison of versions', K + 'evaluation/semantic-version.ts']]);
// ---- connector --------------------------------------------------------------
P('A01', 'Events sent before a receiver exists are queued once, in order, bounded',
  'An event logged before a receiver is set is kept, in order, up to 512 events; once a receiver is set each kept event and each later event is delivered to it exactly once. After delivery nothing stays queued.',
  ['histories'], 'Every interleaving of logging and receiver registration.',
  'Tests run three interleavings.',
  [A + 'eventBridge.ts'], [['queue flushed on registration', A + 'eventBridge.ts']]);
P('A02', 'Identity listeners fire exactly when the identity really changed',
  'Setting an identity stores exactly that identity and calls every registered listener once with it if and only if it differs in content from the previous one; removed listeners are not called. Committing an edit applies exactly the edits made, in order, to the identity the edit started from; before the commit nothing is visible, and property objects handed in by the caller are never modified.',
  ['histories', 'inputs'], 'Every history of identity edits and listener registrations.',
  'Tests cover a few edit sequences.',
  [A + 'identityStore.ts', A + 'util/equals.ts'], [['change check before notification', A + 'identityStore.ts']]);
P('A03', 'One connector instance per name across the page',
  'Asking for a connector by name returns the same instance for the same name for the lifetime of the page and different instances for different names, even when several copies of the library are loaded.',
  ['histories'], 'Every sequence of lookups.',
  'Tests look up one name twice.',
  [A + 'analyticsConnector.ts'], [['registry on the global object', A + 'analyticsConnector.ts']]);
// ---- browser client ---------------------------------------------------------
P('B01', 'Variant lookup follows the documented source and fallback order',
  'The variant returned for a key comes from the highest-priority source that has one, in the documented order for the configured source and the flag evaluation mode, and is the stored value unchanged. A variant marked default is used only when no fallback exists.',
  ['inputs', 'configurations'], 'Every presence/absence combination of stored, evaluated, inline, initial and configured fallback variants, for each source and evaluation mode.',
  'Six tables of four to six sources with presence and default marks; the client tests that touch them need the network and are not in the stable suite.',
  [B + 'experimentClient.ts'], [['per-source fallback chains', B + 'experimentClient.ts']]);
P('B02', 'Exposure source tag always tells the true origin of the variant',
  'The source reported with an exposure names the source the returned variant actually came from, so an assigned variant is never reported as a fallback and a fallback never as an assignment. A stored variant is reported as storage or, where storage comes after the initial variants, as secondary storage. The default mark reported with it is true exactly when a default variant was passed over or returned.',
  ['inputs', 'configurations'], 'Every lookup outcome.',
  'Tests check single rows of the fallback tables.',
  [B + 'experimentClient.ts', B + 'types/source.ts'], [['source tags attached in each chain', B + 'experimentClient.ts']]);
P('B03', 'Listing all variants merges sources in documented precedence',
  'Listing all variants returns, for each key, the locally evaluated variant for local-evaluation flags, otherwise the primary source, otherwise the secondary source. Evaluations of flags that are not local-evaluation never shadow fetched or initial variants.',
  ['inputs', 'configurations'], 'Every content of the stores, flags and configuration.',
  'Client tests that cover it are network-bound; few key overlaps are sampled.',
  [B + 'experimentClient.ts'], [['spread order in the merged map', B + 'experimentClient.ts']]);
P('B04', 'Exposures are tracked only when and as they should be',
  'An exposure is tracked for an assigned variant with its variant key, for a default variant or default-backed fallback without a variant, and never for a plain fallback or when the flag opts out of tracking. Automatic exposure happens on lookup only when enabled.',
  ['inputs', 'configurations'], 'Every lookup outcome and exposure configuration.',
  'Tests sample a few outcomes, mostly in the unstable client suite.',
  [B + 'experimentClient.ts'], [['exposure construction', B + 'experimentClient.ts']]);
P('B05', 'A failed or partial fetch never loses cached variants',
  'A fetch that fails leaves every cached variant as it was, a full fetch replaces the cache only after a successful response, and a fetch for chosen keys only touches those keys: a chosen key missing from a successful response is removed. The persistent store is rewritten only after the in-memory update.',
  ['fault_sequences', 'histories'], 'Every outcome of the network call and every set of requested keys.',
  'Failure points inside the sequence are not enumerated by tests.',
  [B + 'experimentClient.ts', B + 'storage/cache.ts'], [['store update after response', B + 'experimentClient.ts']]);
P('B06', 'Persistent data is namespaced per storage, instance and deployment',
  'Everything the client persists is stored under a name that depends on its kind and instance. The caches of variants and flags also carry the last six characters of the deployment key, so clients whose names or keys differ there never read or overwrite each other, and the exposure queue and the session record carry the instance name; the web tag keeps its variants in session storage.',
  ['configurations'], 'Every pair of deployment keys and instance names.',
  'Tests use one or two keys.',
  [B + 'storage/cache.ts', B + 'util/userSessionExposureTracker.ts', B + 'util/sessionAnalyticsProvider.ts'], [['namespace construction', B + 'storage/cache.ts']]);
P('B07', 'Storage failures never break variant lookup, fetch or tracking',
  'When browser storage is unavailable, full, or holds text that is not JSON or JSON of another kind, creating the client, looking up variants, tracking exposures, setting the assignment tracking option, fetching and clearing complete without an exception caused by storage; the client carries on from memory.',
  ['fault_sequences'], 'Every storage read or write failing, and every stored content.',
  'Tests do not inject storage faults at each access.',
  [B + 'storage/cache.ts', B + 'storage/local-storage.ts', B + 'integration/manager.ts', B + 'experimentClient.ts'], [['guards around storage access', B + 'storage/cache.ts']]);
P('B08', 'Starting and stopping the client is idempotent and leaves nothing running',
  'Starting a started client has no effect, stopping always ends polling, and a stop issued while a start is still in progress is not undone when that start completes. Flag polling begins only if configured, and no failure of a background poll or request surfaces as an unhandled rejection.',
  ['schedules', 'histories'], 'Every interleaving of start, stop and the completion of the initial requests.',
  'The interleaving of stop with a pending start is not tested.',
  [B + 'experimentClient.ts'], [['running flag and poller', B + 'experimentClient.ts']]);
P('B09', 'User identity is merged with explicit values first and never aliased',
  'The evaluated user takes each field from the explicitly set user first, then the integration, then the user provider, passing over null and undefined values; user properties merge the same way. The client copies the user and its user properties (one level) in and out, so later edits by the caller never change the client state, and evaluation never edits the stored user.',
  ['inputs', 'histories'], 'Every user, provider and integration value and every later mutation by the caller.',
  'Aliasing only shows after a specific later mutation; precedence is per field.',
  [B + 'experimentClient.ts', B + 'util/convert.ts'], [['context merge and copies', B + 'experimentClient.ts']]);
P('B10', 'Configuration defaults apply exactly to what was left unset',
  'A configuration value that is set is honoured and one that is missing or null takes its documented default; the European server zone selects the European servers unless a server was given explicitly; the flag polling interval is never below the documented minimum.',
  ['configurations'], 'Every partial configuration.',
  'Tests cover a few combinations.',
  [B + 'experimentClient.ts', B + 'config.ts'], [['configuration merge in construction', B + 'experimentClient.ts']]);
P('B11', 'Initialising twice returns the same client and never re-configures it',
  'Initialising with the same instance name and deployment returns the existing client unchanged, also when it is initialised through an analytics integration, and different instance names or deployments (names without dots) get different clients. A client initialised through an analytics integration is connected to it exactly once.',
  ['histories', 'configurations'], 'Every sequence of initialisations.',
  'Tests initialise two or three times.',
  [B + 'factory.ts'], [['instance registry', B + 'factory.ts']]);
P('B12', 'Retries are bounded, single and limited to retryable failures',
  'A failed fetch is retried in the background only when retries are enabled and the failure is not a response in the 400 range other than 429, at most eight times with a back-off growing from 500 to 10000 milliseconds. A new fetch or retry sequence ends the previous one, so at most one sequence is ever active.',
  ['fault_sequences', 'schedules'], 'Every sequence of fetch failures and overlapping fetches.',
  'Overlap of fetches with running retries is not tested.',
  [B + 'experimentClient.ts', B + 'util/backoff.ts'], [['stop before start of retries', B + 'experimentClient.ts'], ['attempt counter', B + 'util/backoff.ts']]);
P('B13', 'Fetch and start errors surface only when asked for',
  'A failing fetch or start rejects only when the client is configured to throw on error; otherwise it resolves and lookups keep working from the cache. The outcome of the call never depends on logging.',
  ['fault_sequences', 'configurations'], 'Every failing call below fetch and start.',
  'Tests fail only the top-level request.',
  [B + 'experimentClient.ts'], [['guarded calls', B + 'experimentClient.ts']]);
P('B14', 'Log messages below the configured level are never emitted',
  'A log call reaches the configured log sink if and only if its severity is enabled by the configured log level, with unchanged arguments, and a disabled level emits nothing.',
  ['configurations'], 'Every log level and call severity.',
  'A table of levels by severities, sampled.',
  [B + 'logger/ampLogger.ts', B + 'logger/consoleLogger.ts'], [['level comparison', B + 'logger/ampLogger.ts']]);
P('B15', 'Exposures wait for the integration and are delivered once, in order',
  'An exposure tracked before the analytics integration is ready is queued, bounded, persisted and later delivered exactly once in order; after delivery it is removed from the queue and the persistent copy. Pages which share the queue do not drop what the others have queued. An exposure equal to one already tracked in the session is not tracked again, a change of variant or user is; the record of the session survives reloads.',
  ['histories', 'schedules'], 'Every sequence of exposures, readiness changes and reloads.',
  'Tests run short sequences with a healthy storage.',
  [B + 'integration/manager.ts', B + 'util/userSessionExposureTracker.ts', B + 'util/sessionAnalyticsProvider.ts'], [['persistent queue and session dedupe', B + 'integration/manager.ts']]);
P('B16', 'Cookies collected for targeting are never sent to the server',
  'Cookie contents that are collected for targeting are used for local evaluation only and are removed from every user sent to the server.',
  ['inputs'], 'Every user object and evaluation path.',
  'Only one request shape is tested.',
  [B + 'experimentClient.ts'], [['cookie removal before the request', B + 'experimentClient.ts']]);
P('B17', 'The stub client offers the full API and never acts',
  'The stand-in client used outside the browser accepts every call of the client API, returns empty or unchanged values of the same shape and never touches network, storage or tracking.',
  ['inputs'], 'Every API call.',
  'Only construction is tested.',
  [B + 'stubClient.ts'], [['no-op methods', B + 'stubClient.ts']]);
// ---- segment ----------------------------------------------------------------
P('S01', 'Segment exposures report success only once they were handed over',
  'Tracking through the Segment plugin reports failure until the analytics library is ready, and once it is ready, also when the set-up was skipped, every event is handed to it with its type and properties unchanged and only then reported as success. The user offered to the client always reflects the current Segment identity; a stored identity that cannot be read counts as absent.',
  ['schedules', 'histories'], 'Every moment of tracking relative to library readiness.',
  'Tests cover ready and not-ready only.',
  [G + 'plugin.ts'], [['ready flag', G + 'plugin.ts']]);
// ---- web experimentation tag ------------------------------------------------
P('T01', 'Nothing is read, stored, fetched or applied before consent',
  'While consent is required and not granted, nothing the gate guards is read from or written to the device (local and session storage, cookies) apart from the preview and visual-editor tooling records. What the page stores while consent is pending is held in memory, where only that page can read it; it is handed over when consent is granted, merged with the identity and first-visit time already on the device, and dropped when consent is refused; removals while pending touch only what is held. Starting without consent creates no client, makes no request and changes nothing on the page, and events tracked before consent reach no client.',
  ['histories', 'configurations'], 'Every configuration and consent state at start.',
  'Every effectful call below start must be ordered after the gate; tests sample a few effects.',
  [T + 'consent/consent-gate.ts', T + 'experiment.ts', T + 'index.ts'], [['gate before initialisation', T + 'consent/consent-gate.ts']]);
P('T02', 'Consent state changes follow one fixed state machine',
  'An explicit decision by the site always wins over a remembered or configured default, invalid consent values are ignored, and required consent once observed is not silently dropped. Listeners hear every real change exactly once; when a listener itself changes the status the last change stands. A start put off until consent runs exactly once when consent allows it, with the arguments of the latest call, and never after a refusal.',
  ['histories', 'inputs'], 'Every sequence of consent updates, stored values and configuration.',
  'Tests run selected sequences.',
  [T + 'consent/consent-manager.ts', T + 'consent/consent-cookie-storage.ts'], [['status transitions', T + 'consent/consent-manager.ts']]);
P('T03', 'Withdrawn consent erases everything the tag persisted',
  'A refusal, whether it is there before start, comes while consent is pending, takes a grant back or is repeated, erases every record the product persists for the deployment and instance: local and session storage, and cookies of the host and every parent domain. Records of other deployments, of the site and of the tooling stay, and a removal which fails does not keep the others from being erased. It leaves a marker on the root domain for a year, which makes another subdomain whose copy of the identity is its own erase its data before reading it.',
  ['histories', 'fault_sequences'], 'Every persisted key family and every failing removal.',
  'A key added in one module and not in the sweep is invisible to tests of either.',
  [T + 'consent/clear-data.ts', T + 'util/storage-keys.ts'], [['registered key list swept on denial', T + 'consent/clear-data.ts']]);
P('T04', 'Impressions before consent are buffered, then sent once or discarded',
  'Impressions seen while consent is pending are kept in order up to the documented bound; granting consent delivers each exactly once in order, rejecting it discards all. One failing delivery does not lose the others: what failed is tried again.',
  ['histories', 'schedules'], 'Every sequence of impressions and consent changes.',
  'Tests run short sequences.',
  [T + 'consent/consent-impression-buffer.ts'], [['pending list', T + 'consent/consent-impression-buffer.ts']]);
P('T05', 'Behavioural events are persisted only with consent and stay bounded',
  'Recorded behavioural events stay in memory until persistence is allowed, are merged by identity and in time order with stored events when it is, and are dropped when pending consent is refused. Never more than 500 events are kept, dropping the oldest first; they are written after the documented delay and at once when the page is hidden or unloaded or the storage is cleaned up. Storage failures never escape.',
  ['histories', 'fault_sequences'], 'Every sequence of events, consent changes and storage failures.',
  'Sequences are unbounded.',
  [T + 'behavioral-targeting/event-storage.ts'], [['persistence gate and trim', T + 'behavioral-targeting/event-storage.ts']]);
P('T06', 'Cross-origin relay messages are accepted only from the relay itself',
  'The relay client acts on a message only if it comes from the configured relay origin and from the relay frame it created, and it posts data only to that frame and that origin, never to a wildcard. Requests fail while the relay has not announced itself; events recorded before that are sent once it does, each event is kept and resent until the relay confirms it, and after destruction nothing is sent, heard or scheduled any more.',
  ['inputs', 'schedules', 'histories'], 'Every message event the page can receive and every order of initialisation, recording, answers, timeouts and destruction.',
  'Tests send a few forged messages in a fixed order.',
  [T + 'behavioral-targeting/relay-client.ts'], [['origin and source comparison, pending writes', T + 'behavioral-targeting/relay-client.ts']]);
P('T07', 'Cross-subdomain synchronisation merges both stores without loss or duplicates',
  'After a successful synchronisation with the relay, targeting sees the union of the local and the shared events, one record per event with the copy of the relay winning, in time order and within the bound, and the merge is stored. The relay is given exactly the events it lacks and a bulk migration only for an origin it has not migrated. If the relay is unavailable, fails or answers rubbish, the synchronisation reports failure and the local events stay as they were. Identifiers of later events are fresh, and every event recorded while a relay is attached is handed to it once.',
  ['inputs', 'fault_sequences'], 'Every pair of local and shared contents, every failing request and events recorded while a request is under way.',
  'Tests use one or two events and no failures in the middle.',
  [T + 'behavioral-targeting/event-storage.ts'], [['merge and backfill', T + 'behavioral-targeting/event-storage.ts']]);
P('T08', 'Editor channel talks only to trusted Amplitude origins',
  'The visual editor channel loads code only from an https address on a sub-domain of amplitude.com, whether named by a message or by a stored session, and reacts to a message only if its origin is a sub-domain of amplitude.com, never a look-alike host. While one script is being loaded or is loaded no second one is loaded; after a failed load a new message may load again.',
  ['inputs', 'histories'], 'Every origin, script address, stored session and sequence of messages.',
  'Origins are unbounded; tests try a few.',
  [T + 'util/messenger.ts'], [['origin pattern and state', T + 'util/messenger.ts']]);
P('T09', 'The page is never left hidden',
  'Whenever the anti-flicker style is installed the page is hidden until it is removed, at most one second, and other styles of the page stay as they are. When the start-up ends, also by a failing configuration request, client creation or start, neither that style nor the style of the site snippet is left, except that a redirect under way keeps the page hidden; in preview mode or under the extension the latest configuration is fetched first and a client is created also when that fails.',
  ['fault_sequences', 'histories'], 'Every path through start-up, with every call on it failing or not.',
  'Error exits are not enumerated by tests.',
  [T + 'index.ts', T + 'experiment.ts', T + 'util/anti-flicker.ts'], [['removal on exit paths', T + 'index.ts']]);
P('T10', 'Redirects never loop and never swallow the impression',
  'A variant\'s redirect is performed only where the page of its flag is active and the address is not already the destination (the fragment counts only when the redirect names one), once, and never while another redirect is in flight; its target is the configured URL plus the current query parameters it does not set itself. A visitor sent back to the source without having interacted (pointer, key or back/forward) and without having landed first is not redirected again by that flag for the session, so redirects never loop; a navigation which fails leaves nothing behind. The impression is stored before navigating (in the session and, where configured for another subdomain, in a cookie or the URL, whatever the metadata holds) and is sent exactly once, with the variant which redirected: on landing at the target, or at most half a second after the first page which sees it.',
  ['histories', 'inputs'], 'Every redirect configuration and page history.',
  'Loops need several page loads.',
  [T + 'experiment.ts'], [['redirect marker and suppression', T + 'experiment.ts']]);
P('T11', 'Every applied change can be reverted and is applied once',
  'Applying variants puts every change of the assigned variant whose page scope is active on the page, once, under its flag; a change already present for the same variant is not applied again, and when another variant takes over, or the flag is turned off, reverted or previewed, exactly the changes of that flag are taken back, each once: mutations are undone, injected scripts, elements and style sheets removed and their clean-up called. An exposure is sent once per page address and variant, when one of its changes is on an active page. Changes made by an injection after the page has been left are taken back as well.',
  ['histories'], 'Every sequence of apply and revert calls.',
  'Sequences are unbounded; tests apply and revert once.',
  [T + 'experiment.ts', T + 'util/inject-utils.ts'], [['applied-change registry', T + 'experiment.ts']]);
P('T12', 'Variant actions run only on active pages',
  'At any time the active pages are exactly those whose trigger has fired (URL change, manual toggle, analytics event, time on page, click, hover or focus, exit intent, element appeared or visible, scroll) and whose URL conditions hold; every trigger other than the URL starts over on a new address. The changes on the page are those of the variants whose page scope is active: they are applied when it becomes active and taken back, once, when it no longer is; injections run afresh on a new address, exposures are sent once per page address and variant, and page-change subscribers are told exactly when the set of active pages changed.',
  ['histories'], 'Every sequence of page activations.',
  'Sequences are unbounded.',
  [T + 'subscriptions/subscriptions.ts', T + 'experiment.ts'], [['active page bookkeeping', T + 'subscriptions/subscriptions.ts']]);
P('T13', 'Behavioural targeting rules combine exactly as configured',
  'A behavioural rule set matches when some group has all its conditions true, each condition negated when marked so; counts compare in the documented direction over events of the right type, filters and time window only (an event exactly at the edge of the window counts). The matched set is brought up to date at the start and by each recorded event that some rule refers to.',
  ['inputs', 'histories'], 'Every rule set and event history.',
  'Tests sample rules and histories.',
  [T + 'behavioral-targeting/evaluator.ts'], [['rule evaluation', T + 'behavioral-targeting/evaluator.ts']]);
P('T15', 'Trigger messages reach every subscriber, in order, without interference',
  'Publishing a trigger calls every subscriber of its type exactly once with the payload, in subscription order, and then the group callback of that type; nothing is called after everything was unsubscribed.',
  ['histories'], 'Every set of subscriptions and published payloads.',
  'Tests use one or two subscribers.',
  [T + 'subscriptions/message-bus.ts'], [['subscriber groups', T + 'subscriptions/message-bus.ts']]);
P('T16', 'Tag configuration merges page, snippet and defaults in order',
  'A setting given on the page wins over one given by the snippet and that over the built-in default, field by field for consent options, and both the client and its session run on the merged settings; an invalid consent status counts as pending.',
  ['configurations'], 'Every combination of the three layers.',
  'Combinations are sampled.',
  [T + 'util/config.ts', T + 'experiment.ts', T + 'index.ts'], [['layered merge', T + 'experiment.ts']]);
P('T17', 'A session rotates after inactivity and only then',
  'The behavioural session continues while activity arrives within the timeout and otherwise starts a new one, and its identity is persisted only when persistence is allowed.',
  ['schedules', 'histories'], 'Every sequence of activity times and consent changes.',
  'Time sequences are unbounded.',
  [T + 'behavioral-targeting/session-manager.ts'], [['activity timestamp comparison', T + 'behavioral-targeting/session-manager.ts']]);
// ---- outside the reach of static analysis ------------------------------------
P('N01', 'Hash values match the server implementation bit for bit',
  'The bucketing hash of a string equals the value every other Amplitude SDK computes for it, for all strings including non-ASCII ones.',
  ['inputs'], 'Every string.', 'Tests compare listed vectors.',
  [K + 'evaluation/murmur3.ts'], [['hash function', K + 'evaluation/murmur3.ts']]);
P('N03', 'Retry delays grow within the configured limits in real time',
  'Successive retries wait at least the configured minimum, grow by the configured factor and never exceed the maximum, measured in real time.',
  ['schedules'], 'Every retry sequence on every clock.', 'Tests measure coarse elapsed time.',
  [B + 'util/backoff.ts'], [['delay computation', B + 'util/backoff.ts']]);
fs.writeFileSync(path.join(__dirname, '../properties.jsonl'), out.map((x) => JSON.stringify(x)).join('\n') + '\n');
console.log(out.length, 'properties', out.filter((p) => p.title.length > 80).map((p) => p.id));
