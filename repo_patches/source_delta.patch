From 7a4f4343de73eb5d3021a594d3342d8837fa3384 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:07:12 +0000
Subject: [PATCH 01/17] fix: editing an identity must not change committed or
 passed-in user properties

---
 packages/analytics-connector/src/identityStore.ts | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/packages/analytics-connector/src/identityStore.ts b/packages/analytics-connector/src/identityStore.ts
index 1689594..721df0a 100644
--- a/packages/analytics-connector/src/identityStore.ts
+++ b/packages/analytics-connector/src/identityStore.ts
@@ -83,7 +83,7 @@ export class IdentityStoreImpl implements IdentityStore {
       updateUserProperties: function (
         actions: Record<string, Record<string, unknown>>,
       ): IdentityEditor {
-        let actingProperties = actingIdentity.userProperties || {};
+        let actingProperties = { ...actingIdentity.userProperties };
         for (const [action, properties] of Object.entries(actions)) {
           switch (action) {
             case ID_OP_SET:
-- 
2.43.0


From c2fdfebaabb16a2a3beec53f9508e1431016c879 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:18:54 +0000
Subject: [PATCH 02/17] fix: a stop during start must not be undone when the
 start completes

---
 packages/experiment-browser/src/experimentClient.ts | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/packages/experiment-browser/src/experimentClient.ts b/packages/experiment-browser/src/experimentClient.ts
index 4462b2c..0e66d7c 100644
--- a/packages/experiment-browser/src/experimentClient.ts
+++ b/packages/experiment-browser/src/experimentClient.ts
@@ -271,7 +271,8 @@ export class ExperimentClient implements Client {
       // Otherwise, silently handle the error (existing behavior)
     }
 
-    if (this.config.pollOnStart) {
+    // The client may have been stopped while the start was in progress.
+    if (this.config.pollOnStart && this.isRunning) {
       this.poller.start();
     }
   }
-- 
2.43.0


From 1f181dc34efed18f9d97163e26b79c796b02d5f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:24:53 +0000
Subject: [PATCH 03/17] fix: a failed fetch must replace active retries, not
 add to them

---
 packages/experiment-browser/src/experimentClient.ts | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/packages/experiment-browser/src/experimentClient.ts b/packages/experiment-browser/src/experimentClient.ts
index 0e66d7c..c53de44 100644
--- a/packages/experiment-browser/src/experimentClient.ts
+++ b/packages/experiment-browser/src/experimentClient.ts
@@ -868,6 +868,8 @@ export class ExperimentClient implements Client {
     options: FetchOptions,
   ): Promise<void> {
     this.logger.debug('[Experiment] Retry fetch');
+    // Overlapping fetches may both fail, only the latest retries stay active.
+    this.stopRetries();
     this.retriesBackoff = new Backoff(
       fetchBackoffAttempts,
       fetchBackoffMinMillis,
-- 
2.43.0


From 8eaef12163af175eee7b9e06e2ac727f424cde3a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:51:22 +0000
Subject: [PATCH 04/17] fix: tracking an exposure must not alter the cached
 variant

---
 packages/experiment-browser/src/experimentClient.ts | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/packages/experiment-browser/src/experimentClient.ts b/packages/experiment-browser/src/experimentClient.ts
index c53de44..a923317 100644
--- a/packages/experiment-browser/src/experimentClient.ts
+++ b/packages/experiment-browser/src/experimentClient.ts
@@ -958,7 +958,8 @@ export class ExperimentClient implements Client {
       }
     }
 
-    if (metadata) exposure.metadata = metadata;
+    // Copy the metadata, the exposure must not alter the variant.
+    if (metadata) exposure.metadata = { ...metadata };
     if (this.isWebExperiment) {
       exposure.time = Date.now();
     }
-- 
2.43.0


From ffe598dbeacc6c11ec60a72ec232ef73aa6f2d8c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:53:58 +0000
Subject: [PATCH 05/17] fix: copy the properties of the first user set

---
 packages/experiment-browser/src/experimentClient.ts | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/packages/experiment-browser/src/experimentClient.ts b/packages/experiment-browser/src/experimentClient.ts
index a923317..1628f17 100644
--- a/packages/experiment-browser/src/experimentClient.ts
+++ b/packages/experiment-browser/src/experimentClient.ts
@@ -455,7 +455,7 @@ export class ExperimentClient implements Client {
       this.user = null;
       return;
     }
-    if (this.user?.user_properties) {
+    if (user.user_properties) {
       const userPropertiesCopy = { ...user.user_properties };
       this.user = { ...user, user_properties: userPropertiesCopy };
     } else {
-- 
2.43.0


From 4a92c7baad892a67a4a5e3ee389f14ef52d6c382 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:55:06 +0000
Subject: [PATCH 06/17] fix: fall back on the provider for null and undefined
 user fields

---
 packages/experiment-browser/src/experimentClient.ts | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/packages/experiment-browser/src/experimentClient.ts b/packages/experiment-browser/src/experimentClient.ts
index 1628f17..5dc18bb 100644
--- a/packages/experiment-browser/src/experimentClient.ts
+++ b/packages/experiment-browser/src/experimentClient.ts
@@ -897,9 +897,10 @@ export class ExperimentClient implements Client {
     };
     return {
       library: `experiment-js-client/${PACKAGE_VERSION}`,
-      ...providedUser,
-      ...integrationUser,
-      ...user,
+      // Null and undefined fields fall back on the next source.
+      ...filterNullUndefined(providedUser),
+      ...filterNullUndefined(integrationUser),
+      ...filterNullUndefined(user),
       user_properties: mergedUserProperties,
     };
   }
-- 
2.43.0


From a58fafe7a424d99a995f97c3e23ad6daa4411579 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:27:44 +0000
Subject: [PATCH 07/17] fix: storage failures must not break exposure tracking

---
 .../src/integration/manager.ts                | 86 ++++++++++++-------
 1 file changed, 55 insertions(+), 31 deletions(-)

diff --git a/packages/experiment-browser/src/integration/manager.ts b/packages/experiment-browser/src/integration/manager.ts
index e39d5b2..c15caf7 100644
--- a/packages/experiment-browser/src/integration/manager.ts
+++ b/packages/experiment-browser/src/integration/manager.ts
@@ -133,18 +133,17 @@ export class IntegrationManager {
 
 export class SessionDedupeCache {
   private readonly storageKey: string;
-  private readonly isSessionStorageAvailable = checkIsSessionStorageAvailable();
+  private isSessionStorageAvailable = checkIsSessionStorageAvailable();
   private inMemoryCache: Record<string, string | null> = {};
   private identity: Identity = {};
 
   constructor(instanceName: string) {
     this.storageKey = `EXP_sent_v3_${instanceName}`;
     // Remove previous versions of storage if they exist.
-    const sessionStorage = getSessionStorage();
-    if (this.isSessionStorageAvailable && sessionStorage) {
+    this.useStorage((sessionStorage) => {
       sessionStorage.removeItem(`EXP_sent_${instanceName}`);
       sessionStorage.removeItem(`EXP_sent_v2_${instanceName}`);
-    }
+    });
   }
 
   shouldTrack(exposure: Exposure, user?: ExperimentUser): boolean {
@@ -181,10 +180,9 @@ export class SessionDedupeCache {
 
   private clearCache(): void {
     this.inMemoryCache = {};
-    const sessionStorage = getSessionStorage();
-    if (this.isSessionStorageAvailable && sessionStorage) {
+    this.useStorage((sessionStorage) => {
       sessionStorage.removeItem(this.storageKey);
-    }
+    });
   }
 
   private identityEquals(id1: Identity, id2: Identity): boolean {
@@ -198,25 +196,33 @@ export class SessionDedupeCache {
   }
 
   private loadCache(): void {
-    const sessionStorage = getSessionStorage();
-    if (this.isSessionStorageAvailable && sessionStorage) {
-      const storedCache = sessionStorage.getItem(this.storageKey);
-      this.inMemoryCache = storedCache ? JSON.parse(storedCache) : {};
-    }
+    this.useStorage((sessionStorage) => {
+      const storedCache = parseStored(sessionStorage.getItem(this.storageKey));
+      this.inMemoryCache =
+        storedCache && typeof storedCache === 'object'
+          ? (storedCache as Record<string, string | null>)
+          : {};
+    });
   }
 
   private storeCache(): void {
-    const sessionStorage = getSessionStorage();
-    if (this.isSessionStorageAvailable && sessionStorage) {
-      try {
-        sessionStorage.setItem(
-          this.storageKey,
-          JSON.stringify(this.inMemoryCache),
-        );
-      } catch (e) {
-        // Gracefully handle QuotaExceededError or other storage errors.
-        // The in-memory cache will still work for deduplication within this session.
-      }
+    this.useStorage((sessionStorage) => {
+      sessionStorage.setItem(
+        this.storageKey,
+        JSON.stringify(this.inMemoryCache),
+      );
+    });
+  }
+
+  private useStorage(use: (sessionStorage: Storage) => void): void {
+    if (!this.isSessionStorageAvailable) return;
+    try {
+      const sessionStorage = getSessionStorage();
+      if (sessionStorage) use(sessionStorage);
+    } catch (e) {
+      // Gracefully handle QuotaExceededError or other storage errors.
+      // The in-memory cache will still work for deduplication within this session.
+      this.isSessionStorageAvailable = false;
     }
   }
 }
@@ -224,7 +230,7 @@ export class SessionDedupeCache {
 export class PersistentTrackingQueue {
   private readonly storageKey: string;
   private readonly maxQueueSize: number;
-  private readonly isLocalStorageAvailable = isLocalStorageAvailable();
+  private isLocalStorageAvailable = isLocalStorageAvailable();
   private inMemoryQueue: ExperimentEvent[] = [];
   private poller: any | undefined;
   private tracker: ((event: ExperimentEvent) => boolean) | undefined;
@@ -276,16 +282,14 @@ export class PersistentTrackingQueue {
   }
 
   private loadQueue(): void {
-    const localStorage = getLocalStorage();
-    if (this.isLocalStorageAvailable && localStorage) {
-      const storedQueue = localStorage.getItem(this.storageKey);
-      this.inMemoryQueue = storedQueue ? JSON.parse(storedQueue) : [];
-    }
+    this.useStorage((localStorage) => {
+      const storedQueue = parseStored(localStorage.getItem(this.storageKey));
+      this.inMemoryQueue = Array.isArray(storedQueue) ? storedQueue : [];
+    });
   }
 
   private storeQueue(): void {
-    const localStorage = getLocalStorage();
-    if (this.isLocalStorageAvailable && localStorage) {
+    this.useStorage((localStorage) => {
       // Trim the queue if it is too large.
       if (this.inMemoryQueue.length > this.maxQueueSize) {
         this.inMemoryQueue = this.inMemoryQueue.slice(
@@ -293,6 +297,17 @@ export class PersistentTrackingQueue {
         );
       }
       localStorage.setItem(this.storageKey, JSON.stringify(this.inMemoryQueue));
+    });
+  }
+
+  private useStorage(use: (localStorage: Storage) => void): void {
+    if (!this.isLocalStorageAvailable) return;
+    try {
+      const localStorage = getLocalStorage();
+      if (localStorage) use(localStorage);
+    } catch (e) {
+      // Carry on with the in-memory queue if the storage fails.
+      this.isLocalStorageAvailable = false;
     }
   }
 
@@ -303,6 +318,15 @@ export class PersistentTrackingQueue {
   }
 }
 
+// Stored contents which are not valid JSON are ignored.
+const parseStored = (value: string | null): unknown => {
+  try {
+    return JSON.parse(value);
+  } catch (e) {
+    return undefined;
+  }
+};
+
 const checkIsSessionStorageAvailable = (): boolean => {
   const globalScope = getGlobalScope();
   if (globalScope) {
-- 
2.43.0


From 449b3f573674e90f0a8e735ebad53f87a28bab24 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:27:44 +0000
Subject: [PATCH 08/17] fix: a storage failure must not reject
 setTracksAssignment

---
 packages/experiment-browser/src/experimentClient.ts | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/packages/experiment-browser/src/experimentClient.ts b/packages/experiment-browser/src/experimentClient.ts
index 5dc18bb..0c6d3c0 100644
--- a/packages/experiment-browser/src/experimentClient.ts
+++ b/packages/experiment-browser/src/experimentClient.ts
@@ -772,7 +772,11 @@ export class ExperimentClient implements Client {
       ...(this.fetchVariantsOptions.get() || {}),
       trackingOption: doTrack ? 'track' : 'no-track',
     });
-    this.fetchVariantsOptions.store();
+    try {
+      this.fetchVariantsOptions.store();
+    } catch (e) {
+      // catch localStorage undefined error
+    }
   }
 
   private cleanUserPropsForFetch(user: ExperimentUser): ExperimentUser {
-- 
2.43.0


From 0ec4e6f7400b0747f8add131ab94294fc273be5a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:27:44 +0000
Subject: [PATCH 09/17] fix: bound the exposure queue when local storage is
 unavailable

---
 .../experiment-browser/src/integration/manager.ts    | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/packages/experiment-browser/src/integration/manager.ts b/packages/experiment-browser/src/integration/manager.ts
index c15caf7..7fc8bd9 100644
--- a/packages/experiment-browser/src/integration/manager.ts
+++ b/packages/experiment-browser/src/integration/manager.ts
@@ -289,13 +289,13 @@ export class PersistentTrackingQueue {
   }
 
   private storeQueue(): void {
+    // Trim the queue if it is too large.
+    if (this.inMemoryQueue.length > this.maxQueueSize) {
+      this.inMemoryQueue = this.inMemoryQueue.slice(
+        this.inMemoryQueue.length - this.maxQueueSize,
+      );
+    }
     this.useStorage((localStorage) => {
-      // Trim the queue if it is too large.
-      if (this.inMemoryQueue.length > this.maxQueueSize) {
-        this.inMemoryQueue = this.inMemoryQueue.slice(
-          this.inMemoryQueue.length - this.maxQueueSize,
-        );
-      }
       localStorage.setItem(this.storageKey, JSON.stringify(this.inMemoryQueue));
     });
   }
-- 
2.43.0


From 6469571725ad029fe22cb026cc1b7e623ce7d6d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:44:12 +0000
Subject: [PATCH 10/17] fix: ignore a stored session record which is not an
 object

---
 packages/experiment-browser/src/integration/manager.ts | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/packages/experiment-browser/src/integration/manager.ts b/packages/experiment-browser/src/integration/manager.ts
index 7fc8bd9..9b65a41 100644
--- a/packages/experiment-browser/src/integration/manager.ts
+++ b/packages/experiment-browser/src/integration/manager.ts
@@ -199,7 +199,9 @@ export class SessionDedupeCache {
     this.useStorage((sessionStorage) => {
       const storedCache = parseStored(sessionStorage.getItem(this.storageKey));
       this.inMemoryCache =
-        storedCache && typeof storedCache === 'object'
+        storedCache &&
+        typeof storedCache === 'object' &&
+        !Array.isArray(storedCache)
           ? (storedCache as Record<string, string | null>)
           : {};
     });
-- 
2.43.0


From a2b797a11685ee26a915bbd4992f215ef78e1a41 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:23:39 +0000
Subject: [PATCH 11/17] fix: unreadable segment storage must not break the user
 lookup

---
 packages/plugin-segment/src/plugin.ts | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/packages/plugin-segment/src/plugin.ts b/packages/plugin-segment/src/plugin.ts
index 8a9c410..fc37b93 100644
--- a/packages/plugin-segment/src/plugin.ts
+++ b/packages/plugin-segment/src/plugin.ts
@@ -60,9 +60,14 @@ export const segmentIntegrationPlugin: SegmentIntegrationPlugin = (
         };
       }
       const get = (key: string) => {
-        const localStorage = getLocalStorage();
-        if (!localStorage) return undefined;
-        return JSON.parse(localStorage.getItem(key)) || undefined;
+        try {
+          const localStorage = getLocalStorage();
+          if (!localStorage) return undefined;
+          return JSON.parse(localStorage.getItem(key)) || undefined;
+        } catch (e) {
+          // Storage which is blocked, or not written by the segment SDK.
+          return undefined;
+        }
       };
       return {
         user_id: get('ajs_user_id'),
-- 
2.43.0


From aed0ceb00187bd2285c73fb7dc60022b99757ac4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:23:39 +0000
Subject: [PATCH 12/17] fix: track to segment once it is ready when set-up is
 skipped

---
 packages/plugin-segment/src/plugin.ts | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/packages/plugin-segment/src/plugin.ts b/packages/plugin-segment/src/plugin.ts
index fc37b93..c58d0d8 100644
--- a/packages/plugin-segment/src/plugin.ts
+++ b/packages/plugin-segment/src/plugin.ts
@@ -21,7 +21,7 @@ export const segmentIntegrationPlugin: SegmentIntegrationPlugin = (
   };
   getInstance();
   let ready = false;
-  const plugin: IntegrationPlugin = {
+  const plugin: IntegrationPlugin & { setup?: () => Promise<void> } = {
     name: '@amplitude/experiment-plugin-segment',
     type: 'integration',
     setup(): Promise<void> {
@@ -83,6 +83,8 @@ export const segmentIntegrationPlugin: SegmentIntegrationPlugin = (
     },
   };
   if (options.skipSetup) {
+    // The client does not wait, but events are tracked once segment is ready.
+    void plugin.setup();
     plugin.setup = undefined;
   }
 
-- 
2.43.0


From a3b8c3c1729204a292ea87ace6845ffca9679f40 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:41:33 +0000
Subject: [PATCH 13/17] fix: skip damaged records when loading stored
 behavioral events

---
 .../experiment-tag/src/behavioral-targeting/event-storage.ts | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/packages/experiment-tag/src/behavioral-targeting/event-storage.ts b/packages/experiment-tag/src/behavioral-targeting/event-storage.ts
index 157c2b1..147e845 100644
--- a/packages/experiment-tag/src/behavioral-targeting/event-storage.ts
+++ b/packages/experiment-tag/src/behavioral-targeting/event-storage.ts
@@ -346,6 +346,11 @@ export class EventStorageManager {
       Array.isArray(parsed.events) &&
       typeof parsed.nextId === 'number'
     ) {
+      // Skip entries that are not records, so one damaged entry cannot keep the
+      // client from starting.
+      parsed.events = parsed.events.filter(
+        (event) => typeof event === 'object' && event !== null,
+      );
       // Backfill a uuid for any record persisted before uuid existed, so
       // each keeps a distinct dedup identity (see eventDedupKey). Without
       // this, uuid-less records share an undefined key and all but one
-- 
2.43.0


From 1c8fe8c1ff4cd85ebe4347c7e40d2576d4663514 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:22:23 +0000
Subject: [PATCH 14/17] fix: reveal the page when the web experiment client
 cannot be created

---
 packages/experiment-tag/src/index.ts | 17 ++++++++++++-----
 1 file changed, 12 insertions(+), 5 deletions(-)

diff --git a/packages/experiment-tag/src/index.ts b/packages/experiment-tag/src/index.ts
index a815cf2..7072afb 100644
--- a/packages/experiment-tag/src/index.ts
+++ b/packages/experiment-tag/src/index.ts
@@ -194,11 +194,18 @@ const startClient = (
   initConfigs: InitConfigs,
   config: WebExperimentConfig,
 ): Promise<void> => {
-  const client = DefaultWebExperimentClient.getInstance(
-    apiKey,
-    initConfigs,
-    config,
-  );
+  let client: DefaultWebExperimentClient;
+  try {
+    client = DefaultWebExperimentClient.getInstance(
+      apiKey,
+      initConfigs,
+      config,
+    );
+  } catch (error) {
+    // No client means no start() to settle: reveal the page here.
+    removeAntiFlickerCss();
+    throw error;
+  }
   return client.start().finally(() => {
     // Don't tear down anti-flicker while a redirect is in-flight. start()
     // resolves immediately after location.replace() is called, but the browser
-- 
2.43.0


From 0ce44ed744051e430915facec136e4ada89d4d7f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:54:11 +0000
Subject: [PATCH 15/17] fix: take back an injection whose page is no longer
 active

---
 packages/experiment-tag/src/experiment.ts | 28 +++++++++++++++++------
 1 file changed, 21 insertions(+), 7 deletions(-)

diff --git a/packages/experiment-tag/src/experiment.ts b/packages/experiment-tag/src/experiment.ts
index 6ea4edf..c1ca737 100644
--- a/packages/experiment-tag/src/experiment.ts
+++ b/packages/experiment-tag/src/experiment.ts
@@ -1698,19 +1698,33 @@ export class DefaultWebExperimentClient implements WebExperimentClient {
   private handleInject(action, flagKey: string, variant: Variant) {
     const variantKey = variant.key || '';
 
-    if (!this.isActionActiveOnPage(flagKey, action?.data?.scope)) {
-      this.appliedMutations[flagKey]?.[variantKey]?.[
-        INJECT_ACTION
-      ]?.[0]?.revert();
-      return;
-    }
     // Validate and transform ID
-    const rawId = action.data.id;
+    const rawId = action?.data?.id;
     if (!rawId || typeof rawId !== 'string' || rawId.length === 0) {
       return;
     }
     // Replace the `-` characters in the UUID to support function name
     const id = rawId.replace(/-/g, '');
+    if (!this.isActionActiveOnPage(flagKey, action.data.scope)) {
+      // Revert and delete the injection if it exists
+      const variantMap = this.appliedMutations[flagKey];
+      const injections = variantMap?.[variantKey]?.[INJECT_ACTION];
+      if (injections?.[id]) {
+        injections[id].revert();
+        delete injections[id];
+        // Delete empty objects safely
+        if (Object.keys(injections).length === 0) {
+          delete variantMap[variantKey][INJECT_ACTION];
+        }
+        if (Object.keys(variantMap[variantKey]).length === 0) {
+          delete variantMap[variantKey];
+        }
+        if (Object.keys(variantMap).length === 0) {
+          delete this.appliedMutations[flagKey];
+        }
+      }
+      return;
+    }
     // Check for repeat invocations
     if (this.appliedInjections.has(id)) {
       return;
-- 
2.43.0


From 4708c959c16b99363b900e8dd2ab93b3348d78d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:09:44 +0000
Subject: [PATCH 16/17] fix: encode redirect impressions whose metadata is not
 Latin-1

---
 packages/experiment-tag/src/experiment.ts | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/packages/experiment-tag/src/experiment.ts b/packages/experiment-tag/src/experiment.ts
index c1ca737..fe812f7 100644
--- a/packages/experiment-tag/src/experiment.ts
+++ b/packages/experiment-tag/src/experiment.ts
@@ -1407,10 +1407,12 @@ export class DefaultWebExperimentClient implements WebExperimentClient {
           ? { metadata: variant.metadata }
           : {}),
       };
-      targetUrlObj.searchParams.set(
-        REDIRECT_IMPRESSION_PARAM,
-        btoa(JSON.stringify(urlPayload)),
+      // btoa() only takes Latin-1, so escape the rest (e.g. names in metadata)
+      const json = JSON.stringify(urlPayload).replace(
+        /[\u0100-\uffff]/g,
+        (char) => `\\u${char.charCodeAt(0).toString(16).padStart(4, '0')}`,
       );
+      targetUrlObj.searchParams.set(REDIRECT_IMPRESSION_PARAM, btoa(json));
       targetUrl = targetUrlObj.toString();
     }
 
-- 
2.43.0


From a7e2a0b198054eb59cf41ba4e7bf357689a4f40c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:26:16 +0000
Subject: [PATCH 17/17] fix: send the impression of every redirect once

---
 packages/experiment-tag/src/experiment.ts | 87 +++++++++++++++--------
 1 file changed, 58 insertions(+), 29 deletions(-)

diff --git a/packages/experiment-tag/src/experiment.ts b/packages/experiment-tag/src/experiment.ts
index fe812f7..3fd46e5 100644
--- a/packages/experiment-tag/src/experiment.ts
+++ b/packages/experiment-tag/src/experiment.ts
@@ -303,6 +303,9 @@ export class DefaultWebExperimentClient implements WebExperimentClient {
   // tearing the overlay down before the navigation commits flashes the source page.
   public isRedirecting = false;
   private customRedirectHandler: ((url: string) => void) | undefined;
+  // redirect impressions that are sent shortly, unless their page is reached first
+  private pendingRedirectImpressions: Record<string, StoredRedirectImpression> =
+    {};
   public isRunning = false;
   private readonly messageBus: MessageBus;
   private pageObjects: PageObjects;
@@ -1953,6 +1956,7 @@ export class DefaultWebExperimentClient implements WebExperimentClient {
       >({
         ...(domain && { domain }),
         sameSite: 'Lax',
+        expirationDays: 1 / 1440, // 1 minute
       });
       try {
         cookieImpressions = (await cookieStorage.get(storageKey)) || {};
@@ -1979,46 +1983,71 @@ export class DefaultWebExperimentClient implements WebExperimentClient {
       this.globalScope.location.href,
     );
 
-    for (const flagKey in merged) {
-      const { redirectUrl, variantKey, expKey, metadata } = merged[flagKey];
-      if (matchesUrl([currentUrl], urlWithoutParamsAndAnchor(redirectUrl))) {
-        this.exposureWithDedupe(
-          flagKey,
-          { key: variantKey, expKey, metadata },
-          true,
-        );
-        delete merged[flagKey];
+    // Forget only what was sent: storage may hold the impression of another
+    // redirect by then, which is still to be sent on its target.
+    const cleanup = async (sent: string[]) => {
+      const stored =
+        getStorageItem<Record<string, StoredRedirectImpression>>(
+          'sessionStorage',
+          storageKey,
+        ) || {};
+      sent.forEach((flagKey) => delete stored[flagKey]);
+      if (Object.keys(stored).length > 0) {
+        setStorageItem('sessionStorage', storageKey, stored);
+      } else {
+        removeStorageItem('sessionStorage', storageKey);
       }
-    }
-
-    const cleanup = async () => {
-      removeStorageItem('sessionStorage', storageKey);
       if (cookieStorage) {
-        await cookieStorage.remove(storageKey).catch((error) => {
+        try {
+          const cookies = (await cookieStorage.get(storageKey)) || {};
+          sent.forEach((flagKey) => delete cookies[flagKey]);
+          if (Object.keys(cookies).length > 0) {
+            await cookieStorage.set(storageKey, cookies);
+          } else {
+            await cookieStorage.remove(storageKey);
+          }
+        } catch (error) {
           console.error(
             `Failed to remove redirect impressions from cookie ${storageKey}:`,
             error,
           );
-        });
+        }
       }
     };
+    const send = (flagKey: string, impression: StoredRedirectImpression) => {
+      const { variantKey, expKey, metadata } = impression;
+      this.exposureWithDedupe(
+        flagKey,
+        { key: variantKey, expKey, metadata },
+        true,
+      );
+      delete this.pendingRedirectImpressions[flagKey];
+    };
+
+    const landed: string[] = [];
+    const waiting: string[] = [];
+    for (const flagKey in merged) {
+      const { redirectUrl } = merged[flagKey];
+      if (matchesUrl([currentUrl], urlWithoutParamsAndAnchor(redirectUrl))) {
+        send(flagKey, merged[flagKey]);
+        landed.push(flagKey);
+      } else if (!(flagKey in this.pendingRedirectImpressions)) {
+        this.pendingRedirectImpressions[flagKey] = merged[flagKey];
+        waiting.push(flagKey);
+      }
+    }
 
-    if (Object.keys(merged).length > 0) {
+    if (waiting.length > 0) {
       this.globalScope.setTimeout(() => {
-        void (async () => {
-          for (const flagKey in merged) {
-            const { variantKey, expKey, metadata } = merged[flagKey];
-            this.exposureWithDedupe(
-              flagKey,
-              { key: variantKey, expKey, metadata },
-              true,
-            );
-          }
-          await cleanup();
-        })();
+        const due = waiting.filter(
+          (flagKey) => flagKey in this.pendingRedirectImpressions,
+        );
+        due.forEach((flagKey) => send(flagKey, merged[flagKey]));
+        void cleanup(due);
       }, 500);
-    } else {
-      await cleanup();
+    }
+    if (landed.length > 0) {
+      await cleanup(landed);
     }
   }
 
-- 
2.43.0

