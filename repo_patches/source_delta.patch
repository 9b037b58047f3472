From 5bce41f92ba4390df7dff23beb5ac90521bc8e77 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 20:04:33 +0000
Subject: [PATCH 01/14] fix: give every option of a list its own id

The id was a hash of the label followed by the index, so label '11' at
index 9 and label '1' at index 19 got the same id and selecting one
selected the other.
---
 .../src/composables/option-list/option-list-composable.ts       | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/packages/vlossom/src/composables/option-list/option-list-composable.ts b/packages/vlossom/src/composables/option-list/option-list-composable.ts
index 3a0a737..472c733 100644
--- a/packages/vlossom/src/composables/option-list/option-list-composable.ts
+++ b/packages/vlossom/src/composables/option-list/option-list-composable.ts
@@ -16,7 +16,7 @@ export function useOptionList(
             const value = getOptionValue(option);
 
             return {
-                id: stringUtil.hash(label + index), // unique id for each option
+                id: `${stringUtil.hash(label)}-${index}`, // unique id for each option
                 item: option,
                 label,
                 value,
-- 
2.43.0


From 064a463bf803ad156a16f3c35aa676a0a113c847 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 20:04:33 +0000
Subject: [PATCH 02/14] fix: keep a falsy value that is still among the new
 options

The option found was tested for truthiness, so a selected 0, false or ''
was cleared whenever the options changed.
---
 .../src/composables/input-option/input-option-composable.ts   | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/packages/vlossom/src/composables/input-option/input-option-composable.ts b/packages/vlossom/src/composables/input-option/input-option-composable.ts
index eb109f1..352ada1 100644
--- a/packages/vlossom/src/composables/input-option/input-option-composable.ts
+++ b/packages/vlossom/src/composables/input-option/input-option-composable.ts
@@ -21,9 +21,9 @@ export function useInputOption(
                 return newOptions.some((o) => objectUtil.isEqual(getOptionValue(o), value));
             });
         } else {
-            const option = newOptions.find((o) => objectUtil.isEqual(getOptionValue(o), inputValue.value));
+            const isOffered = newOptions.some((o) => objectUtil.isEqual(getOptionValue(o), inputValue.value));
 
-            if (!option) {
+            if (!isOffered) {
                 inputValue.value = null;
             }
         }
-- 
2.43.0


From 04365816e671482dccf27cea76c60d1901767884 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 20:27:14 +0000
Subject: [PATCH 03/14] fix: drop messages of a check that a newer check has
 overtaken

---
 .../composables/input-messages/input-messages-composable.ts  | 5 +++++
 .../src/composables/input-rules/input-rules-composable.ts    | 5 +++++
 2 files changed, 10 insertions(+)

diff --git a/packages/vlossom/src/composables/input-messages/input-messages-composable.ts b/packages/vlossom/src/composables/input-messages/input-messages-composable.ts
index cd08555..64b76be 100644
--- a/packages/vlossom/src/composables/input-messages/input-messages-composable.ts
+++ b/packages/vlossom/src/composables/input-messages/input-messages-composable.ts
@@ -9,7 +9,9 @@ export function useInputMessages<T>(
     const innerMessages: Ref<StateMessage[]> = ref([]);
     const showRuleMessages = ref(false);
 
+    let lastCheck = 0;
     async function checkMessages() {
+        const currentCheck = ++lastCheck;
         innerMessages.value = [];
         const pendingMessages: Promise<StateMessage>[] = [];
 
@@ -30,6 +32,9 @@ export function useInputMessages<T>(
             return;
         }
         const resolvedMessages = await Promise.all(pendingMessages);
+        if (currentCheck !== lastCheck) {
+            return;
+        }
         innerMessages.value.push(...resolvedMessages);
     }
 
diff --git a/packages/vlossom/src/composables/input-rules/input-rules-composable.ts b/packages/vlossom/src/composables/input-rules/input-rules-composable.ts
index 4d2fabd..442d8f4 100644
--- a/packages/vlossom/src/composables/input-rules/input-rules-composable.ts
+++ b/packages/vlossom/src/composables/input-rules/input-rules-composable.ts
@@ -16,7 +16,9 @@ export function useInputRules<T>(
     });
 
     const ruleMessages: Ref<StateMessage[]> = ref([]);
+    let lastCheck = 0;
     async function checkRules() {
+        const currentCheck = ++lastCheck;
         ruleMessages.value = [];
         const pendingRules: Promise<string>[] = [];
 
@@ -46,6 +48,9 @@ export function useInputRules<T>(
             return acc;
         }, []);
 
+        if (currentCheck !== lastCheck) {
+            return;
+        }
         ruleMessages.value.push(...resolvedMessages);
     }
     watch(computedRules, checkRules, { deep: true });
-- 
2.43.0


From 39220ae01b01caa747196a0245b6e47ce088262f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 20:27:14 +0000
Subject: [PATCH 04/14] fix: a required number input rejects an empty value

---
 packages/vlossom/src/components/vs-input/vs-input-rules.ts | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/packages/vlossom/src/components/vs-input/vs-input-rules.ts b/packages/vlossom/src/components/vs-input/vs-input-rules.ts
index 445e4fe..26b91f9 100644
--- a/packages/vlossom/src/components/vs-input/vs-input-rules.ts
+++ b/packages/vlossom/src/components/vs-input/vs-input-rules.ts
@@ -8,7 +8,7 @@ export function useVsInputRules(
     type: Ref<VsInputType>,
 ) {
     function requiredCheck(v: VsInputValueType) {
-        if (required.value && v === '') {
+        if (required.value && (v === '' || v === null)) {
             return 'required';
         }
 
-- 
2.43.0


From a13f03ed6db303c6387cf47c74188a69dcdcb376 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 20:27:14 +0000
Subject: [PATCH 05/14] fix: a required select accepts falsy option values

---
 packages/vlossom/src/components/vs-select/vs-select-rules.ts | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/packages/vlossom/src/components/vs-select/vs-select-rules.ts b/packages/vlossom/src/components/vs-select/vs-select-rules.ts
index cb81f96..7c5d6cb 100644
--- a/packages/vlossom/src/components/vs-select/vs-select-rules.ts
+++ b/packages/vlossom/src/components/vs-select/vs-select-rules.ts
@@ -13,7 +13,7 @@ export function useSelectRules(
         if (multiple.value) {
             return !Array.isArray(inputValue) || inputValue.length === 0 ? 'required' : '';
         }
-        return !inputValue ? 'required' : '';
+        return inputValue === undefined || inputValue === null || inputValue === '' ? 'required' : '';
     }
 
     function maxCheck(inputValue: any): string {
-- 
2.43.0


From 73a507fef27ae2e5ab8360df80cb82d1bee824d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 20:27:14 +0000
Subject: [PATCH 06/14] fix: close exactly the addressed overlay when its
 callbacks change the stack

---
 .../vlossom/src/stores/overlay-callback-store.ts     | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/packages/vlossom/src/stores/overlay-callback-store.ts b/packages/vlossom/src/stores/overlay-callback-store.ts
index 2aaf40d..13384a0 100644
--- a/packages/vlossom/src/stores/overlay-callback-store.ts
+++ b/packages/vlossom/src/stores/overlay-callback-store.ts
@@ -67,7 +67,7 @@ export class OverlayCallbackStore {
         const [targetId] = overlay;
         this.run(targetId, OVERLAY_CLOSE, ...args);
         const result = this.run(targetId, 'close', ...args);
-        this._overlays.value.pop();
+        this.take(targetId);
 
         return result;
     }
@@ -80,11 +80,19 @@ export class OverlayCallbackStore {
         const [targetId] = this._overlays.value[index];
         this.run(targetId, OVERLAY_CLOSE, ...args);
         const result = this.run(targetId, 'close', ...args);
-        this._overlays.value.splice(index, 1);
+        this.take(targetId);
 
         return result;
     }
 
+    // close callbacks may have changed the stack, so the overlay is looked up again
+    private take(id: string) {
+        const index = this._overlays.value.findIndex(([stackId]) => stackId === id);
+        if (index !== -1) {
+            this._overlays.value.splice(index, 1);
+        }
+    }
+
     public clear(...args: any[]) {
         while (this._overlays.value.length > 0) {
             this.pop(...args);
-- 
2.43.0


From 052d35ec329a836fa4341d423033d00436ca46af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 21:35:53 +0000
Subject: [PATCH 07/14] fix: close the modal that was asked to close, not
 whatever is on top afterwards

---
 packages/vlossom/src/plugins/modal-plugin/modal-plugin.ts | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/packages/vlossom/src/plugins/modal-plugin/modal-plugin.ts b/packages/vlossom/src/plugins/modal-plugin/modal-plugin.ts
index 451be6b..568a526 100644
--- a/packages/vlossom/src/plugins/modal-plugin/modal-plugin.ts
+++ b/packages/vlossom/src/plugins/modal-plugin/modal-plugin.ts
@@ -59,10 +59,9 @@ export function createModalPlugin(): ModalPlugin {
                 return false;
             }
 
-            modalStore.pop(container);
+            modalStore.remove(container, last.id);
 
-            const lastOverlayId = overlayCallbackStore.getLastOverlayId();
-            overlayCallbackStore.remove(lastOverlayId);
+            overlayCallbackStore.remove(last.id);
             return true;
         },
 
-- 
2.43.0


From 82f8bed4b2314c639e4476602ab01cbdf8370418 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 21:45:51 +0000
Subject: [PATCH 08/14] fix: a dialog button answers its own dialog even when
 another overlay is on top

---
 .../src/plugins/alert-plugin/alert-plugin.ts        | 11 ++++-------
 .../src/plugins/confirm-plugin/confirm-plugin.ts    | 13 +++++--------
 .../src/plugins/prompt-plugin/prompt-plugin.ts      | 13 +++++--------
 3 files changed, 14 insertions(+), 23 deletions(-)

diff --git a/packages/vlossom/src/plugins/alert-plugin/alert-plugin.ts b/packages/vlossom/src/plugins/alert-plugin/alert-plugin.ts
index 620bc19..214eb3d 100644
--- a/packages/vlossom/src/plugins/alert-plugin/alert-plugin.ts
+++ b/packages/vlossom/src/plugins/alert-plugin/alert-plugin.ts
@@ -10,11 +10,7 @@ import type { AlertModalOptions, AlertPlugin, VsAlertStyleSet } from './types';
 export function createAlertPlugin(modalPlugin: ModalPlugin): AlertPlugin {
     const overlayCallback = useOverlayCallbackStore();
 
-    function handleOk() {
-        const overlayId = overlayCallback.getLastOverlayId();
-        if (!overlayId) {
-            return;
-        }
+    function handleOk(overlayId: string) {
         overlayCallback.run<void>(overlayId, ALERT_OK);
     }
 
@@ -32,13 +28,14 @@ export function createAlertPlugin(modalPlugin: ModalPlugin): AlertPlugin {
                 baseStyleSet,
             );
 
+            let modalId = '';
             const buttonsClass = ['flex', 'w-full', 'items-center', 'justify-center', 'gap-2'];
             const contentClass = ['flex', 'h-full', 'flex-col', 'items-center', 'justify-center', 'gap-12', 'pt-6'];
 
             const okButton = vnodeUtils.createVsButton({
                 props: { colorScheme, styleSet: componentStyleSet.value.$okButton, primary: true },
                 content: okText,
-                onClickEvent: handleOk,
+                onClickEvent: () => handleOk(modalId),
             });
 
             const contents = h(VsRender, { content, componentProps });
@@ -46,7 +43,7 @@ export function createAlertPlugin(modalPlugin: ModalPlugin): AlertPlugin {
             const alert = h('div', { class: contentClass }, [contents, buttons]);
 
             return new Promise((resolve) => {
-                const modalId = modalPlugin.open(alert, {
+                modalId = modalPlugin.open(alert, {
                     ...modalOptions,
                     callbacks: {
                         ...modalOptions.callbacks,
diff --git a/packages/vlossom/src/plugins/confirm-plugin/confirm-plugin.ts b/packages/vlossom/src/plugins/confirm-plugin/confirm-plugin.ts
index e80e152..f94a2ad 100644
--- a/packages/vlossom/src/plugins/confirm-plugin/confirm-plugin.ts
+++ b/packages/vlossom/src/plugins/confirm-plugin/confirm-plugin.ts
@@ -11,11 +11,7 @@ import type { ConfirmModalOptions, ConfirmPlugin, VsConfirmStyleSet } from './ty
 export function createConfirmPlugin(modalPlugin: ModalPlugin): ConfirmPlugin {
     const overlayCallback = useOverlayCallbackStore();
 
-    function handleButton(eventName: typeof CONFIRM_OK | typeof CONFIRM_CANCEL) {
-        const overlayId = overlayCallback.getLastOverlayId();
-        if (!overlayId) {
-            return;
-        }
+    function handleButton(overlayId: string, eventName: typeof CONFIRM_OK | typeof CONFIRM_CANCEL) {
         overlayCallback.run<boolean>(overlayId, eventName);
     }
 
@@ -41,16 +37,17 @@ export function createConfirmPlugin(modalPlugin: ModalPlugin): ConfirmPlugin {
                 baseStyleSet,
             );
 
+            let modalId = '';
             const okButton = vnodeUtils.createVsButton({
                 props: { colorScheme, styleSet: componentStyleSet.value.$okButton, primary: true },
                 content: okText,
-                onClickEvent: () => handleButton(CONFIRM_OK),
+                onClickEvent: () => handleButton(modalId, CONFIRM_OK),
             });
 
             const cancelButton = vnodeUtils.createVsButton({
                 props: { colorScheme, styleSet: componentStyleSet.value.$cancelButton },
                 content: cancelText,
-                onClickEvent: () => handleButton(CONFIRM_CANCEL),
+                onClickEvent: () => handleButton(modalId, CONFIRM_CANCEL),
             });
 
             const buttonsClass = ['flex', 'w-full', 'items-center', 'justify-center', 'gap-2'];
@@ -68,7 +65,7 @@ export function createConfirmPlugin(modalPlugin: ModalPlugin): ConfirmPlugin {
             const confirm = h('div', { class: contentClass }, [contents, buttons]);
 
             return new Promise((resolve) => {
-                const modalId = modalPlugin.open(confirm, {
+                modalId = modalPlugin.open(confirm, {
                     ...modalOptions,
                     callbacks: {
                         ...modalOptions.callbacks,
diff --git a/packages/vlossom/src/plugins/prompt-plugin/prompt-plugin.ts b/packages/vlossom/src/plugins/prompt-plugin/prompt-plugin.ts
index d75b8a8..824824d 100644
--- a/packages/vlossom/src/plugins/prompt-plugin/prompt-plugin.ts
+++ b/packages/vlossom/src/plugins/prompt-plugin/prompt-plugin.ts
@@ -10,11 +10,7 @@ import { vnodeUtils } from './../utils/vnode-utils';
 export function createPromptPlugin(modalPlugin: ModalPlugin): PromptPlugin {
     const overlayCallback = useOverlayCallbackStore();
 
-    function handleButton(eventName: typeof PROMPT_OK | typeof PROMPT_CANCEL) {
-        const overlayId = overlayCallback.getLastOverlayId();
-        if (!overlayId) {
-            return;
-        }
+    function handleButton(overlayId: string, eventName: typeof PROMPT_OK | typeof PROMPT_CANCEL) {
         overlayCallback.run<VsInputValueType>(overlayId, eventName);
     }
 
@@ -48,15 +44,16 @@ export function createPromptPlugin(modalPlugin: ModalPlugin): PromptPlugin {
             const interactsClass = ['flex', 'h-full', 'flex-col', 'items-center', 'justify-center', 'gap-8'];
             const wrapperClass = ['flex', 'h-full', 'flex-col', 'items-center', 'justify-center', 'gap-4', 'pt-8'];
 
+            let modalId = '';
             const okButton = vnodeUtils.createVsButton({
                 props: { colorScheme, styleSet: componentStyleSet.value.$okButton, primary: true },
                 content: okText,
-                onClickEvent: () => handleButton(PROMPT_OK),
+                onClickEvent: () => handleButton(modalId, PROMPT_OK),
             });
             const cancelButton = vnodeUtils.createVsButton({
                 props: { colorScheme, styleSet: componentStyleSet.value.$cancelButton },
                 content: cancelText,
-                onClickEvent: () => handleButton(PROMPT_CANCEL),
+                onClickEvent: () => handleButton(modalId, PROMPT_CANCEL),
             });
             const buttons = h(
                 'div',
@@ -87,7 +84,7 @@ export function createPromptPlugin(modalPlugin: ModalPlugin): PromptPlugin {
             };
 
             return new Promise((resolve) => {
-                const modalId = modalPlugin.open(prompt, {
+                modalId = modalPlugin.open(prompt, {
                     ...modalOptions,
                     callbacks: {
                         ...modalOptions.callbacks,
-- 
2.43.0


From 361972e2114173ee583463308f148bbbd5d199c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 22:17:11 +0000
Subject: [PATCH 09/14] fix: locking scrolling again before the unlock frame
 ran no longer saves the locked styles

---
 .../scroll-lock/scroll-lock-composable.ts            | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/packages/vlossom/src/composables/scroll-lock/scroll-lock-composable.ts b/packages/vlossom/src/composables/scroll-lock/scroll-lock-composable.ts
index d8b7a9a..9b34d93 100644
--- a/packages/vlossom/src/composables/scroll-lock/scroll-lock-composable.ts
+++ b/packages/vlossom/src/composables/scroll-lock/scroll-lock-composable.ts
@@ -11,6 +11,8 @@ export function useScrollLock(container: string = 'body') {
     const containerElement: HTMLElement | null = document.querySelector(container);
 
     const isLocked = ref(false);
+    // frames in which the original styles are still to be restored
+    let pendingRestores = 0;
 
     const originalState = ref<ScrollLockState>({
         overflow: '',
@@ -64,7 +66,9 @@ export function useScrollLock(container: string = 'body') {
             return;
         }
 
-        saveOriginalState();
+        if (pendingRestores === 0) {
+            saveOriginalState();
+        }
         isLocked.value = true;
         requestAnimationFrame(applyScrollLockStyles);
     }
@@ -75,7 +79,11 @@ export function useScrollLock(container: string = 'body') {
         }
 
         isLocked.value = false;
-        requestAnimationFrame(restoreOriginalState);
+        pendingRestores++;
+        requestAnimationFrame(() => {
+            pendingRestores--;
+            restoreOriginalState();
+        });
     }
 
     return {
-- 
2.43.0


From 3983d7b7b6a577d0c1b9573d0743f94af331ada3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 22:50:00 +0000
Subject: [PATCH 10/14] fix: file sizes of 1024 TB and more keep the terabyte
 unit

---
 packages/vlossom/src/utils/string-util.ts | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/packages/vlossom/src/utils/string-util.ts b/packages/vlossom/src/utils/string-util.ts
index e6378e2..c303c96 100644
--- a/packages/vlossom/src/utils/string-util.ts
+++ b/packages/vlossom/src/utils/string-util.ts
@@ -33,7 +33,7 @@ export const stringUtil = {
 
         const k = 1024;
         const sizes = ['Bytes', 'KB', 'MB', 'GB', 'TB'];
-        const i = Math.floor(Math.log(bytes) / Math.log(k));
+        const i = Math.min(Math.floor(Math.log(bytes) / Math.log(k)), sizes.length - 1);
 
         return `${Math.round((bytes / Math.pow(k, i)) * 100) / 100} ${sizes[i]}`;
     },
-- 
2.43.0


From 9e0cb4b1cccbbbea7f578c0d8c903914ab06815d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 23:51:13 +0000
Subject: [PATCH 11/14] fix: a remembered version reference no longer
 overwrites the version details of the request

---
 .../vlossom-mcp/src/services/github-registry-service.ts  | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/packages/vlossom-mcp/src/services/github-registry-service.ts b/packages/vlossom-mcp/src/services/github-registry-service.ts
index f367683..a3b0287 100644
--- a/packages/vlossom-mcp/src/services/github-registry-service.ts
+++ b/packages/vlossom-mcp/src/services/github-registry-service.ts
@@ -380,7 +380,14 @@ export async function resolveGitHubVersionContext(context: VersionContext): Prom
 
     const cacheKey = context.detectedVersion ?? 'main';
     const cached = refCache.get(cacheKey);
-    if (cached) return { ...context, ...cached, warnings: [...context.warnings, ...cached.warnings] };
+    if (cached) {
+        return {
+            ...context,
+            resolvedRef: cached.resolvedRef,
+            fallbackRef: cached.fallbackRef,
+            warnings: [...context.warnings, ...cached.warnings],
+        };
+    }
 
     const refs = getCandidateRefs(context.detectedVersion);
     for (const ref of refs) {
-- 
2.43.0


From 593b4e11ceb6c691a85e2afd01002a0073a215f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 23:51:13 +0000
Subject: [PATCH 12/14] fix: falling back to main after a failed request is not
 remembered for the version

---
 .../src/services/github-registry-service.ts       | 15 ++++++++++-----
 1 file changed, 10 insertions(+), 5 deletions(-)

diff --git a/packages/vlossom-mcp/src/services/github-registry-service.ts b/packages/vlossom-mcp/src/services/github-registry-service.ts
index a3b0287..3068df2 100644
--- a/packages/vlossom-mcp/src/services/github-registry-service.ts
+++ b/packages/vlossom-mcp/src/services/github-registry-service.ts
@@ -390,6 +390,7 @@ export async function resolveGitHubVersionContext(context: VersionContext): Prom
     }
 
     const refs = getCandidateRefs(context.detectedVersion);
+    let conclusive = true;
     for (const ref of refs) {
         try {
             await fetchRawCached('packages/vlossom/package.json', ref);
@@ -404,13 +405,17 @@ export async function resolveGitHubVersionContext(context: VersionContext): Prom
                     `Could not find a GitHub ref for Vlossom v${context.detectedVersion}; falling back to main, so version-specific guidance may be weakened.`,
                 );
             }
-            refCache.set(cacheKey, {
-                ...resolved,
-                warnings: resolved.warnings.filter((warning) => !context.warnings.includes(warning)),
-            });
+            // a ref that could not be read this time may exist, so its fallback is not remembered
+            if (conclusive) {
+                refCache.set(cacheKey, {
+                    ...resolved,
+                    warnings: resolved.warnings.filter((warning) => !context.warnings.includes(warning)),
+                });
+            }
             return resolved;
-        } catch {
+        } catch (error) {
             // try the next candidate ref
+            if (!isGitHubNotFound(error)) conclusive = false;
         }
     }
 
-- 
2.43.0


From 26acfc8ea7c8cd52f5c7a65b7ca9372303c86bae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 23:51:13 +0000
Subject: [PATCH 13/14] fix: a failed component lookup is retried under its
 kebab-case name too

---
 packages/vlossom-mcp/src/services/github-registry-service.ts | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/packages/vlossom-mcp/src/services/github-registry-service.ts b/packages/vlossom-mcp/src/services/github-registry-service.ts
index 3068df2..3227b43 100644
--- a/packages/vlossom-mcp/src/services/github-registry-service.ts
+++ b/packages/vlossom-mcp/src/services/github-registry-service.ts
@@ -481,6 +481,7 @@ export async function getComponentMeta(
     }
 
     const lookupKey = getComponentLookupKey(ref, normalized.name);
+    const kebabLookupKey = getComponentLookupKey(ref, normalized.kebabName);
     const cached = componentLookupCache.get(lookupKey);
     if (cached) return cached;
 
@@ -491,10 +492,11 @@ export async function getComponentMeta(
         })
         .catch((error: unknown) => {
             componentLookupCache.delete(lookupKey);
+            componentLookupCache.delete(kebabLookupKey);
             throw error;
         });
     componentLookupCache.set(lookupKey, promise);
-    componentLookupCache.set(getComponentLookupKey(ref, normalized.kebabName), promise);
+    componentLookupCache.set(kebabLookupKey, promise);
     return promise;
 }
 
-- 
2.43.0


From 9423311843e550e2dd5b7d4d9774eb32c3437d59 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 23:51:13 +0000
Subject: [PATCH 14/14] fix: lists loaded while GitHub was unavailable are not
 cached

---
 .../src/services/github-registry-service.ts   | 48 ++++++++++++++-----
 1 file changed, 37 insertions(+), 11 deletions(-)

diff --git a/packages/vlossom-mcp/src/services/github-registry-service.ts b/packages/vlossom-mcp/src/services/github-registry-service.ts
index 3227b43..10f26ae 100644
--- a/packages/vlossom-mcp/src/services/github-registry-service.ts
+++ b/packages/vlossom-mcp/src/services/github-registry-service.ts
@@ -544,7 +544,11 @@ export async function loadDirectives(versionContext: VersionContext): Promise<Di
     const cached = directiveCache.get(ref);
     if (cached) return cached;
 
-    const entries = await fetchGitHubDirectory(DIRECTIVES_PATH, ref).catch(() => []);
+    let complete = true;
+    const entries = await fetchGitHubDirectory(DIRECTIVES_PATH, ref).catch((error: unknown) => {
+        complete = isGitHubNotFound(error);
+        return [];
+    });
     const directives = await mapWithConcurrency(
         entries.filter((entry) => entry.type === 'dir' && entry.name.startsWith('vs-')),
         GITHUB_FETCH_CONCURRENCY,
@@ -553,7 +557,7 @@ export async function loadDirectives(versionContext: VersionContext): Promise<Di
             return parseDirectiveReadme(readme, `v-${entry.name.slice(3)}`, entry.name);
         },
     );
-    directiveCache.set(ref, directives);
+    if (complete) directiveCache.set(ref, directives);
     return directives;
 }
 
@@ -618,7 +622,11 @@ async function loadPublicComposableDirs(ref: string): Promise<Set<string>> {
             }
             return dirs;
         })
-        .catch(() => new Set<string>());
+        .catch((error: unknown) => {
+            if (isGitHubNotFound(error)) return new Set<string>();
+            publicComposableDirsCache.delete(ref);
+            throw error;
+        });
     publicComposableDirsCache.set(ref, promise);
     return promise;
 }
@@ -629,9 +637,16 @@ export async function loadComposables(versionContext: VersionContext): Promise<C
     const cached = composableCache.get(ref);
     if (cached) return cached;
 
+    let complete = true;
     const [publicDirs, entries] = await Promise.all([
-        loadPublicComposableDirs(ref),
-        fetchGitHubDirectory(COMPOSABLES_PATH, ref).catch(() => []),
+        loadPublicComposableDirs(ref).catch(() => {
+            complete = false;
+            return new Set<string>();
+        }),
+        fetchGitHubDirectory(COMPOSABLES_PATH, ref).catch((error: unknown) => {
+            if (!isGitHubNotFound(error)) complete = false;
+            return [];
+        }),
     ]);
     const composables = await mapWithConcurrency(
         entries.filter((entry) => entry.type === 'dir' && !entry.name.includes('.') && entry.name !== '__tests__'),
@@ -641,7 +656,7 @@ export async function loadComposables(versionContext: VersionContext): Promise<C
             return parseComposableReadme(readme, entry.name, publicDirs.has(entry.name));
         },
     );
-    composableCache.set(ref, composables);
+    if (complete) composableCache.set(ref, composables);
     return composables;
 }
 
@@ -704,7 +719,11 @@ export async function loadPlugins(versionContext: VersionContext): Promise<Vloss
     const cached = pluginCache.get(ref);
     if (cached) return cached;
 
-    const entries = await fetchGitHubDirectory(PLUGINS_PATH, ref).catch(() => []);
+    let complete = true;
+    const entries = await fetchGitHubDirectory(PLUGINS_PATH, ref).catch((error: unknown) => {
+        complete = isGitHubNotFound(error);
+        return [];
+    });
     const plugins = await mapWithConcurrency(
         entries.filter((entry) => entry.type === 'dir' && entry.name.endsWith('-plugin')),
         GITHUB_FETCH_CONCURRENCY,
@@ -715,7 +734,7 @@ export async function loadPlugins(versionContext: VersionContext): Promise<Vloss
         },
     );
     const sorted = plugins.sort((a, b) => a.property.localeCompare(b.property));
-    pluginCache.set(ref, sorted);
+    if (complete) pluginCache.set(ref, sorted);
     return sorted;
 }
 
@@ -748,7 +767,10 @@ export async function loadSetupExample(versionContext: VersionContext): Promise<
             const fenced = extractFenceAfter(lines, setupIndex);
             return fenced || SETUP_EXAMPLE_FALLBACK;
         })
-        .catch(() => SETUP_EXAMPLE_FALLBACK);
+        .catch((error: unknown) => {
+            if (!isGitHubNotFound(error)) setupExampleCache.delete(ref);
+            return SETUP_EXAMPLE_FALLBACK;
+        });
     setupExampleCache.set(ref, promise);
     return promise;
 }
@@ -797,8 +819,12 @@ export async function loadCssTokens(versionContext: VersionContext): Promise<Css
 
     const files = ['variables.css', 'palette.css', 'color-scheme-variables.css'];
     const map = new Map<string, CssToken>();
+    let complete = true;
     for (const file of files) {
-        const css = await fetchRawCached(`${STYLES_PATH}/${file}`, ref).catch(() => '');
+        const css = await fetchRawCached(`${STYLES_PATH}/${file}`, ref).catch((error: unknown) => {
+            if (!isGitHubNotFound(error)) complete = false;
+            return '';
+        });
         for (const token of parseCssVars(css)) {
             const entry = map.get(token.name) ?? {
                 name: token.name,
@@ -813,7 +839,7 @@ export async function loadCssTokens(versionContext: VersionContext): Promise<Css
     }
 
     const tokens = [...map.values()].sort((a, b) => a.name.localeCompare(b.name));
-    tokenCache.set(ref, tokens);
+    if (complete) tokenCache.set(ref, tokens);
     return tokens;
 }
 
-- 
2.43.0

