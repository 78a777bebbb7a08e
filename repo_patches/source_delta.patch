From 28fdd21c00e0147623adacf70b28742ec3c1da49 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:14:13 +0000
Subject: [PATCH 01/47] fix: await the manifest probes when looking for the
 workspace root

The probe's promise was stored unawaited, so every directory counted as having
a Cargo.toml and the workspace folder itself was always chosen.
---
 ide/src/setup.ts | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/ide/src/setup.ts b/ide/src/setup.ts
index 1bd24e3..1dad0dc 100644
--- a/ide/src/setup.ts
+++ b/ide/src/setup.ts
@@ -156,9 +156,9 @@ let findWorkspaceRoot = async (): Promise<string | null> => {
   let folderSubdirTil = (idx: number) =>
     path.join(folderPath, ...components.slice(0, idx));
   let prefixHasToml = await Promise.all(
-    _.range(components.length).map((idx) => ({
+    _.range(components.length).map(async (idx) => ({
       idx,
-      has: hasCargoToml(folderSubdirTil(idx)),
+      has: await hasCargoToml(folderSubdirTil(idx)),
     }))
   );
   let entry = prefixHasToml.find(({ has }) => has);
-- 
2.43.0


From e78c34200849d507e2be43f6c8c44dd981ff18c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:14:13 +0000
Subject: [PATCH 02/47] fix: order search results numerically by size

An array-valued sort key is compared as a string, so a range of 10 lines sorted
before one of 9 and the enclosing function won over the nested one.
---
 ide/src/range.ts | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/ide/src/range.ts b/ide/src/range.ts
index f9e4fdf..0938cff 100644
--- a/ide/src/range.ts
+++ b/ide/src/range.ts
@@ -112,7 +112,10 @@ export class RangeTree<T> {
 
     ["contained", "containing", "overlapping"].forEach((k) => {
       let final_ = final as any;
-      final_[k] = _.orderBy(final_[k], ({ range }) => [range.end.line - range.start.line, range.end.column - range.start.column]);
+      final_[k] = _.orderBy(final_[k], [
+        ({ range }) => range.end.line - range.start.line,
+        ({ range }) => range.end.column - range.start.column,
+      ]);
     });
 
     console.log("Querying", query, "for result", final);
-- 
2.43.0


From 60421a715cbefed4e4b26b612835b1264bf5cd31 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:14:13 +0000
Subject: [PATCH 03/47] fix: discard analyses made obsolete by an edit or by
 turning focus mode off

An analysis in flight while the document was edited stored and painted ranges
of the old text, and one in flight while focus mode was turned off turned it
back on with no way to follow the cursor.
---
 ide/src/focus.ts | 79 +++++++++++++++++++++++++++++++++++++-----------
 1 file changed, 61 insertions(+), 18 deletions(-)

diff --git a/ide/src/focus.ts b/ide/src/focus.ts
index 161ecd5..f0977bc 100644
--- a/ide/src/focus.ts
+++ b/ide/src/focus.ts
@@ -153,9 +153,10 @@ class FocusDocumentState {
   };
 
   on_change_selection = async (
-    editor: vscode.TextEditor
+    editor: vscode.TextEditor,
+    is_current: () => boolean
   ): Promise<FlowistryResult<null>> => {
-    let body_state_res = await this.get_body_state(editor);
+    let body_state_res = await this.get_body_state(editor, is_current);
     if (body_state_res === null) {
       return ok(null);
     }
@@ -170,7 +171,8 @@ class FocusDocumentState {
   };
 
   get_body_state = async (
-    editor: vscode.TextEditor
+    editor: vscode.TextEditor,
+    is_current: () => boolean
   ): Promise<FlowistryResult<FocusBodyState> | null> => {
     // Find all bodies that contain the user's selection.
     let result = this.bodies.search(
@@ -190,6 +192,10 @@ class FocusDocumentState {
         editor.document,
         editor.selection
       );
+      // The analysis describes text or a session that is gone.
+      if (!is_current()) {
+        return null;
+      }
       body.set(body_state_res);
       return body_state_res;
     } else {
@@ -198,9 +204,10 @@ class FocusDocumentState {
   };
 
   set_mark = async (
-    editor: vscode.TextEditor
+    editor: vscode.TextEditor,
+    is_current: () => boolean
   ): Promise<FlowistryResult<null>> => {
-    let body_state_res = await this.get_body_state(editor);
+    let body_state_res = await this.get_body_state(editor, is_current);
     if (body_state_res === null) {
       return ok(null);
     } else if (!is_ok(body_state_res)) {
@@ -212,9 +219,10 @@ class FocusDocumentState {
   };
 
   unset_mark = async (
-    editor: vscode.TextEditor
+    editor: vscode.TextEditor,
+    is_current: () => boolean
   ): Promise<FlowistryResult<null>> => {
-    let body_state_res = await this.get_body_state(editor);
+    let body_state_res = await this.get_body_state(editor, is_current);
     if (body_state_res === null) {
       return ok(null);
     } else if (!is_ok(body_state_res)) {
@@ -226,9 +234,10 @@ class FocusDocumentState {
   };
 
   select = async (
-    editor: vscode.TextEditor
+    editor: vscode.TextEditor,
+    is_current: () => boolean
   ): Promise<FlowistryResult<null>> => {
-    let body_state_res = await this.get_body_state(editor);
+    let body_state_res = await this.get_body_state(editor, is_current);
     if (body_state_res === null) {
       return ok(null);
     } else if (!is_ok(body_state_res)) {
@@ -258,6 +267,10 @@ export class FocusMode {
   mode: StatusBarState = "idle";
   state: Map<string, FocusDocumentState | "notfound"> = new Map();
 
+  // Changes whenever analyses in flight become obsolete, i.e. when a document
+  // is edited or focus mode is turned off. Their results must not be used.
+  private epoch: number = 0;
+
   doc_save_callback?: vscode.Disposable;
   doc_edit_callback?: vscode.Disposable;
   selection_change_callback?: vscode.Disposable;
@@ -275,6 +288,7 @@ export class FocusMode {
 
         if (event.document === doc && doc.isDirty) {
           this.state.clear();
+          this.epoch += 1;
 
           if (this.mode !== "idle") {
             this.set_mode("unsaved");
@@ -313,6 +327,18 @@ export class FocusMode {
     }
   };
 
+  // Returns a function that tells whether the results of an analysis started
+  // now may still be used.
+  private is_current = (): (() => boolean) => {
+    let epoch = this.epoch;
+    return () => this.epoch === epoch;
+  };
+
+  // An obsolete analysis leaves its own state in the status bar when it ends.
+  private refresh_status = () => {
+    globals.status_bar.set_state(this.mode);
+  };
+
   private get_doc_state = async (
     editor: vscode.TextEditor,
     userActivated: boolean = false
@@ -323,10 +349,15 @@ export class FocusMode {
 
     this.set_mode("loading");
 
+    let is_current = this.is_current();
     let filename = editor.document.fileName;
     let doc_state_opt = this.state.get(filename);
     if (!doc_state_opt) {
       let doc_state_res = await FocusDocumentState.load(editor);
+      if (!is_current()) {
+        this.refresh_status();
+        return null;
+      }
       if (is_ok(doc_state_res)) {
         this.state.set(filename, doc_state_res.value);
       } else {
@@ -377,7 +408,12 @@ export class FocusMode {
       return;
     }
 
-    let result = await doc_state.on_change_selection(editor);
+    let is_current = this.is_current();
+    let result = await doc_state.on_change_selection(editor, is_current);
+    if (!is_current()) {
+      this.refresh_status();
+      return;
+    }
     await this.handle_analysis_result(result, userActivated);
   };
 
@@ -402,7 +438,8 @@ export class FocusMode {
     (
       f: (
         _editor: vscode.TextEditor,
-        _state: FocusDocumentState
+        _state: FocusDocumentState,
+        _is_current: () => boolean
       ) => Promise<FlowistryResult<null>>
     ) =>
     async () => {
@@ -425,19 +462,24 @@ export class FocusMode {
         return;
       }
 
-      let result = await f(editor, doc_state);
+      let is_current = this.is_current();
+      let result = await f(editor, doc_state, is_current);
+      if (!is_current()) {
+        this.refresh_status();
+        return;
+      }
       await this.handle_analysis_result(result, true);
       await this.update_slice(true);
     };
 
-  focus_mark = this.focus_subcommand((editor, doc_state) =>
-    doc_state.set_mark(editor)
+  focus_mark = this.focus_subcommand((editor, doc_state, is_current) =>
+    doc_state.set_mark(editor, is_current)
   );
-  focus_unmark = this.focus_subcommand((editor, doc_state) =>
-    doc_state.unset_mark(editor)
+  focus_unmark = this.focus_subcommand((editor, doc_state, is_current) =>
+    doc_state.unset_mark(editor, is_current)
   );
-  focus_select = this.focus_subcommand((editor, doc_state) =>
-    doc_state.select(editor)
+  focus_select = this.focus_subcommand((editor, doc_state, is_current) =>
+    doc_state.select(editor, is_current)
   );
 
   focus = async () => {
@@ -446,6 +488,7 @@ export class FocusMode {
       this.register_callbacks();
       await this.update_slice(true);
     } else {
+      this.epoch += 1;
       this.set_mode("idle");
       this.clear_ranges();
       this.dispose_callbacks();
-- 
2.43.0


From c4d13a550e492c8a72a7c9c205b27507113bd5ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:14:13 +0000
Subject: [PATCH 04/47] fix: catch up with cursor moves and saves that happened
 during an analysis

They were dropped while loading, so the slice shown afterwards was the one of
the old cursor position, of the new selection in the old function, or none.
---
 ide/src/focus.ts | 23 +++++++++++++++++++++++
 1 file changed, 23 insertions(+)

diff --git a/ide/src/focus.ts b/ide/src/focus.ts
index f0977bc..6fbefa5 100644
--- a/ide/src/focus.ts
+++ b/ide/src/focus.ts
@@ -271,6 +271,9 @@ export class FocusMode {
   // is edited or focus mode is turned off. Their results must not be used.
   private epoch: number = 0;
 
+  // Whether an update was requested while another one was loading.
+  private missed_update: boolean = false;
+
   doc_save_callback?: vscode.Disposable;
   doc_edit_callback?: vscode.Disposable;
   selection_change_callback?: vscode.Disposable;
@@ -310,6 +313,12 @@ export class FocusMode {
         return;
       }
 
+      // An analysis saves the document before it starts.
+      if (this.mode === "loading") {
+        this.missed_update = true;
+        return;
+      }
+
       this.set_mode("active");
       this.update_slice();
     });
@@ -343,11 +352,16 @@ export class FocusMode {
     editor: vscode.TextEditor,
     userActivated: boolean = false
   ): Promise<FocusDocumentState | null> => {
+    if (this.mode === "loading") {
+      this.missed_update = true;
+    }
+
     if (this.mode !== "active" && this.mode !== "notfound") {
       return null;
     }
 
     this.set_mode("loading");
+    this.missed_update = false;
 
     let is_current = this.is_current();
     let filename = editor.document.fileName;
@@ -374,6 +388,7 @@ export class FocusMode {
     let state = this.state.get(filename)!;
     if (state == "notfound") {
       this.set_mode("notfound");
+      this.catch_up();
       return null;
     } else {
       return state;
@@ -390,6 +405,14 @@ export class FocusMode {
     } else {
       await hide_error();
       this.set_mode("active");
+      this.catch_up();
+    }
+  };
+
+  private catch_up = () => {
+    if (this.missed_update) {
+      this.missed_update = false;
+      this.update_slice();
     }
   };
 
-- 
2.43.0


From 032db12fd17ba6ffb56cac745356a96880528d65 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:14:13 +0000
Subject: [PATCH 05/47] fix: clear the ranges of every visible editor, not only
 the active one

---
 ide/src/focus.ts | 5 +----
 1 file changed, 1 insertion(+), 4 deletions(-)

diff --git a/ide/src/focus.ts b/ide/src/focus.ts
index 6fbefa5..6e270d3 100644
--- a/ide/src/focus.ts
+++ b/ide/src/focus.ts
@@ -330,10 +330,7 @@ export class FocusMode {
   };
 
   private clear_ranges = () => {
-    let editor = vscode.window.activeTextEditor;
-    if (editor) {
-      clear_ranges(editor);
-    }
+    vscode.window.visibleTextEditors.forEach(clear_ranges);
   };
 
   // Returns a function that tells whether the results of an analysis started
-- 
2.43.0


From 53ed3cdd46eb138f03b9d542d93e0a0766c1b4fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:14:13 +0000
Subject: [PATCH 06/47] fix: notice edits of documents that are not active or
 do not become dirty

Reloaded, undone and background-edited documents kept their old ranges, and
focus mode stayed paused in a clean document after an edit of another one.
---
 ide/src/focus.ts | 21 +++++++++++++++------
 1 file changed, 15 insertions(+), 6 deletions(-)

diff --git a/ide/src/focus.ts b/ide/src/focus.ts
index 6e270d3..0f58320 100644
--- a/ide/src/focus.ts
+++ b/ide/src/focus.ts
@@ -282,14 +282,15 @@ export class FocusMode {
     // pause rendering if there are unsaved changes in the doc
     this.doc_edit_callback = vscode.workspace.onDidChangeTextDocument(
       (event) => {
-        let editor = vscode.window.activeTextEditor!;
-        let doc = editor.document;
+        let doc = event.document;
 
-        if (!valid_document(editor.document)) {
+        if (!valid_document(doc)) {
           return;
         }
 
-        if (event.document === doc && doc.isDirty) {
+        // Saving a document also fires this event, with no changes. A document can
+        // change without becoming dirty (undo, reload) and without being active.
+        if (event.contentChanges.length > 0 || doc.isDirty) {
           this.state.clear();
           this.epoch += 1;
 
@@ -303,9 +304,9 @@ export class FocusMode {
 
     // reinitialize focus mode state after each save
     this.doc_save_callback = vscode.workspace.onDidSaveTextDocument(() => {
-      let editor = vscode.window.activeTextEditor!;
+      let editor = vscode.window.activeTextEditor;
 
-      if (!valid_document(editor.document)) {
+      if (!editor || !valid_document(editor.document)) {
         return;
       }
 
@@ -353,6 +354,14 @@ export class FocusMode {
       this.missed_update = true;
     }
 
+    // The active document need not be the one whose edit paused rendering.
+    let is_dirty = editor.document.isDirty;
+    if (this.mode === "unsaved" && !is_dirty) {
+      this.set_mode("active");
+    } else if (this.mode === "active" && is_dirty && !userActivated) {
+      this.set_mode("unsaved");
+    }
+
     if (this.mode !== "active" && this.mode !== "notfound") {
       return null;
     }
-- 
2.43.0


From 97d6a172fd1e27a567609054f5c6e746861e91fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:14:13 +0000
Subject: [PATCH 07/47] fix: enter the error state before showing the error

Showing it waits for the user, so the status stayed at loading behind the
message, and an answer given later overwrote the state reached meanwhile.
---
 ide/src/focus.ts | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/ide/src/focus.ts b/ide/src/focus.ts
index 0f58320..0b301d2 100644
--- a/ide/src/focus.ts
+++ b/ide/src/focus.ts
@@ -384,8 +384,8 @@ export class FocusMode {
         if (doc_state_res.type == "FileNotFound") {
           this.state.set(filename, "notfound");
         } else {
-          if (userActivated) await show_error(doc_state_res);
           this.set_mode("error");
+          if (userActivated) await show_error(doc_state_res);
           return null;
         }
       }
@@ -406,11 +406,11 @@ export class FocusMode {
     userActivated: boolean = false
   ) => {
     if (!is_ok(result)) {
-      if (userActivated) await show_error(result);
       this.set_mode("error");
+      if (userActivated) await show_error(result);
     } else {
-      await hide_error();
       this.set_mode("active");
+      await hide_error();
       this.catch_up();
     }
   };
-- 
2.43.0


From f8b88040125f07b769b140b4130b10f62c40bb33 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:14:13 +0000
Subject: [PATCH 08/47] fix: do not cache a failed analysis

A transient failure made the function fail until the next edit, even after
focus mode was turned off and on again.
---
 ide/src/focus.ts | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/ide/src/focus.ts b/ide/src/focus.ts
index 0b301d2..7abd25c 100644
--- a/ide/src/focus.ts
+++ b/ide/src/focus.ts
@@ -196,7 +196,9 @@ class FocusDocumentState {
       if (!is_current()) {
         return null;
       }
-      body.set(body_state_res);
+      if (is_ok(body_state_res)) {
+        body.set(body_state_res);
+      }
       return body_state_res;
     } else {
       return body.get();
-- 
2.43.0


From 1e172e13bccede13663b6155939622cbd419bdf7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:14:13 +0000
Subject: [PATCH 09/47] fix: reopen a closed error pane and close one that was
 still opening

A pane closed by the user never came back, and one hidden before it had opened
stayed open.
---
 ide/src/errors.ts | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/ide/src/errors.ts b/ide/src/errors.ts
index f589c52..c240849 100644
--- a/ide/src/errors.ts
+++ b/ide/src/errors.ts
@@ -58,6 +58,7 @@ export class ErrorPane {
   tdcp: ErrorProvider;
   doc: vscode.TextDocument;
   editor?: vscode.TextEditor;
+  shown: boolean = false;
 
   constructor(tdcp: ErrorProvider, doc: vscode.TextDocument) {
     this.tdcp = tdcp;
@@ -75,15 +76,22 @@ export class ErrorPane {
   show = async (error: string) => {
     this.tdcp.contents = error;
     this.tdcp.eventEmitter.fire(this.tdcp.uri);
-    if (!this.editor) {
+    this.shown = true;
+    let visible = vscode.window.visibleTextEditors;
+    if (!this.editor || !visible.includes(this.editor)) {
       this.editor = await vscode.window.showTextDocument(this.doc, {
         viewColumn: vscode.ViewColumn.Beside,
         preserveFocus: true,
       });
+      // The pane may have been hidden while it was opening.
+      if (!this.shown) {
+        await this.hide();
+      }
     }
   };
 
   hide = async () => {
+    this.shown = false;
     if (this.editor) {
       // TODO: TextEditor.hide is deprecated, but I could not figure out an
       // alternative way to hide the error panel. The docs say to use
-- 
2.43.0


From 0eb1cdeafa0c90273b6b4b94aba70ae7071e1fc5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:14:13 +0000
Subject: [PATCH 10/47] fix: do not analyse a file that could not be saved

Its ranges describe the text on disk, not the text in the editor.
---
 ide/src/setup.ts | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/ide/src/setup.ts b/ide/src/setup.ts
index 1dad0dc..92e48f7 100644
--- a/ide/src/setup.ts
+++ b/ide/src/setup.ts
@@ -262,7 +262,10 @@ export async function setup(
     try {
       let editor = vscode.window.activeTextEditor;
       if (editor) {
-        await editor.document.save();
+        let saved = await editor.document.save();
+        if (!saved && editor.document.isDirty) {
+          throw `Could not save ${editor.document.fileName}`;
+        }
       }
 
       output = await exec_notify_binary(
-- 
2.43.0


From 7fb1fde196af6d272c0ef27297d1f628f7135d37 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:28:52 +0000
Subject: [PATCH 11/47] fix: analyse the function the selection lies in, not
 the one it starts in

---
 ide/src/focus.ts | 15 +++++++--------
 1 file changed, 7 insertions(+), 8 deletions(-)

diff --git a/ide/src/focus.ts b/ide/src/focus.ts
index 7abd25c..a8280c3 100644
--- a/ide/src/focus.ts
+++ b/ide/src/focus.ts
@@ -40,13 +40,15 @@ class FocusBodyState {
 
   static load = async (
     doc: vscode.TextDocument,
-    selection: vscode.Selection
+    body: Range
   ): Promise<FlowistryResult<FocusBodyState>> => {
+    // The start of a body lies in no other body inside of it, unlike the selection,
+    // which can start in a nested body and end outside of it.
     let cmd = [
       "focus",
       doc.fileName,
-      selection.anchor.line.toString(),
-      selection.anchor.character.toString(),
+      body.start.line.toString(),
+      body.start.column.toString(),
     ];
     let focus_res = await globals.call_flowistry<Focus>(cmd);
     console.log(focus_res);
@@ -186,12 +188,9 @@ class FocusDocumentState {
     }
 
     // If the user has selected a body, get its FocusBodyState.
-    let body = result.containing[0].value;
+    let { value: body, range } = result.containing[0];
     if (body.get() === null) {
-      let body_state_res = await FocusBodyState.load(
-        editor.document,
-        editor.selection
-      );
+      let body_state_res = await FocusBodyState.load(editor.document, range);
       // The analysis describes text or a session that is gone.
       if (!is_current()) {
         return null;
-- 
2.43.0


From 2e5185ecee23e529c641459fc8016ecac3bc473c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:28:52 +0000
Subject: [PATCH 12/47] fix: keep the status when a process that failed to
 spawn closes

---
 ide/src/setup.ts | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/ide/src/setup.ts b/ide/src/setup.ts
index 92e48f7..12f7196 100644
--- a/ide/src/setup.ts
+++ b/ide/src/setup.ts
@@ -80,7 +80,10 @@ let exec_notify_binary = async (
   globals.status_bar.set_state("loading", title);
 
   return new Promise<Buffer>((resolve, reject) => {
+    // A process that could not be spawned emits "error" and then still "close".
+    let failed = false;
     proc.addListener("close", (_) => {
+      if (failed) return;
       globals.status_bar.set_state("idle");
       if (proc.exitCode !== 0) {
         reject(stderrChunks.join(""));
@@ -89,6 +92,7 @@ let exec_notify_binary = async (
       }
     });
     proc.addListener("error", (e) => {
+      failed = true;
       globals.status_bar.set_state("idle");
       reject(e.toString());
     });
-- 
2.43.0


From 599262dbabd9f7e7853a060b95426b158f7fb96b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:47:06 +0000
Subject: [PATCH 13/47] fix: show the failure of an analysis the user started
 even if another one replaces it

---
 ide/src/focus.ts | 40 +++++++++++++++++++++++++++++-----------
 1 file changed, 29 insertions(+), 11 deletions(-)

diff --git a/ide/src/focus.ts b/ide/src/focus.ts
index a8280c3..874da50 100644
--- a/ide/src/focus.ts
+++ b/ide/src/focus.ts
@@ -3,7 +3,14 @@ import path from "path";
 import * as vscode from "vscode";
 
 import { clear_ranges, highlight_slice } from "./decorations";
-import { FlowistryResult, hide_error, is_ok, ok, show_error } from "./errors";
+import {
+  FlowistryError,
+  FlowistryResult,
+  hide_error,
+  is_ok,
+  ok,
+  show_error,
+} from "./errors";
 import { globals } from "./extension";
 import { Range, RangeTree, to_vsc_range } from "./range";
 import { StatusBarState } from "./status_bar";
@@ -275,6 +282,10 @@ export class FocusMode {
   // Whether an update was requested while another one was loading.
   private missed_update: boolean = false;
 
+  // Whether the user started an analysis that has not ended yet, so that its
+  // failure must be shown even if another analysis takes its place.
+  private user_waiting: boolean = false;
+
   doc_save_callback?: vscode.Disposable;
   doc_edit_callback?: vscode.Disposable;
   selection_change_callback?: vscode.Disposable;
@@ -369,6 +380,7 @@ export class FocusMode {
 
     this.set_mode("loading");
     this.missed_update = false;
+    this.user_waiting = this.user_waiting || userActivated;
 
     let is_current = this.is_current();
     let filename = editor.document.fileName;
@@ -385,8 +397,7 @@ export class FocusMode {
         if (doc_state_res.type == "FileNotFound") {
           this.state.set(filename, "notfound");
         } else {
-          this.set_mode("error");
-          if (userActivated) await show_error(doc_state_res);
+          await this.handle_error(doc_state_res);
           return null;
         }
       }
@@ -395,6 +406,7 @@ export class FocusMode {
     let state = this.state.get(filename)!;
     if (state == "notfound") {
       this.set_mode("notfound");
+      this.user_waiting = false;
       this.catch_up();
       return null;
     } else {
@@ -402,15 +414,20 @@ export class FocusMode {
     }
   };
 
-  private handle_analysis_result = async <T>(
-    result: FlowistryResult<T>,
-    userActivated: boolean = false
-  ) => {
+  private handle_error = async (error: FlowistryError) => {
+    this.set_mode("error");
+    if (this.user_waiting) {
+      this.user_waiting = false;
+      await show_error(error);
+    }
+  };
+
+  private handle_analysis_result = async <T>(result: FlowistryResult<T>) => {
     if (!is_ok(result)) {
-      this.set_mode("error");
-      if (userActivated) await show_error(result);
+      await this.handle_error(result);
     } else {
       this.set_mode("active");
+      this.user_waiting = false;
       await hide_error();
       this.catch_up();
     }
@@ -444,7 +461,7 @@ export class FocusMode {
       this.refresh_status();
       return;
     }
-    await this.handle_analysis_result(result, userActivated);
+    await this.handle_analysis_result(result);
   };
 
   private register_callbacks() {
@@ -498,7 +515,7 @@ export class FocusMode {
         this.refresh_status();
         return;
       }
-      await this.handle_analysis_result(result, true);
+      await this.handle_analysis_result(result);
       await this.update_slice(true);
     };
 
@@ -519,6 +536,7 @@ export class FocusMode {
       await this.update_slice(true);
     } else {
       this.epoch += 1;
+      this.user_waiting = false;
       this.set_mode("idle");
       this.clear_ranges();
       this.dispose_callbacks();
-- 
2.43.0


From a5d96faf6389aa2ba1f54d9f3092a9ceea8fb23a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:48:49 +0000
Subject: [PATCH 14/47] fix: mark the selection for which the command was given

---
 ide/src/focus.ts | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/ide/src/focus.ts b/ide/src/focus.ts
index 874da50..d4b2f7d 100644
--- a/ide/src/focus.ts
+++ b/ide/src/focus.ts
@@ -215,6 +215,8 @@ class FocusDocumentState {
     editor: vscode.TextEditor,
     is_current: () => boolean
   ): Promise<FlowistryResult<null>> => {
+    // The cursor may have left the body by the time it is analysed.
+    let selection = editor.selection;
     let body_state_res = await this.get_body_state(editor, is_current);
     if (body_state_res === null) {
       return ok(null);
@@ -222,7 +224,7 @@ class FocusDocumentState {
       return body_state_res;
     }
 
-    body_state_res.value.mark = editor.selection;
+    body_state_res.value.mark = selection;
     return ok(null);
   };
 
-- 
2.43.0


From 70f75faddfa0f3ead93e0ee460ff013d1db9dd10 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:54:49 +0000
Subject: [PATCH 15/47] fix: leave the error state on a save made while no Rust
 file is active

---
 ide/src/focus.ts | 6 ------
 1 file changed, 6 deletions(-)

diff --git a/ide/src/focus.ts b/ide/src/focus.ts
index d4b2f7d..785dd5b 100644
--- a/ide/src/focus.ts
+++ b/ide/src/focus.ts
@@ -318,12 +318,6 @@ export class FocusMode {
 
     // reinitialize focus mode state after each save
     this.doc_save_callback = vscode.workspace.onDidSaveTextDocument(() => {
-      let editor = vscode.window.activeTextEditor;
-
-      if (!editor || !valid_document(editor.document)) {
-        return;
-      }
-
       if (this.mode === "idle") {
         return;
       }
-- 
2.43.0


From ee338040a42f82e365ed0b73e8d311f948bcd0b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:00:42 +0000
Subject: [PATCH 16/47] fix: report output that is not a message as an analysis
 error

---
 ide/src/setup.ts | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/ide/src/setup.ts b/ide/src/setup.ts
index 12f7196..813ef97 100644
--- a/ide/src/setup.ts
+++ b/ide/src/setup.ts
@@ -300,6 +300,9 @@ export async function setup(
       let output_decompressed = zlib.gunzipSync(output_bytes);
       let output_str = output_decompressed.toString("utf8");
       output_typed = JSON.parse(output_str);
+      if (!("Ok" in output_typed || "Err" in output_typed)) {
+        throw `Unexpected output: ${output_str}`;
+      }
     } catch (e: any) {
       return {
         type: "AnalysisError",
-- 
2.43.0


From a4d9f965614a80e99558c2ced2912aff48d21be4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:03:12 +0000
Subject: [PATCH 17/47] fix: make cargo-flowistry executable only once the
 driver is

---
 ide/src/download.ts | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/ide/src/download.ts b/ide/src/download.ts
index e9f267e..34600ac 100644
--- a/ide/src/download.ts
+++ b/ide/src/download.ts
@@ -38,10 +38,11 @@ export let download = async () => {
   let zip = new AdmZip(buffer);
   zip.extractAllTo(dir, true);
 
-  // Ensure downloaded binaries are executable
+  // Ensure downloaded binaries are executable. If this stops halfway, cargo-flowistry
+  // must not run yet, or the next activation would take the installation for complete.
   let suffix = process.platform == "win32" ? ".exe" : "";
-  await fs.chmod(path.join(dir, "cargo-flowistry" + suffix), "755");
   await fs.chmod(path.join(dir, "flowistry-driver" + suffix), "755");
+  await fs.chmod(path.join(dir, "cargo-flowistry" + suffix), "755");
 
   globals.status_bar.set_state("idle");
 };
-- 
2.43.0


From 516c5bbf1bddcef9262483a8340189083d6a1157 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:29:23 +0000
Subject: [PATCH 18/47] sim hooks: choice of the next pending instruction and a
 step point (cfg flowistry_sim)

---
 crates/flowistry/src/lib.rs        |  3 +-
 crates/flowistry/src/mir/engine.rs | 10 ++++-
 crates/flowistry/src/mir/mod.rs    |  2 +
 crates/flowistry/src/mir/sim.rs    | 71 ++++++++++++++++++++++++++++++
 4 files changed, 84 insertions(+), 2 deletions(-)
 create mode 100644 crates/flowistry/src/mir/sim.rs

diff --git a/crates/flowistry/src/lib.rs b/crates/flowistry/src/lib.rs
index 00bc664..5b60e82 100644
--- a/crates/flowistry/src/lib.rs
+++ b/crates/flowistry/src/lib.rs
@@ -46,7 +46,8 @@
   clippy::needless_lifetimes,
   clippy::needless_return,
   clippy::len_zero,
-  clippy::len_without_is_empty
+  clippy::len_without_is_empty,
+  unexpected_cfgs // flowistry_sim, see mir::sim
 )]
 #![warn(missing_docs)]
 
diff --git a/crates/flowistry/src/mir/engine.rs b/crates/flowistry/src/mir/engine.rs
index 93f613a..5aa9d34 100644
--- a/crates/flowistry/src/mir/engine.rs
+++ b/crates/flowistry/src/mir/engine.rs
@@ -15,7 +15,9 @@ use std::rc::Rc;
 
 use either::Either;
 use indexical::ToIndex;
-use rustc_data_structures::{graph::Successors, work_queue::WorkQueue};
+use rustc_data_structures::graph::Successors;
+#[cfg(not(flowistry_sim))]
+use rustc_data_structures::work_queue::WorkQueue;
 use rustc_index::IndexVec;
 use rustc_middle::{
   mir::{Body, Location, traversal},
@@ -30,6 +32,9 @@ use rustc_utils::{
   },
 };
 
+#[cfg(flowistry_sim)]
+use super::sim::{self, WorkQueue};
+
 /// An alternative implementation of
 /// [`rustc_mir_dataflow::Results`](https://doc.rust-lang.org/nightly/nightly-rustc/rustc_mir_dataflow/struct.Results.html).
 pub struct AnalysisResults<'tcx, A: Analysis<'tcx>> {
@@ -80,6 +85,9 @@ pub fn iterate_to_fixpoint<'tcx, A: Analysis<'tcx>>(
   }
 
   while let Some(loc_index) = dirty_queue.pop() {
+    #[cfg(flowistry_sim)]
+    sim::step();
+
     let LocationOrArg::Location(location) = *location_domain.value(loc_index) else {
       unreachable!()
     };
diff --git a/crates/flowistry/src/mir/mod.rs b/crates/flowistry/src/mir/mod.rs
index 07cbd3c..feea2fe 100644
--- a/crates/flowistry/src/mir/mod.rs
+++ b/crates/flowistry/src/mir/mod.rs
@@ -4,3 +4,5 @@ pub mod aliases;
 pub mod engine;
 pub mod placeinfo;
 pub mod utils;
+#[cfg(flowistry_sim)]
+pub mod sim;
diff --git a/crates/flowistry/src/mir/sim.rs b/crates/flowistry/src/mir/sim.rs
new file mode 100644
index 0000000..666c926
--- /dev/null
+++ b/crates/flowistry/src/mir/sim.rs
@@ -0,0 +1,71 @@
+//! Seams for deterministic simulation, compiled only with `--cfg flowistry_sim`.
+//!
+//! Without installed [`Hooks`], everything behaves as in the shipped build.
+
+#![allow(missing_docs)]
+
+use std::{cell::RefCell, collections::VecDeque, rc::Rc};
+
+use rustc_index::{Idx, bit_set::DenseBitSet};
+
+/// Decisions taken by a simulator on the current thread.
+pub trait Hooks {
+  /// Chooses which of `pending` (> 0) queued instructions is processed next.
+  fn pick(&self, pending: usize) -> usize;
+
+  /// Called before each instruction is processed. May block or unwind.
+  fn step(&self);
+}
+
+thread_local! {
+  static HOOKS: RefCell<Option<Rc<dyn Hooks>>> = const { RefCell::new(None) };
+}
+
+/// Installs `hooks` on the current thread, returning the previous ones.
+pub fn install(hooks: Option<Rc<dyn Hooks>>) -> Option<Rc<dyn Hooks>> {
+  HOOKS.with(|cell| cell.replace(hooks))
+}
+
+fn current() -> Option<Rc<dyn Hooks>> {
+  HOOKS.with(|cell| cell.borrow().clone())
+}
+
+pub(super) fn step() {
+  if let Some(hooks) = current() {
+    hooks.step();
+  }
+}
+
+/// Like [`rustc_data_structures::work_queue::WorkQueue`], except that the hooks
+/// choose which element is popped.
+pub(super) struct WorkQueue<T: Idx> {
+  deque: VecDeque<T>,
+  set: DenseBitSet<T>,
+}
+
+impl<T: Idx> WorkQueue<T> {
+  pub fn with_none(len: usize) -> Self {
+    WorkQueue {
+      deque: VecDeque::with_capacity(len),
+      set: DenseBitSet::new_empty(len),
+    }
+  }
+
+  pub fn insert(&mut self, element: T) -> bool {
+    let inserted = self.set.insert(element);
+    if inserted {
+      self.deque.push_back(element);
+    }
+    inserted
+  }
+
+  pub fn pop(&mut self) -> Option<T> {
+    if self.deque.is_empty() {
+      return None;
+    }
+    let index = current().map_or(0, |hooks| hooks.pick(self.deque.len()));
+    let element = self.deque.remove(index)?;
+    self.set.remove(element);
+    Some(element)
+  }
+}
-- 
2.43.0


From a9d98249101c2d75f11a4b5d608090ba97988dd9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:50:32 +0000
Subject: [PATCH 19/47] fix: the element designated by a[i] depends on i

---
 crates/flowistry/src/infoflow/analysis.rs | 15 ++++++++++++++-
 1 file changed, 14 insertions(+), 1 deletion(-)

diff --git a/crates/flowistry/src/infoflow/analysis.rs b/crates/flowistry/src/infoflow/analysis.rs
index c02db27..b3b8847 100644
--- a/crates/flowistry/src/infoflow/analysis.rs
+++ b/crates/flowistry/src/infoflow/analysis.rs
@@ -117,7 +117,20 @@ impl<'a, 'tcx> FlowAnalysis<'a, 'tcx> {
             .aliases(Place::from_ref(place_ref, self.tcx))
             .iter()
         });
-    conflicts.chain(provenance).copied().collect()
+    // The element designated by `a[i]` depends on `i`.
+    let indices = place
+      .projection
+      .iter()
+      .filter_map(|elem| match elem {
+        ProjectionElem::Index(local) => Some(Place::from_local(local, self.tcx)),
+        _ => None,
+      })
+      .flat_map(|index| self.place_info.conflicts(index));
+    conflicts
+      .chain(provenance)
+      .chain(indices)
+      .copied()
+      .collect()
   }
 
   /// Returns all the dependencies of `place` within `state`.
-- 
2.43.0


From d05dadd1a51e33d5a0492bdd82c387b989d6dfec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:53:05 +0000
Subject: [PATCH 20/47] fix: a place conflicts with its parents up to the last
 dereference

---
 crates/flowistry/src/infoflow/analysis.rs | 3 ++-
 crates/flowistry/src/mir/placeinfo.rs     | 1 +
 2 files changed, 3 insertions(+), 1 deletion(-)

diff --git a/crates/flowistry/src/infoflow/analysis.rs b/crates/flowistry/src/infoflow/analysis.rs
index b3b8847..043ec34 100644
--- a/crates/flowistry/src/infoflow/analysis.rs
+++ b/crates/flowistry/src/infoflow/analysis.rs
@@ -116,7 +116,8 @@ impl<'a, 'tcx> FlowAnalysis<'a, 'tcx> {
             .place_info
             .aliases(Place::from_ref(place_ref, self.tcx))
             .iter()
-        });
+        })
+        .flat_map(|pointer| self.place_info.conflicts(*pointer));
     // The element designated by `a[i]` depends on `i`.
     let indices = place
       .projection
diff --git a/crates/flowistry/src/mir/placeinfo.rs b/crates/flowistry/src/mir/placeinfo.rs
index c3bb4a4..0dc1d09 100644
--- a/crates/flowistry/src/mir/placeinfo.rs
+++ b/crates/flowistry/src/mir/placeinfo.rs
@@ -117,6 +117,7 @@ impl<'a, 'tcx> PlaceInfo<'a, 'tcx> {
         .projection
         .iter()
         .enumerate()
+        .rev()
         .map(|(i, elem)| {
           let place = PlaceRef {
             local: place.local,
-- 
2.43.0


From 18d6aafc0e074649c94264c05597649888a91b6e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:53:33 +0000
Subject: [PATCH 21/47] fix: control dependence is transitive

---
 crates/flowistry/src/infoflow/analysis.rs | 27 ++++++++++++++++++++---
 1 file changed, 24 insertions(+), 3 deletions(-)

diff --git a/crates/flowistry/src/infoflow/analysis.rs b/crates/flowistry/src/infoflow/analysis.rs
index 043ec34..b7c710d 100644
--- a/crates/flowistry/src/infoflow/analysis.rs
+++ b/crates/flowistry/src/infoflow/analysis.rs
@@ -155,6 +155,27 @@ impl<'a, 'tcx> FlowAnalysis<'a, 'tcx> {
     deps
   }
 
+  /// Returns every block whose terminator decides, directly or through other
+  /// such terminators, whether `block` is executed.
+  fn controlling_blocks(&self, block: BasicBlock) -> Vec<BasicBlock> {
+    let mut blocks = Vec::new();
+    let mut pending = vec![block];
+    while let Some(block) = pending.pop() {
+      for controller in self
+        .control_dependencies
+        .dependent_on(block)
+        .into_iter()
+        .flat_map(|set| set.iter())
+      {
+        if !blocks.contains(&controller) {
+          blocks.push(controller);
+          pending.push(controller);
+        }
+      }
+    }
+    blocks
+  }
+
   // This function expects *ALL* the mutations that occur within a given [`Location`] at once.
   pub(crate) fn transfer_function(
     &self,
@@ -192,10 +213,10 @@ impl<'a, 'tcx> FlowAnalysis<'a, 'tcx> {
       }
     }
 
-    // Add location of every control dependency.
-    let controlled_by = self.control_dependencies.dependent_on(location.block);
+    // Add location of every control dependency, direct or transitive.
+    let controlled_by = self.controlling_blocks(location.block);
     let body = self.body;
-    for block in controlled_by.into_iter().flat_map(|set| set.iter()) {
+    for block in controlled_by {
       for deps in &mut all_deps {
         deps.insert(body.terminator_loc(block));
       }
-- 
2.43.0


From 6944ce7fc76c843a32d116b2e9c9ed980a8e9a69 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:54:39 +0000
Subject: [PATCH 22/47] fix: assigning an array element keeps what the other
 elements depend on

---
 crates/flowistry/src/infoflow/analysis.rs | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/crates/flowistry/src/infoflow/analysis.rs b/crates/flowistry/src/infoflow/analysis.rs
index b7c710d..8b012c5 100644
--- a/crates/flowistry/src/infoflow/analysis.rs
+++ b/crates/flowistry/src/infoflow/analysis.rs
@@ -236,7 +236,17 @@ impl<'a, 'tcx> FlowAnalysis<'a, 'tcx> {
       is_extension_active(|mode| mode.mutability_mode == MutabilityMode::IgnoreMut);
     for (mt, deps) in mutations.iter().zip(&mut all_deps) {
       // Clear sub-places of mutated place (if sound to do so)
+      // An assignment to `a[i]` leaves the other elements of `a` as they were.
+      let mutates_element = mt.mutated.projection.iter().any(|elem| {
+        matches!(
+          elem,
+          ProjectionElem::Index(..)
+            | ProjectionElem::ConstantIndex { .. }
+            | ProjectionElem::Subslice { .. }
+        )
+      });
       if matches!(mt.status, MutationStatus::Definitely)
+        && !mutates_element
         && self.place_info.aliases(mt.mutated).len() == 1
       {
         for sub in self.place_info.children(mt.mutated).iter() {
-- 
2.43.0


From dfd7c44fc4520bbc59150b6388981f637c5852a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:57:20 +0000
Subject: [PATCH 23/47] fix: a slice of what a local reference points to is not
 empty

---
 crates/flowistry/src/infoflow/analysis.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/crates/flowistry/src/infoflow/analysis.rs b/crates/flowistry/src/infoflow/analysis.rs
index 8b012c5..2900e74 100644
--- a/crates/flowistry/src/infoflow/analysis.rs
+++ b/crates/flowistry/src/infoflow/analysis.rs
@@ -148,6 +148,8 @@ impl<'a, 'tcx> FlowAnalysis<'a, 'tcx> {
       .place_info
       .reachable_values(place, Mutability::Not)
       .iter()
+      // the place itself is not among them if it goes through a local reference
+      .chain([&place])
       .flat_map(|place| self.influences(*place))
     {
       deps.union(state.row_set(&self.place_info.normalize(subplace)));
-- 
2.43.0


From 887a1dde811526a4e59766ae0c87221cbeca9aae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:59:54 +0000
Subject: [PATCH 24/47] fix: forward slices follow parts and local references
 of the target

---
 crates/flowistry/src/infoflow/dependencies.rs | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/crates/flowistry/src/infoflow/dependencies.rs b/crates/flowistry/src/infoflow/dependencies.rs
index 71e0995..08ea003 100644
--- a/crates/flowistry/src/infoflow/dependencies.rs
+++ b/crates/flowistry/src/infoflow/dependencies.rs
@@ -44,6 +44,8 @@ impl TargetDeps {
       place_info
         .reachable_values(*place, Mutability::Not)
         .iter()
+        // the place itself is not among them if it goes through a local reference
+        .chain([place])
         .map(move |reachable| (*reachable, *location))
     });
 
@@ -146,9 +148,7 @@ pub fn compute_dependencies<'tcx>(
 
     for location in body.all_locations() {
       let state = results.state_at(location);
-      let check = |place| {
-        let deps = deps(state, aliases, place);
-
+      let check = |deps: &LocationOrArgSet| {
         for (target_deps, outputs) in
           iter::zip(&all_target_deps, &mut *outputs.borrow_mut())
         {
@@ -168,12 +168,12 @@ pub fn compute_dependencies<'tcx>(
           ..
         }) => {
           if let Some(place) = discr.as_place() {
-            check(place);
+            check(&results.analysis.deps_for(state, place));
           }
         }
         _ => ModularMutationVisitor::new(&results.analysis.place_info, |_, mutations| {
           for Mutation { mutated, .. } in mutations {
-            check(mutated);
+            check(deps(state, aliases, mutated));
           }
         })
         .visit_location(body, location),
-- 
2.43.0


From f4a1254a53ac16c2774ec8522e2520379e3a65ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:03:44 +0000
Subject: [PATCH 25/47] fix: writes of one instruction do not clear each other

---
 crates/flowistry/src/infoflow/analysis.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/crates/flowistry/src/infoflow/analysis.rs b/crates/flowistry/src/infoflow/analysis.rs
index 2900e74..6716b19 100644
--- a/crates/flowistry/src/infoflow/analysis.rs
+++ b/crates/flowistry/src/infoflow/analysis.rs
@@ -236,7 +236,7 @@ impl<'a, 'tcx> FlowAnalysis<'a, 'tcx> {
 
     let ignore_mut =
       is_extension_active(|mode| mode.mutability_mode == MutabilityMode::IgnoreMut);
-    for (mt, deps) in mutations.iter().zip(&mut all_deps) {
+    for mt in &mutations {
       // Clear sub-places of mutated place (if sound to do so)
       // An assignment to `a[i]` leaves the other elements of `a` as they were.
       let mutates_element = mt.mutated.projection.iter().any(|elem| {
@@ -255,7 +255,9 @@ impl<'a, 'tcx> FlowAnalysis<'a, 'tcx> {
           state.clear_row(&self.place_info.normalize(*sub));
         }
       }
+    }
 
+    for (mt, deps) in mutations.iter().zip(&mut all_deps) {
       // Add deps of mutated to include provenance of mutated pointers
       add_deps(state, mt.mutated, deps);
 
-- 
2.43.0


From 88c3d518bb908fc2649c7153822459cd6a41c178 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:07:28 +0000
Subject: [PATCH 26/47] fix: a callee's result depends on which of its returns
 is taken

---
 crates/flowistry/src/infoflow/analysis.rs | 14 ++++-
 crates/flowistry/src/mir/utils.rs         | 70 ++++++++++++++++++++++-
 2 files changed, 79 insertions(+), 5 deletions(-)

diff --git a/crates/flowistry/src/infoflow/analysis.rs b/crates/flowistry/src/infoflow/analysis.rs
index 6716b19..6bab23c 100644
--- a/crates/flowistry/src/infoflow/analysis.rs
+++ b/crates/flowistry/src/infoflow/analysis.rs
@@ -23,12 +23,12 @@ use rustc_utils::{
 use smallvec::SmallVec;
 
 use super::{
-  FlowResults,
+  BODY_STACK, FlowResults,
   mutation::{ModularMutationVisitor, Mutation, MutationStatus},
 };
 use crate::{
   extensions::{ContextMode, MutabilityMode, is_extension_active},
-  mir::placeinfo::PlaceInfo,
+  mir::{placeinfo::PlaceInfo, utils::control_dependencies_to_caller},
 };
 
 /// Represents the information flows at a given instruction. See [`FlowResults`] for a high-level explanation of this datatype.
@@ -85,7 +85,15 @@ impl<'a, 'tcx> FlowAnalysis<'a, 'tcx> {
     place_info: PlaceInfo<'a, 'tcx>,
   ) -> Self {
     let recurse_cache = RefCell::new(HashMap::default());
-    let control_dependencies = body.control_dependencies();
+    // What a variable holds at a point does not depend on the early returns that
+    // were passed on the way to it, but what a caller gets does depend on which of
+    // its callee's returns was taken.
+    let is_callee = BODY_STACK.with(|body_stack| body_stack.borrow().len() > 1);
+    let control_dependencies = if is_callee {
+      control_dependencies_to_caller(body)
+    } else {
+      body.control_dependencies()
+    };
     debug!("Control dependencies: {control_dependencies:?}");
     FlowAnalysis {
       tcx,
diff --git a/crates/flowistry/src/mir/utils.rs b/crates/flowistry/src/mir/utils.rs
index 02b7043..a433110 100644
--- a/crates/flowistry/src/mir/utils.rs
+++ b/crates/flowistry/src/mir/utils.rs
@@ -1,13 +1,18 @@
 //! A potpourri of utilities for working with the MIR, primarily exposed as extension traits.
 
-use rustc_data_structures::fx::FxHashSet as HashSet;
+use rustc_data_structures::{
+  fx::FxHashSet as HashSet,
+  graph::{DirectedGraph, Predecessors, StartNode, Successors},
+};
 use rustc_hir::def_id::DefId;
 use rustc_middle::{
   mir::*,
   ty::{GenericArgKind, RegionKind, RegionVid, Ty, TyCtxt},
 };
 use rustc_span::source_map::Spanned;
-use rustc_utils::{BodyExt, OperandExt, PlaceExt};
+use rustc_utils::{
+  BodyExt, OperandExt, PlaceExt, mir::control_dependencies::ControlDependencies,
+};
 
 use crate::extensions::{MutabilityMode, is_extension_active};
 
@@ -55,6 +60,67 @@ pub fn arg_places<'tcx>(args: &[Spanned<Operand<'tcx>>]) -> Vec<(usize, Place<'t
     .collect::<Vec<_>>()
 }
 
+/// A control-flow graph in which every return leads to one additional block.
+struct SingleExit<'a, 'tcx> {
+  blocks: &'a BasicBlocks<'tcx>,
+  returns: Vec<BasicBlock>,
+}
+
+impl SingleExit<'_, '_> {
+  fn exit(&self) -> BasicBlock {
+    self.blocks.next_index()
+  }
+}
+
+impl DirectedGraph for SingleExit<'_, '_> {
+  type Node = BasicBlock;
+
+  fn num_nodes(&self) -> usize {
+    self.blocks.len() + 1
+  }
+}
+
+impl StartNode for SingleExit<'_, '_> {
+  fn start_node(&self) -> BasicBlock {
+    START_BLOCK
+  }
+}
+
+impl Successors for SingleExit<'_, '_> {
+  fn successors(&self, node: BasicBlock) -> impl Iterator<Item = BasicBlock> {
+    let in_body = (node != self.exit()).then(|| self.blocks.successors(node));
+    let to_exit = self.returns.contains(&node).then(|| self.exit());
+    in_body.into_iter().flatten().chain(to_exit)
+  }
+}
+
+impl Predecessors for SingleExit<'_, '_> {
+  fn predecessors(&self, node: BasicBlock) -> impl Iterator<Item = BasicBlock> {
+    let is_exit = node == self.exit();
+    let in_body = (!is_exit).then(|| self.blocks.predecessors()[node].iter().copied());
+    let from_returns = is_exit.then(|| self.returns.iter().copied());
+    in_body
+      .into_iter()
+      .flatten()
+      .chain(from_returns.into_iter().flatten())
+  }
+}
+
+/// Computes the control dependencies of a body as its caller sees it.
+///
+/// In contrast to [`BodyExt::control_dependencies`], the returns of the body are taken
+/// together: what happens before one `return` also depends on the branches that decide
+/// whether another one is taken.
+pub fn control_dependencies_to_caller(
+  body: &Body,
+) -> ControlDependencies<BasicBlock> {
+  let graph = SingleExit {
+    blocks: &body.basic_blocks,
+    returns: body.all_returns().map(|location| location.block).collect(),
+  };
+  ControlDependencies::build_many(&graph, [graph.exit()])
+}
+
 /// A hack to temporary hack to reduce spurious dependencies in generators
 /// arising from async functions.
 ///
-- 
2.43.0


From add397eef2da56a63b979cc6f8900e4caf304da3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:09:20 +0000
Subject: [PATCH 27/47] fix: derive the type of a callee's field from the
 caller's type

---
 crates/flowistry/src/infoflow/recursive.rs | 23 ++++++++++++----------
 1 file changed, 13 insertions(+), 10 deletions(-)

diff --git a/crates/flowistry/src/infoflow/recursive.rs b/crates/flowistry/src/infoflow/recursive.rs
index d03faca..459547a 100644
--- a/crates/flowistry/src/infoflow/recursive.rs
+++ b/crates/flowistry/src/infoflow/recursive.rs
@@ -3,7 +3,7 @@
 use log::{debug, info};
 use rustc_middle::{
   mir::*,
-  ty::{ClosureKind, GenericArgKind, TyKind},
+  ty::{ClosureKind, GenericArgKind, TyKind, TypeVisitableExt},
 };
 use rustc_mir_dataflow::JoinSemiLattice;
 use rustc_utils::{PlaceExt, mir::borrowck_facts::get_body_with_borrowck_facts};
@@ -182,18 +182,21 @@ impl<'tcx> FlowAnalysis<'_, 'tcx> {
           break;
         }
 
-        // ty = ty.projection_ty_core(tcx, elem, structurally_normalize, handle_field, handle_opaque_cast_and_subtype)
-        ty = ty.projection_ty(tcx, elem);
-        // ty = ty.projection_ty_core(
-        //   tcx,
-        //   &elem,
-        //   |_, field, _| ty.field_ty(tcx, field),
-        //   |_, ty| ty,
-        // );
+        // The type of a field has to be derived from the parent's type, as the regions
+        // in the child's one belong to another body.
         let elem = match elem {
-          ProjectionElem::Field(field, _) => ProjectionElem::Field(field, ty.ty),
+          ProjectionElem::Field(field, child_ty) => {
+            let parent_ty = PlaceTy::field_ty(tcx, ty.ty, ty.variant_index, field);
+            let field_ty = if parent_ty.has_aliases() {
+              child_ty
+            } else {
+              parent_ty
+            };
+            ProjectionElem::Field(field, field_ty)
+          }
           elem => elem,
         };
+        ty = ty.projection_ty(tcx, elem);
         projection.push(elem);
       }
 
-- 
2.43.0


From dd49e090019bc991c1e092504b3f125694ad3e35 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:18:53 +0000
Subject: [PATCH 28/47] fix: writes of one instruction do not read each other

---
 crates/flowistry/src/infoflow/analysis.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/crates/flowistry/src/infoflow/analysis.rs b/crates/flowistry/src/infoflow/analysis.rs
index 6bab23c..d954456 100644
--- a/crates/flowistry/src/infoflow/analysis.rs
+++ b/crates/flowistry/src/infoflow/analysis.rs
@@ -265,10 +265,12 @@ impl<'a, 'tcx> FlowAnalysis<'a, 'tcx> {
       }
     }
 
+    // Add deps of mutated to include provenance of mutated pointers
     for (mt, deps) in mutations.iter().zip(&mut all_deps) {
-      // Add deps of mutated to include provenance of mutated pointers
       add_deps(state, mt.mutated, deps);
+    }
 
+    for (mt, deps) in mutations.iter().zip(&mut all_deps) {
       let mutable_aliases = self
         .place_info
         .aliases(mt.mutated)
-- 
2.43.0


From 2f420abb8f68a5d25a7e32560ba61c33a3bef23e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:18:53 +0000
Subject: [PATCH 29/47] fix: apply the effect of an instruction once to the
 state before it

---
 crates/flowistry/src/mir/engine.rs | 68 ++++++++++++++++++------------
 1 file changed, 42 insertions(+), 26 deletions(-)

diff --git a/crates/flowistry/src/mir/engine.rs b/crates/flowistry/src/mir/engine.rs
index 5aa9d34..4c745a8 100644
--- a/crates/flowistry/src/mir/engine.rs
+++ b/crates/flowistry/src/mir/engine.rs
@@ -64,7 +64,9 @@ pub fn iterate_to_fixpoint<'tcx, A: Analysis<'tcx>>(
   let bottom_value = analysis.bottom_value(body);
 
   // `state` materializes the analysis domain for *every* location, which is the crux
-  // of this implementation strategy.
+  // of this implementation strategy. Up to the fixpoint, it contains the state *before*
+  // each location. (An effect cannot be applied to it in place, since applying an effect
+  // repeatedly can differ from applying it once.)
   let num_locs = body.all_locations().count();
   let mut state = IndexVec::from_elem_n(bottom_value, num_locs);
 
@@ -91,42 +93,39 @@ pub fn iterate_to_fixpoint<'tcx, A: Analysis<'tcx>>(
     let LocationOrArg::Location(location) = *location_domain.value(loc_index) else {
       unreachable!()
     };
+    let mut after = state[loc_index].clone();
+    apply_effect(&mut analysis, body, location, &mut after);
+
     let next_locs = match body.stmt_at(location) {
-      Either::Left(statement) => {
-        analysis.apply_primary_statement_effect(
-          &mut state[loc_index],
-          statement,
-          location,
-        );
-        vec![location.successor_within_block()]
-      }
-      Either::Right(terminator) => {
-        analysis.apply_primary_terminator_effect(
-          &mut state[loc_index],
-          terminator,
-          location,
-        );
-        body
-          .basic_blocks
-          .successors(location.block)
-          .map(|block| Location {
-            block,
-            statement_index: 0,
-          })
-          .collect::<Vec<_>>()
-      }
+      Either::Left(_) => vec![location.successor_within_block()],
+      Either::Right(_) => body
+        .basic_blocks
+        .successors(location.block)
+        .map(|block| Location {
+          block,
+          statement_index: 0,
+        })
+        .collect::<Vec<_>>(),
     };
 
     for next_loc in next_locs {
       let next_loc_index = location_domain.index(&LocationOrArg::Location(next_loc));
-      let (cur_state, next_state) = state.pick2_mut(loc_index, next_loc_index);
-      let changed = next_state.join(cur_state);
+      let changed = state[next_loc_index].join(&after);
       if changed {
         dirty_queue.insert(next_loc_index);
       }
     }
   }
 
+  if A::Direction::IS_FORWARD {
+    for (block, _) in traversal::reachable(body) {
+      for location in body.locations_in_block(block) {
+        let loc_index = location.to_index(&location_domain);
+        apply_effect(&mut analysis, body, location, &mut state[loc_index]);
+      }
+    }
+  }
+
   let state = state.into_iter().map(Rc::new).collect();
 
   AnalysisResults {
@@ -135,3 +134,20 @@ pub fn iterate_to_fixpoint<'tcx, A: Analysis<'tcx>>(
     state,
   }
 }
+
+/// Applies the effect of the instruction at `location` to the `state` before it.
+fn apply_effect<'tcx, A: Analysis<'tcx>>(
+  analysis: &mut A,
+  body: &Body<'tcx>,
+  location: Location,
+  state: &mut A::Domain,
+) {
+  match body.stmt_at(location) {
+    Either::Left(statement) => {
+      analysis.apply_primary_statement_effect(state, statement, location);
+    }
+    Either::Right(terminator) => {
+      analysis.apply_primary_terminator_effect(state, terminator, location);
+    }
+  }
+}
-- 
2.43.0


From e0585b35b30b5174026ffc47b0a90d7975658018 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:23:13 +0000
Subject: [PATCH 30/47] fix: number the fields of a struct by their declaration

---
 crates/flowistry/src/infoflow/mutation.rs | 15 +++--
 crates/flowistry/src/mir/placeinfo.rs     |  9 ++-
 crates/flowistry/src/mir/utils.rs         | 79 ++++++++++++++++++++++-
 3 files changed, 93 insertions(+), 10 deletions(-)

diff --git a/crates/flowistry/src/infoflow/mutation.rs b/crates/flowistry/src/infoflow/mutation.rs
index 05fcdd5..34fe2b0 100644
--- a/crates/flowistry/src/infoflow/mutation.rs
+++ b/crates/flowistry/src/infoflow/mutation.rs
@@ -6,7 +6,7 @@ use rustc_middle::{
   mir::{visit::Visitor, *},
   ty::{AdtKind, TyKind},
 };
-use rustc_utils::{AdtDefExt, OperandExt, mir::place::PlaceCollector};
+use rustc_utils::{OperandExt, mir::place::PlaceCollector};
 
 use crate::mir::{
   placeinfo::PlaceInfo,
@@ -136,12 +136,15 @@ where
         if let TyKind::Adt(adt_def, substs) = place_ty.kind()
           && adt_def.is_struct()
         {
+          // Note that the index of a field counts the fields that aren't visible as well.
           let fields = adt_def
-            .all_visible_fields(self.place_info.def_id, self.place_info.tcx)
-            .enumerate()
-            .map(|(i, field_def)| {
-              PlaceElem::Field(FieldIdx::from_usize(i), field_def.ty(tcx, substs))
-            });
+            .non_enum_variant()
+            .fields
+            .iter_enumerated()
+            .filter(|(_, field_def)| {
+              field_def.vis.is_accessible_from(self.place_info.def_id, tcx)
+            })
+            .map(|(i, field_def)| PlaceElem::Field(i, field_def.ty(tcx, substs)));
           let mut mutations = fields
             .map(|field| {
               let mutated_field = mutated.project_deeper(&[field], tcx);
diff --git a/crates/flowistry/src/mir/placeinfo.rs b/crates/flowistry/src/mir/placeinfo.rs
index 0dc1d09..61375f7 100644
--- a/crates/flowistry/src/mir/placeinfo.rs
+++ b/crates/flowistry/src/mir/placeinfo.rs
@@ -23,7 +23,10 @@ use rustc_utils::{
   },
 };
 
-use super::{aliases::Aliases, utils::PlaceSet};
+use super::{
+  aliases::Aliases,
+  utils::{self, PlaceSet},
+};
 use crate::extensions::{MutabilityMode, is_extension_active};
 
 /// Utilities for analyzing places: children, aliases, etc.
@@ -100,7 +103,7 @@ impl<'a, 'tcx> PlaceInfo<'a, 'tcx> {
   ///
   /// For example, if `x = (0, 1)` then `children(x) = {x, x.0, x.1}`.
   pub fn children(&self, place: Place<'tcx>) -> PlaceSet<'tcx> {
-    PlaceSet::from_iter(place.interior_places(self.tcx, self.body, self.def_id))
+    utils::interior_places(self.tcx, self.body, self.def_id, place)
   }
 
   /// Returns all places that *directly* conflict with `place`, i.e. that a mutation to `place`
@@ -194,7 +197,7 @@ impl<'a, 'tcx> PlaceInfo<'a, 'tcx> {
         });
       ptrs
         .chain([place])
-        .flat_map(|place| place.interior_places(self.tcx, self.body, self.def_id))
+        .flat_map(|place| self.children(place))
         .map(move |place| (place, location))
     })
   }
diff --git a/crates/flowistry/src/mir/utils.rs b/crates/flowistry/src/mir/utils.rs
index a433110..eff51cf 100644
--- a/crates/flowistry/src/mir/utils.rs
+++ b/crates/flowistry/src/mir/utils.rs
@@ -1,5 +1,6 @@
 //! A potpourri of utilities for working with the MIR, primarily exposed as extension traits.
 
+use rustc_abi::FieldIdx;
 use rustc_data_structures::{
   fx::FxHashSet as HashSet,
   graph::{DirectedGraph, Predecessors, StartNode, Successors},
@@ -7,7 +8,7 @@ use rustc_data_structures::{
 use rustc_hir::def_id::DefId;
 use rustc_middle::{
   mir::*,
-  ty::{GenericArgKind, RegionKind, RegionVid, Ty, TyCtxt},
+  ty::{GenericArgKind, RegionKind, RegionVid, Ty, TyCtxt, TyKind},
 };
 use rustc_span::source_map::Spanned;
 use rustc_utils::{
@@ -23,6 +24,82 @@ use crate::extensions::{MutabilityMode, is_extension_active};
 /// [`Place`]s that was not "every possible place in the body".
 pub type PlaceSet<'tcx> = HashSet<Place<'tcx>>;
 
+/// Returns all places within `place` without going through references.
+///
+/// As opposed to [`PlaceExt::interior_places`], the fields of a struct keep their index
+/// if some of them aren't visible from `def_id`.
+pub fn interior_places<'tcx>(
+  tcx: TyCtxt<'tcx>,
+  body: &Body<'tcx>,
+  def_id: DefId,
+  place: Place<'tcx>,
+) -> PlaceSet<'tcx> {
+  struct Collector<'tcx> {
+    tcx: TyCtxt<'tcx>,
+    def_id: DefId,
+    ty_stack: Vec<Ty<'tcx>>,
+    places: PlaceSet<'tcx>,
+  }
+
+  impl<'tcx> Collector<'tcx> {
+    fn visit_elem(&mut self, place: Place<'tcx>, elem: PlaceElem<'tcx>, ty: Ty<'tcx>) {
+      self.visit(place.project_deeper(&[elem], self.tcx), ty);
+    }
+
+    fn visit(&mut self, place: Place<'tcx>, ty: Ty<'tcx>) {
+      if self.ty_stack.contains(&ty) {
+        return;
+      }
+      self.ty_stack.push(ty);
+
+      match ty.kind() {
+        _ if ty.is_box() => self.visit_elem(place, PlaceElem::Deref, ty.expect_boxed_ty()),
+        TyKind::RawPtr(inner, _) => self.visit_elem(place, PlaceElem::Deref, *inner),
+        TyKind::Array(elem, _) | TyKind::Slice(elem) => {
+          self.visit_elem(place, PlaceElem::Index(Local::from_usize(0)), *elem)
+        }
+        TyKind::Tuple(tys) => {
+          for (i, ty) in tys.iter().enumerate() {
+            self.visit_elem(place, PlaceElem::Field(FieldIdx::from_usize(i), ty), ty);
+          }
+        }
+        TyKind::Closure(_, args) | TyKind::Coroutine(_, args) => {
+          self.visit(place, args.as_closure().tupled_upvars_ty())
+        }
+        TyKind::Adt(adt_def, args) if !adt_def.is_union() => {
+          for (variant_index, variant) in adt_def.variants().iter_enumerated() {
+            let place = if adt_def.is_enum() {
+              let downcast = PlaceElem::Downcast(Some(variant.name), variant_index);
+              place.project_deeper(&[downcast], self.tcx)
+            } else {
+              place
+            };
+            for (index, field) in variant.fields.iter_enumerated() {
+              if adt_def.is_enum() || field.vis.is_accessible_from(self.def_id, self.tcx) {
+                let ty = field.ty(self.tcx, args);
+                self.visit_elem(place, PlaceElem::Field(index, ty), ty);
+              }
+            }
+          }
+        }
+        _ => {}
+      }
+
+      self.places.insert(place);
+      self.ty_stack.pop();
+    }
+  }
+
+  let mut collector = Collector {
+    tcx,
+    def_id,
+    ty_stack: Vec::new(),
+    places: PlaceSet::default(),
+  };
+  collector.visit(place, place.ty(body.local_decls(), tcx).ty);
+  collector.places
+}
+
 /// Given the arguments to a function, returns all projections of the arguments that are mutable pointers.
 pub fn arg_mut_ptrs<'tcx>(
   args: &[(usize, Place<'tcx>)],
-- 
2.43.0


From fcf4ffeeb9f39095fc60ed25c582dd08dc2efc94 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:25:14 +0000
Subject: [PATCH 31/47] fix: the effect of a call through a variable depends on
 the function it holds

---
 crates/flowistry/src/infoflow/mutation.rs | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/crates/flowistry/src/infoflow/mutation.rs b/crates/flowistry/src/infoflow/mutation.rs
index 34fe2b0..685a7b4 100644
--- a/crates/flowistry/src/infoflow/mutation.rs
+++ b/crates/flowistry/src/infoflow/mutation.rs
@@ -187,7 +187,7 @@ where
 
     match &terminator.kind {
       TerminatorKind::Call {
-        /*func,*/ // TODO: deal with func
+        func,
         args,
         destination,
         ..
@@ -202,7 +202,9 @@ where
           .map(|(_, place)| place)
           .filter(|place| !async_hack.ignore_place(*place))
           .collect::<Vec<_>>();
-        let arg_inputs = arg_places.clone();
+        // The effect of a call through a variable depends on which function it holds.
+        let mut arg_inputs = arg_places.clone();
+        arg_inputs.extend(func.as_place());
 
         let ret_is_unit = destination
           .ty(self.place_info.body.local_decls(), tcx)
-- 
2.43.0


From 3a41c06a6bd8263a5804564c546cc514e0bac7e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:35:05 +0000
Subject: [PATCH 32/47] fix: take an aborted body off the stack

---
 crates/flowistry/src/infoflow/mod.rs | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/crates/flowistry/src/infoflow/mod.rs b/crates/flowistry/src/infoflow/mod.rs
index cf720a0..457350c 100644
--- a/crates/flowistry/src/infoflow/mod.rs
+++ b/crates/flowistry/src/infoflow/mod.rs
@@ -7,6 +7,7 @@ use std::cell::RefCell;
 
 use log::debug;
 use rustc_borrowck::consumers::BodyWithBorrowckFacts;
+use rustc_data_structures::defer;
 use rustc_hir::BodyId;
 use rustc_middle::ty::TyCtxt;
 use rustc_utils::{BodyExt, block_timer};
@@ -83,6 +84,10 @@ pub fn compute_flow<'a, 'tcx>(
 ) -> FlowResults<'a, 'tcx> {
   BODY_STACK.with(|body_stack| {
     body_stack.borrow_mut().push(body_id);
+    // Takes the body off the stack even if the analysis unwinds.
+    let _pop = defer(|| {
+      body_stack.borrow_mut().pop();
+    });
     debug!("{}", body_with_facts.body.to_string(tcx).unwrap());
 
     let def_id = tcx.hir_body_owner_def_id(body_id).to_def_id();
@@ -128,8 +133,6 @@ pub fn compute_flow<'a, 'tcx>(
       // utils::dump_results(body, &results, def_id, tcx).unwrap();
     }
 
-    body_stack.borrow_mut().pop();
-
     results
   })
 }
-- 
2.43.0


From 095cb69626da88d7d15f9580ec8b7ddaf8691ad5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:35:14 +0000
Subject: [PATCH 33/47] fix: what a place aliases does not depend on the places
 asked about before

---
 crates/flowistry/src/mir/placeinfo.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/crates/flowistry/src/mir/placeinfo.rs b/crates/flowistry/src/mir/placeinfo.rs
index 61375f7..30cb5bf 100644
--- a/crates/flowistry/src/mir/placeinfo.rs
+++ b/crates/flowistry/src/mir/placeinfo.rs
@@ -92,11 +92,11 @@ impl<'a, 'tcx> PlaceInfo<'a, 'tcx> {
   /// For example, if `x = &y`, then `*x` aliases `y`.
   /// Note that an alias is NOT guaranteed to be of the same type as `place`!
   pub fn aliases(&self, place: Place<'tcx>) -> &PlaceSet<'tcx> {
-    // note: important that aliases are computed on the unnormalized place
-    // which contains region information
+    // note: important that aliases are computed on (and cached for) the unnormalized
+    // place which contains region information
     self
       .aliases_cache
-      .get(&self.normalize(place), move |_| self.aliases.aliases(place))
+      .get(&place, move |place| self.aliases.aliases(place))
   }
 
   /// Returns all reachable fields of `place` without going through references.
-- 
2.43.0


From fc62e880639944734003255785c47458ec3ca947 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:55:31 +0000
Subject: [PATCH 34/47] fix: a call reads everything its arguments reach

---
 crates/flowistry/src/infoflow/mutation.rs | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/crates/flowistry/src/infoflow/mutation.rs b/crates/flowistry/src/infoflow/mutation.rs
index 685a7b4..e3a8ddc 100644
--- a/crates/flowistry/src/infoflow/mutation.rs
+++ b/crates/flowistry/src/infoflow/mutation.rs
@@ -202,8 +202,17 @@ where
           .map(|(_, place)| place)
           .filter(|place| !async_hack.ignore_place(*place))
           .collect::<Vec<_>>();
-        // The effect of a call through a variable depends on which function it holds.
+        // A call can read everything that its arguments reach, e.g. for `f(&p)` what
+        // `p.r` points to.
         let mut arg_inputs = arg_places.clone();
+        arg_inputs.extend(arg_places.iter().flat_map(|arg| {
+          self
+            .place_info
+            .reachable_values(*arg, Mutability::Not)
+            .iter()
+            .copied()
+        }));
+        // The effect of a call through a variable depends on which function it holds.
         arg_inputs.extend(func.as_place());
 
         let ret_is_unit = destination
-- 
2.43.0


From b591d0b533f1b8c11b712086894fa38e05d8a226 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:56:46 +0000
Subject: [PATCH 35/47] fix: a callee that assigns to its argument still has
 read it

---
 crates/flowistry/src/infoflow/recursive.rs | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/crates/flowistry/src/infoflow/recursive.rs b/crates/flowistry/src/infoflow/recursive.rs
index 459547a..dbd6780 100644
--- a/crates/flowistry/src/infoflow/recursive.rs
+++ b/crates/flowistry/src/infoflow/recursive.rs
@@ -6,7 +6,12 @@ use rustc_middle::{
   ty::{ClosureKind, GenericArgKind, TyKind, TypeVisitableExt},
 };
 use rustc_mir_dataflow::JoinSemiLattice;
-use rustc_utils::{PlaceExt, mir::borrowck_facts::get_body_with_borrowck_facts};
+use rustc_utils::{
+  PlaceExt,
+  mir::{
+    borrowck_facts::get_body_with_borrowck_facts, location_or_arg::LocationOrArg,
+  },
+};
 
 use super::{BODY_STACK, analysis::FlowAnalysis};
 use crate::{
@@ -215,9 +220,13 @@ impl<'tcx> FlowAnalysis<'_, 'tcx> {
       }
 
       let child_deps = return_state.row_set(child);
+      // An argument that the child has assigned to since still has been read.
       let parent_deps = return_state
         .rows()
-        .filter(|(_, deps)| child_deps.is_superset(deps))
+        .filter(|(row, deps)| {
+          child_deps.is_superset(deps)
+            || (row.is_arg(body) && child_deps.contains(LocationOrArg::Arg(row.local)))
+        })
         .filter_map(|(row, _)| translate_child_to_parent(*row, false))
         .collect::<Vec<_>>();
 
-- 
2.43.0


From 25f0a550d50a44a336137b9629bbc14e56ee9677 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:55:11 +0000
Subject: [PATCH 36/47] fix: a normalized place does not depend on the return
 place

---
 crates/flowistry/src/infoflow/analysis.rs | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/crates/flowistry/src/infoflow/analysis.rs b/crates/flowistry/src/infoflow/analysis.rs
index d954456..2c60aed 100644
--- a/crates/flowistry/src/infoflow/analysis.rs
+++ b/crates/flowistry/src/infoflow/analysis.rs
@@ -126,12 +126,15 @@ impl<'a, 'tcx> FlowAnalysis<'a, 'tcx> {
             .iter()
         })
         .flat_map(|pointer| self.place_info.conflicts(*pointer));
-    // The element designated by `a[i]` depends on `i`.
+    // The element designated by `a[i]` depends on `i`. (The index of a normalized place
+    // is the return place, which stands for any index.)
     let indices = place
       .projection
       .iter()
       .filter_map(|elem| match elem {
-        ProjectionElem::Index(local) => Some(Place::from_local(local, self.tcx)),
+        ProjectionElem::Index(local) if local != RETURN_PLACE => {
+          Some(Place::from_local(local, self.tcx))
+        }
         _ => None,
       })
       .flat_map(|index| self.place_info.conflicts(index));
-- 
2.43.0


From db68a3a9093f3337129ebca35488701481bff440 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:55:11 +0000
Subject: [PATCH 37/47] fix: report insecure flows through references and
 before a place is overwritten

---
 crates/flowistry_ifc/src/analysis.rs | 97 +++++++++++++++++++++-------
 1 file changed, 75 insertions(+), 22 deletions(-)

diff --git a/crates/flowistry_ifc/src/analysis.rs b/crates/flowistry_ifc/src/analysis.rs
index c2afa95..8c4e0b1 100644
--- a/crates/flowistry_ifc/src/analysis.rs
+++ b/crates/flowistry_ifc/src/analysis.rs
@@ -3,7 +3,10 @@
 use std::io::Write;
 
 use anyhow::Result;
-use flowistry::{infoflow::FlowResults, mir::utils::PlaceSet};
+use flowistry::{
+  infoflow::{FlowAnalysis, FlowResults},
+  mir::utils::PlaceSet,
+};
 use rustc_data_structures::fx::FxHashMap as HashMap;
 use rustc_hir::{BodyId, def::Res, def_id::DefId};
 use rustc_infer::traits::EvaluationResult;
@@ -11,10 +14,11 @@ use rustc_middle::{
   mir::*,
   ty::{ParamEnv, Ty, TyCtxt, TypingMode},
 };
-use rustc_mir_dataflow::JoinSemiLattice;
 use rustc_span::FileName;
 use rustc_trait_selection::infer::{InferCtxtExt, TyCtxtInferExt};
-use rustc_utils::{BodyExt, PlaceExt, SpanExt};
+use rustc_utils::{
+  BodyExt, PlaceExt, SpanExt, mir::location_or_arg::index::LocationOrArgSet,
+};
 use termcolor::{Color, ColorChoice, ColorSpec, StandardStream, WriteColor};
 
 fn implements_trait<'tcx>(
@@ -37,7 +41,39 @@ pub enum IssueFound {
   No,
 }
 
-pub fn analyze(body_id: &BodyId, results: &FlowResults) -> Result<IssueFound> {
+/// Returns all places reachable from `place`, including those behind references.
+fn reachable_places<'tcx>(
+  analysis: &FlowAnalysis<'_, 'tcx>,
+  place: Place<'tcx>,
+) -> Vec<Place<'tcx>> {
+  fn visit<'tcx>(
+    analysis: &FlowAnalysis<'_, 'tcx>,
+    place: Place<'tcx>,
+    ty_stack: &mut Vec<Ty<'tcx>>,
+    places: &mut Vec<Place<'tcx>>,
+  ) {
+    let tcx = analysis.tcx;
+    for child in analysis.place_info.children(place) {
+      places.push(child);
+      let ty = tcx.erase_regions(child.ty(analysis.body.local_decls(), tcx).ty);
+      // Visit a (possibly recursive) type only once.
+      if ty.is_ref() && !ty_stack.contains(&ty) {
+        ty_stack.push(ty);
+        visit(analysis, tcx.mk_place_deref(child), ty_stack, places);
+        ty_stack.pop();
+      }
+    }
+  }
+
+  let mut places = Vec::new();
+  visit(analysis, place, &mut Vec::new(), &mut places);
+  places
+}
+
+pub fn analyze<'tcx>(
+  body_id: &BodyId,
+  results: &FlowResults<'_, 'tcx>,
+) -> Result<IssueFound> {
   let tcx = results.analysis.tcx;
   let body = results.analysis.body;
   let def_id = tcx.hir_body_owner_def_id(*body_id).to_def_id();
@@ -77,13 +113,10 @@ pub fn analyze(body_id: &BodyId, results: &FlowResults) -> Result<IssueFound> {
   let all_places = body
     .local_decls()
     .indices()
-    .flat_map(|local| {
-      let place = Place::from_local(local, tcx);
-      place.interior_places(tcx, body, def_id)
-    })
+    .flat_map(|local| reachable_places(&results.analysis, Place::from_local(local, tcx)))
     .collect::<PlaceSet>();
 
-  let find_implements = |trait_def_id| -> PlaceSet {
+  let find_implements = |trait_def_id| -> PlaceSet<'tcx> {
     all_places
       .iter()
       .copied()
@@ -96,22 +129,42 @@ pub fn analyze(body_id: &BodyId, results: &FlowResults) -> Result<IssueFound> {
   let secure_places = find_implements(ifc_items["Secure"]);
   let insecure_places = find_implements(ifc_items["Insecure"]);
 
-  let final_state = body
-    .all_returns()
-    .map(|location| results.state_at(location).clone())
-    .reduce(|mut a, b| {
-      a.join(&b);
-      a
-    })
-    .unwrap();
+  // The dependencies that a place has anywhere in the body. Both a secure and an insecure
+  // place can be overwritten after a flow, so it isn't enough to look at the final state.
+  let all_deps = |place: Place<'tcx>| {
+    let mut all_deps: Vec<LocationOrArgSet> = Vec::new();
+    for location in body.all_locations() {
+      let deps = results
+        .analysis
+        .deps_for(results.state_at(location), place);
+      if !deps.is_empty() && !all_deps.contains(&deps) {
+        all_deps.push(deps);
+      }
+    }
+    all_deps
+  };
+  let insecure_deps = insecure_places
+    .iter()
+    .map(|insecure| (insecure, all_deps(*insecure)))
+    .collect::<Vec<_>>();
 
   let mut errors = Vec::new();
   for secure in secure_places.iter() {
-    let secure_deps = results.analysis.deps_for(&final_state, *secure);
-    for insecure in insecure_places.iter() {
-      let insecure_deps = results.analysis.deps_for(&final_state, *insecure);
-      if insecure_deps.is_superset(&secure_deps) {
-        errors.push((secure, insecure));
+    // A part of a secure value is secure as well.
+    let secure_deps = results
+      .analysis
+      .place_info
+      .children(*secure)
+      .into_iter()
+      .flat_map(all_deps)
+      .collect::<Vec<_>>();
+    for (insecure, insecure_deps) in insecure_deps.iter() {
+      if insecure_deps.iter().any(|insecure_deps| {
+        secure_deps
+          .iter()
+          .any(|secure_deps| insecure_deps.is_superset(secure_deps))
+      }) {
+        errors.push((secure, *insecure));
       }
     }
   }
-- 
2.43.0


From a6d3e64e5f2ba14090354fabd57df6615e155a05 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:55:11 +0000
Subject: [PATCH 38/47] fix: locate insecure flows from and to the arguments of
 a function

---
 crates/flowistry_ifc/src/analysis.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/crates/flowistry_ifc/src/analysis.rs b/crates/flowistry_ifc/src/analysis.rs
index 8c4e0b1..4fb3734 100644
--- a/crates/flowistry_ifc/src/analysis.rs
+++ b/crates/flowistry_ifc/src/analysis.rs
@@ -183,7 +183,9 @@ pub fn analyze<'tcx>(
   };
   let has_errors = !errors.is_empty();
   for (src, dst) in errors {
-    let body_span = tcx.hir_span_with_body(body_id.hir_id);
+    // The span of the whole function: its arguments aren't inside the span of its body.
+    let owner = tcx.hir_body_owner_def_id(*body_id);
+    let body_span = tcx.hir_span_with_body(tcx.local_def_id_to_hir_id(owner));
     let src_span = decls[src.local].source_info.span.as_local(body_span);
     let dst_span = decls[dst.local].source_info.span.as_local(body_span);
 
-- 
2.43.0


From bc24ea4ee80768836d96ed611037b9c409d6de3e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:00:56 +0000
Subject: [PATCH 39/47] fix: a place that still has the value of an argument
 has received no insecure flow

---
 crates/flowistry_ifc/src/analysis.rs | 14 ++++++++++++--
 1 file changed, 12 insertions(+), 2 deletions(-)

diff --git a/crates/flowistry_ifc/src/analysis.rs b/crates/flowistry_ifc/src/analysis.rs
index 4fb3734..068f489 100644
--- a/crates/flowistry_ifc/src/analysis.rs
+++ b/crates/flowistry_ifc/src/analysis.rs
@@ -17,7 +17,8 @@ use rustc_middle::{
 use rustc_span::FileName;
 use rustc_trait_selection::infer::{InferCtxtExt, TyCtxtInferExt};
 use rustc_utils::{
-  BodyExt, PlaceExt, SpanExt, mir::location_or_arg::index::LocationOrArgSet,
+  BodyExt, PlaceExt, SpanExt,
+  mir::location_or_arg::{LocationOrArg, index::LocationOrArgSet},
 };
 use termcolor::{Color, ColorChoice, ColorSpec, StandardStream, WriteColor};
 
@@ -145,7 +146,16 @@ pub fn analyze<'tcx>(
   };
   let insecure_deps = insecure_places
     .iter()
-    .map(|insecure| (insecure, all_deps(*insecure)))
+    .map(|insecure| {
+      let mut deps = all_deps(*insecure);
+      // Nothing has flowed into a place that still has the value of an argument.
+      deps.retain(|deps| {
+        deps
+          .iter()
+          .any(|dep| matches!(dep, LocationOrArg::Location(_)))
+      });
+      (insecure, deps)
+    })
     .collect::<Vec<_>>();
 
   let mut errors = Vec::new();
-- 
2.43.0


From 6a35a7dc26613377bc7b18989e1fbb14a1ac50f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:30:36 +0000
Subject: [PATCH 40/47] fix: do not exit successfully when the result could not
 be written

---
 crates/flowistry_ide/src/plugin.rs | 17 +++++++++++++----
 1 file changed, 13 insertions(+), 4 deletions(-)

diff --git a/crates/flowistry_ide/src/plugin.rs b/crates/flowistry_ide/src/plugin.rs
index 311c1df..9251064 100644
--- a/crates/flowistry_ide/src/plugin.rs
+++ b/crates/flowistry_ide/src/plugin.rs
@@ -1,6 +1,7 @@
 use std::{
   borrow::Cow,
   env,
+  io::{self, Write},
   path::PathBuf,
   process::{Command, exit},
   time::Instant,
@@ -231,10 +232,18 @@ fn postprocess<T: Serialize>(result: FlowistryResult<T>) -> RustcResult<()> {
     flate2::write::GzEncoder::new(Vec::new(), flate2::Compression::best());
   serde_json::to_writer(&mut encoder, &result).unwrap();
   let buffer = encoder.finish().unwrap();
-  print!(
-    "{}",
-    base64::engine::general_purpose::STANDARD.encode(buffer)
-  );
+
+  // Standard output is buffered, and what is left in the buffer at exit is written
+  // without regard to errors, so flush it to be sure that the answer was delivered.
+  let mut stdout = io::stdout().lock();
+  stdout
+    .write_all(
+      base64::engine::general_purpose::STANDARD
+        .encode(buffer)
+        .as_bytes(),
+    )
+    .and_then(|()| stdout.flush())
+    .expect("could not write the result to stdout");
 
   Ok(())
 }
-- 
2.43.0


From 9e1f621e29d79cbf20801b229bdc5dfa730f1094 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:33:17 +0000
Subject: [PATCH 41/47] fix: analyze calls by type if their arguments hide
 references from the callee

In recursive mode, the effects of a callee were translated place by place, so
those on references in private fields, trait objects or generic types were lost.
---
 crates/flowistry/src/infoflow/recursive.rs | 18 +++++++++--
 crates/flowistry/src/mir/utils.rs          | 37 ++++++++++++++++++++++
 2 files changed, 53 insertions(+), 2 deletions(-)

diff --git a/crates/flowistry/src/infoflow/recursive.rs b/crates/flowistry/src/infoflow/recursive.rs
index dbd6780..6068a10 100644
--- a/crates/flowistry/src/infoflow/recursive.rs
+++ b/crates/flowistry/src/infoflow/recursive.rs
@@ -50,8 +50,8 @@ impl<'tcx> FlowAnalysis<'_, 'tcx> {
       }
     };
 
-    let def_id = match func.const_.ty().kind() {
-      TyKind::FnDef(def_id, _) => def_id,
+    let (def_id, generic_args) = match func.const_.ty().kind() {
+      TyKind::FnDef(def_id, generic_args) => (def_id, generic_args),
       _ => {
         debug!("  Func is not a FnDef");
         return false;
@@ -113,6 +113,20 @@ impl<'tcx> FlowAnalysis<'_, 'tcx> {
       return false;
     }
 
+    // The callee's effects are described by the places it can name. References that it
+    // cannot name (or that we cannot) would be missed.
+    let hides_references = parent_arg_places.iter().any(|(_, place)| {
+      let ty = place.ty(self.body.local_decls(), tcx).ty;
+      utils::hides_references(tcx, self.def_id, ty)
+        || utils::hides_references(tcx, *def_id, ty)
+    }) || generic_args
+      .types()
+      .any(|ty| ty.walk().any(|arg| arg.as_region().is_some()));
+    if hides_references {
+      debug!("  Func has inputs with hidden references");
+      return false;
+    }
+
     let recursive = BODY_STACK.with(|body_stack| {
       let body_stack = body_stack.borrow();
       body_stack.contains(&body_id)
diff --git a/crates/flowistry/src/mir/utils.rs b/crates/flowistry/src/mir/utils.rs
index eff51cf..5451a43 100644
--- a/crates/flowistry/src/mir/utils.rs
+++ b/crates/flowistry/src/mir/utils.rs
@@ -100,6 +100,43 @@ pub fn interior_places<'tcx>(
   collector.places
 }
 
+/// Returns true if a value of type `ty` contains references that no place visible from
+/// `def_id` designates, e.g. those in private fields or in trait objects.
+pub fn hides_references<'tcx>(tcx: TyCtxt<'tcx>, def_id: DefId, ty: Ty<'tcx>) -> bool {
+  fn visit<'tcx>(
+    tcx: TyCtxt<'tcx>,
+    def_id: DefId,
+    ty: Ty<'tcx>,
+    ty_stack: &mut Vec<Ty<'tcx>>,
+  ) -> bool {
+    if ty_stack.contains(&ty) {
+      return false;
+    }
+    ty_stack.push(ty);
+    let hides = match ty.kind() {
+      _ if ty.is_box() => visit(tcx, def_id, ty.expect_boxed_ty(), ty_stack),
+      TyKind::Ref(_, inner, _)
+      | TyKind::Array(inner, _)
+      | TyKind::Slice(inner) => visit(tcx, def_id, *inner, ty_stack),
+      TyKind::Tuple(tys) => tys.iter().any(|ty| visit(tcx, def_id, ty, ty_stack)),
+      TyKind::Adt(adt_def, args) => adt_def.all_fields().any(|field| {
+        let ty = field.ty(tcx, args);
+        if adt_def.is_enum() || field.vis.is_accessible_from(def_id, tcx) {
+          visit(tcx, def_id, ty, ty_stack)
+        } else {
+          ty.walk().any(|arg| arg.as_region().is_some())
+        }
+      }),
+      TyKind::Dynamic(..) => true,
+      _ => false,
+    };
+    ty_stack.pop();
+    hides
+  }
+
+  visit(tcx, def_id, ty, &mut Vec::new())
+}
+
 /// Given the arguments to a function, returns all projections of the arguments that are mutable pointers.
 pub fn arg_mut_ptrs<'tcx>(
   args: &[(usize, Place<'tcx>)],
-- 
2.43.0


From ef1a0a7cc2ad274ae9637e2c8c485f9ade554ecd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:52:48 +0000
Subject: [PATCH 42/47] fix: assign the fields of a struct that are not visible
 along with those that are

---
 crates/flowistry/src/infoflow/mutation.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/crates/flowistry/src/infoflow/mutation.rs b/crates/flowistry/src/infoflow/mutation.rs
index e3a8ddc..f0ff24d 100644
--- a/crates/flowistry/src/infoflow/mutation.rs
+++ b/crates/flowistry/src/infoflow/mutation.rs
@@ -157,7 +157,10 @@ where
             })
             .collect::<Vec<_>>();
 
-          if mutations.is_empty() {
+          // Fields that aren't visible have no place of their own, and are assigned as
+          // part of the struct.
+          let all_visible = mutations.len() == adt_def.non_enum_variant().fields.len();
+          if mutations.is_empty() || !all_visible {
             mutations.push(Mutation {
               mutated: *mutated,
               inputs: vec![*place],
-- 
2.43.0


From c207f7d5fa2bcf6631a871c84c123ffe00611484 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:52:48 +0000
Subject: [PATCH 43/47] fix: number the references in a struct by its
 declaration

---
 crates/flowistry/src/mir/aliases.rs   |   6 +-
 crates/flowistry/src/mir/placeinfo.rs |   3 +-
 crates/flowistry/src/mir/utils.rs     | 111 ++++++++++++++++++++++++--
 3 files changed, 109 insertions(+), 11 deletions(-)

diff --git a/crates/flowistry/src/mir/aliases.rs b/crates/flowistry/src/mir/aliases.rs
index 84104e7..50518b4 100644
--- a/crates/flowistry/src/mir/aliases.rs
+++ b/crates/flowistry/src/mir/aliases.rs
@@ -22,7 +22,7 @@ use rustc_utils::{PlaceExt, mir::place::UNKNOWN_REGION, timer::elapsed};
 
 use crate::{
   extensions::{PointerMode, is_extension_active},
-  mir::utils::{AsyncHack, PlaceSet},
+  mir::utils::{self, AsyncHack, PlaceSet},
 };
 
 type BorrowckLocationIndex =
@@ -122,7 +122,7 @@ impl<'a, 'tcx> Aliases<'a, 'tcx> {
       .local_decls()
       .indices()
       .flat_map(|local| {
-        Place::from_local(local, tcx).interior_pointers(tcx, body, def_id)
+        utils::interior_pointers(tcx, body, def_id, Place::from_local(local, tcx))
       })
       .collect::<Vec<_>>();
     let max_region = all_pointers
@@ -210,7 +210,7 @@ impl<'a, 'tcx> Aliases<'a, 'tcx> {
     // For all args p : &'a ω T where 'a is abstract: contains('a, *p, ω).
     for arg in body.args_iter() {
       for (region, places) in
-        Place::from_local(arg, tcx).interior_pointers(tcx, body, def_id)
+        utils::interior_pointers(tcx, body, def_id, Place::from_local(arg, tcx))
       {
         let region_contains = contains.entry(region).or_default();
         for (place, mutability) in places {
diff --git a/crates/flowistry/src/mir/placeinfo.rs b/crates/flowistry/src/mir/placeinfo.rs
index 30cb5bf..831d23f 100644
--- a/crates/flowistry/src/mir/placeinfo.rs
+++ b/crates/flowistry/src/mir/placeinfo.rs
@@ -186,8 +186,7 @@ impl<'a, 'tcx> PlaceInfo<'a, 'tcx> {
     self.body.args_iter().flat_map(|local| {
       let location = local.to_index(&self.location_domain);
       let place = Place::from_local(local, self.tcx);
-      let ptrs = place
-        .interior_pointers(self.tcx, self.body, self.def_id)
+      let ptrs = utils::interior_pointers(self.tcx, self.body, self.def_id, place)
         .into_values()
         .flat_map(|ptrs| {
           ptrs
diff --git a/crates/flowistry/src/mir/utils.rs b/crates/flowistry/src/mir/utils.rs
index 5451a43..c3dea2a 100644
--- a/crates/flowistry/src/mir/utils.rs
+++ b/crates/flowistry/src/mir/utils.rs
@@ -2,7 +2,7 @@
 
 use rustc_abi::FieldIdx;
 use rustc_data_structures::{
-  fx::FxHashSet as HashSet,
+  fx::{FxHashMap as HashMap, FxHashSet as HashSet},
   graph::{DirectedGraph, Predecessors, StartNode, Successors},
 };
 use rustc_hir::def_id::DefId;
@@ -12,7 +12,8 @@ use rustc_middle::{
 };
 use rustc_span::source_map::Spanned;
 use rustc_utils::{
-  BodyExt, OperandExt, PlaceExt, mir::control_dependencies::ControlDependencies,
+  BodyExt, OperandExt,
+  mir::{control_dependencies::ControlDependencies, place::UNKNOWN_REGION},
 };
 
 use crate::extensions::{MutabilityMode, is_extension_active};
@@ -26,8 +27,8 @@ pub type PlaceSet<'tcx> = HashSet<Place<'tcx>>;
 
 /// Returns all places within `place` without going through references.
 ///
-/// As opposed to [`PlaceExt::interior_places`], the fields of a struct keep their index
-/// if some of them aren't visible from `def_id`.
+/// As opposed to [`rustc_utils::PlaceExt::interior_places`], the fields of a struct keep
+/// their index if some of them aren't visible from `def_id`.
 pub fn interior_places<'tcx>(
   tcx: TyCtxt<'tcx>,
   body: &Body<'tcx>,
@@ -100,6 +101,105 @@ pub fn interior_places<'tcx>(
   collector.places
 }
 
+/// Returns all pointers within `place`, including those behind other pointers, by the
+/// region of what they point to.
+///
+/// As opposed to [`rustc_utils::PlaceExt::interior_pointers`], the fields of a struct
+/// keep their index if some of them aren't visible from `def_id`.
+pub fn interior_pointers<'tcx>(
+  tcx: TyCtxt<'tcx>,
+  body: &Body<'tcx>,
+  def_id: DefId,
+  place: Place<'tcx>,
+) -> HashMap<RegionVid, Vec<(Place<'tcx>, Mutability)>> {
+  struct Collector<'tcx> {
+    tcx: TyCtxt<'tcx>,
+    def_id: DefId,
+    ty_stack: Vec<Ty<'tcx>>,
+    pointers: HashMap<RegionVid, Vec<(Place<'tcx>, Mutability)>>,
+  }
+
+  impl<'tcx> Collector<'tcx> {
+    fn visit_elem(&mut self, place: Place<'tcx>, elem: PlaceElem<'tcx>, ty: Ty<'tcx>) {
+      self.visit(place.project_deeper(&[elem], self.tcx), ty);
+    }
+
+    fn visit_pointer(&mut self, place: Place<'tcx>, region: RegionVid) {
+      let is_shared = |ty: &Ty<'tcx>| ty.ref_mutability() == Some(Mutability::Not);
+      let mutability = if self.ty_stack.iter().any(is_shared) {
+        Mutability::Not
+      } else {
+        Mutability::Mut
+      };
+      let pointers = self.pointers.entry(region).or_default();
+      pointers.push((place, mutability));
+    }
+
+    fn visit(&mut self, place: Place<'tcx>, ty: Ty<'tcx>) {
+      if self.ty_stack.contains(&ty) {
+        return;
+      }
+      self.ty_stack.push(ty);
+
+      match ty.kind() {
+        _ if ty.is_box() => self.visit_elem(place, PlaceElem::Deref, ty.expect_boxed_ty()),
+        TyKind::Ref(region, inner, _) => {
+          match region.kind() {
+            RegionKind::ReVar(region) => self.visit_pointer(place, region),
+            RegionKind::ReStatic => self.visit_pointer(place, RegionVid::from_usize(0)),
+            RegionKind::ReErased | RegionKind::ReLateParam(_) => {}
+            region => unreachable!("{region:?} in {place:?}"),
+          }
+          self.visit_elem(place, PlaceElem::Deref, *inner);
+        }
+        TyKind::RawPtr(inner, _) => {
+          self.visit_pointer(place, UNKNOWN_REGION);
+          self.visit_elem(place, PlaceElem::Deref, *inner);
+        }
+        TyKind::Array(elem, _) | TyKind::Slice(elem) => {
+          self.visit_elem(place, PlaceElem::Index(Local::from_usize(0)), *elem)
+        }
+        TyKind::Tuple(tys) => {
+          for (i, ty) in tys.iter().enumerate() {
+            self.visit_elem(place, PlaceElem::Field(FieldIdx::from_usize(i), ty), ty);
+          }
+        }
+        TyKind::Closure(_, args) | TyKind::Coroutine(_, args) => {
+          self.visit(place, args.as_closure().tupled_upvars_ty())
+        }
+        TyKind::Adt(adt_def, args) if !adt_def.is_union() => {
+          for (variant_index, variant) in adt_def.variants().iter_enumerated() {
+            let place = if adt_def.is_enum() {
+              let downcast = PlaceElem::Downcast(Some(variant.name), variant_index);
+              place.project_deeper(&[downcast], self.tcx)
+            } else {
+              place
+            };
+            for (index, field) in variant.fields.iter_enumerated() {
+              if adt_def.is_enum() || field.vis.is_accessible_from(self.def_id, self.tcx) {
+                let ty = field.ty(self.tcx, args);
+                self.visit_elem(place, PlaceElem::Field(index, ty), ty);
+              }
+            }
+          }
+        }
+        _ => {}
+      }
+
+      self.ty_stack.pop();
+    }
+  }
+
+  let mut collector = Collector {
+    tcx,
+    def_id,
+    ty_stack: Vec::new(),
+    pointers: HashMap::default(),
+  };
+  collector.visit(place, place.ty(body.local_decls(), tcx).ty);
+  collector.pointers
+}
+
 /// Returns true if a value of type `ty` contains references that no place visible from
 /// `def_id` designates, e.g. those in private fields or in trait objects.
 pub fn hides_references<'tcx>(tcx: TyCtxt<'tcx>, def_id: DefId, ty: Ty<'tcx>) -> bool {
@@ -149,8 +249,7 @@ pub fn arg_mut_ptrs<'tcx>(
   args
     .iter()
     .flat_map(|(i, place)| {
-      place
-        .interior_pointers(tcx, body, def_id)
+      interior_pointers(tcx, body, def_id, *place)
         .into_iter()
         .flat_map(|(_, places)| {
           places
-- 
2.43.0


From 45fab13c26c8c1b6f7ff0d35c9fa7d6f17df98c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:54:35 +0000
Subject: [PATCH 44/47] fix: a reference of an argument that is assigned to may
 point to what another one does

---
 crates/flowistry/src/mir/aliases.rs | 70 +++++++++++++++++++++++++++--
 1 file changed, 66 insertions(+), 4 deletions(-)

diff --git a/crates/flowistry/src/mir/aliases.rs b/crates/flowistry/src/mir/aliases.rs
index 50518b4..5c3ad2d 100644
--- a/crates/flowistry/src/mir/aliases.rs
+++ b/crates/flowistry/src/mir/aliases.rs
@@ -1,6 +1,6 @@
 //! Alias analysis to determine the points-to set of a reference.
 
-use std::{hash::Hash, time::Instant};
+use std::{hash::Hash, mem, time::Instant};
 
 use log::{debug, info};
 use rustc_borrowck::consumers::BodyWithBorrowckFacts;
@@ -15,7 +15,10 @@ use rustc_index::{
   bit_set::{ChunkedBitSet, SparseBitMatrix},
 };
 use rustc_middle::{
-  mir::{visit::Visitor, *},
+  mir::{
+    visit::{MutatingUseContext, PlaceContext, Visitor},
+    *,
+  },
   ty::{Region, RegionKind, RegionVid, Ty, TyCtxt, TyKind},
 };
 use rustc_utils::{PlaceExt, mir::place::UNKNOWN_REGION, timer::elapsed};
@@ -52,6 +55,34 @@ impl<'tcx> Visitor<'tcx> for GatherBorrows<'tcx> {
   }
 }
 
+/// Gathers the parts of arguments that the body may assign to, itself or through a reference.
+struct GatherReassigned<'a, 'tcx> {
+  body: &'a Body<'tcx>,
+  reassigned: Vec<Place<'tcx>>,
+}
+
+impl<'tcx> Visitor<'tcx> for GatherReassigned<'_, 'tcx> {
+  fn visit_place(
+    &mut self,
+    place: &Place<'tcx>,
+    context: PlaceContext,
+    _location: Location,
+  ) {
+    let may_assign = matches!(
+      context,
+      PlaceContext::MutatingUse(
+        MutatingUseContext::Store
+          | MutatingUseContext::Call
+          | MutatingUseContext::Borrow
+          | MutatingUseContext::RawBorrow
+      )
+    );
+    if may_assign && place.is_arg(self.body) {
+      self.reassigned.push(*place);
+    }
+  }
+}
+
 type LoanSet<'tcx> = HashSet<(Place<'tcx>, Mutability)>;
 type LoanMap<'tcx> = HashMap<RegionVid, LoanSet<'tcx>>;
 
@@ -60,6 +91,7 @@ pub struct Aliases<'a, 'tcx> {
   tcx: TyCtxt<'tcx>,
   body: &'a Body<'tcx>,
   pub(super) loans: LoanMap<'tcx>,
+  reassigned: Vec<Place<'tcx>>,
 }
 
 rustc_index::newtype_index! {
@@ -80,6 +112,7 @@ impl<'a, 'tcx> Aliases<'a, 'tcx> {
       tcx,
       body: &body_with_facts.body,
       loans,
+      reassigned: Self::compute_reassigned(&body_with_facts.body),
     }
   }
 
@@ -97,9 +130,38 @@ impl<'a, 'tcx> Aliases<'a, 'tcx> {
       tcx,
       body: &body_with_facts.body,
       loans,
+      reassigned: Self::compute_reassigned(&body_with_facts.body),
     }
   }
 
+  fn compute_reassigned(body: &Body<'tcx>) -> Vec<Place<'tcx>> {
+    let mut gather = GatherReassigned {
+      body,
+      reassigned: Vec::new(),
+    };
+    gather.visit_body(body);
+    gather.reassigned
+  }
+
+  /// Returns true if `place` goes through a reference of an argument that the body may
+  /// have made to point to something else.
+  fn is_through_reassigned(&self, place: Place<'tcx>) -> bool {
+    place
+      .refs_in_projection(self.body, self.tcx)
+      .any(|(ptr, _)| {
+        self.reassigned.iter().any(|reassigned| {
+          let mut elems = reassigned.projection.iter().zip(ptr.projection);
+          reassigned.local == ptr.local
+            && reassigned.projection.len() <= ptr.projection.len()
+            && elems.all(|(elem, ptr_elem)| match (elem, ptr_elem) {
+              // the types of the same field may differ in their regions
+              (ProjectionElem::Field(i, _), ProjectionElem::Field(j, _)) => i == *j,
+              _ => mem::discriminant(&elem) == mem::discriminant(ptr_elem),
+            })
+        })
+      })
+  }
+
   fn compute_loans(
     tcx: TyCtxt<'tcx>,
     def_id: DefId,
@@ -371,8 +433,8 @@ impl<'a, 'tcx> Aliases<'a, 'tcx> {
     let mut aliases = HashSet::default();
     aliases.insert(place);
 
-    // Places with no derefs, or derefs from arguments, have no aliases
-    if place.is_direct(self.body, self.tcx) {
+    // Places with no derefs, or derefs from arguments as they were passed, have no aliases
+    if place.is_direct(self.body, self.tcx) && !self.is_through_reassigned(place) {
       return aliases;
     }
 
-- 
2.43.0


From 88e447bfea1be2d5a00b8d4aa2cd7242e0873242 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:26:05 +0000
Subject: [PATCH 45/47] fix: analyse other files again when a file they may
 depend on is saved

---
 ide/src/focus.ts | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/ide/src/focus.ts b/ide/src/focus.ts
index 785dd5b..a2ef8b0 100644
--- a/ide/src/focus.ts
+++ b/ide/src/focus.ts
@@ -317,7 +317,14 @@ export class FocusMode {
     );
 
     // reinitialize focus mode state after each save
-    this.doc_save_callback = vscode.workspace.onDidSaveTextDocument(() => {
+    this.doc_save_callback = vscode.workspace.onDidSaveTextDocument((doc) => {
+      // Functions in other files were analysed with the last saved version of this one.
+      for (let filename of this.state.keys()) {
+        if (filename !== doc.fileName) {
+          this.state.delete(filename);
+        }
+      }
+
       if (this.mode === "idle") {
         return;
       }
-- 
2.43.0


From 8514be26addbab7569677b1deefff52a0ecd9981 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:26:05 +0000
Subject: [PATCH 46/47] fix: do not save and analyse a file with unsaved
 changes on a cursor move after leaving a file outside the project

---
 ide/src/focus.ts | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/ide/src/focus.ts b/ide/src/focus.ts
index a2ef8b0..a5d7650 100644
--- a/ide/src/focus.ts
+++ b/ide/src/focus.ts
@@ -373,7 +373,11 @@ export class FocusMode {
     let is_dirty = editor.document.isDirty;
     if (this.mode === "unsaved" && !is_dirty) {
       this.set_mode("active");
-    } else if (this.mode === "active" && is_dirty && !userActivated) {
+    } else if (
+      (this.mode === "active" || this.mode === "notfound") &&
+      is_dirty &&
+      !userActivated
+    ) {
       this.set_mode("unsaved");
     }
 
-- 
2.43.0


From 1d5bcad394fa89a57d1c85bd0c54412682590252 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:24:13 +0000
Subject: [PATCH 47/47] fix: direct influences include assignments and reads
 through references

Values behind a reference are not among the reachable values of a place, so neither an
assignment like `*r = 1` nor one to a field behind a reference, nor a read of either,
was ever a direct influence, not even of that very place; and indices of different
expressions were told apart.
---
 .../src/focus/direct_influence.rs             | 26 +++++++++++++++----
 1 file changed, 21 insertions(+), 5 deletions(-)

diff --git a/crates/flowistry_ide/src/focus/direct_influence.rs b/crates/flowistry_ide/src/focus/direct_influence.rs
index 562592d..227ca76 100644
--- a/crates/flowistry_ide/src/focus/direct_influence.rs
+++ b/crates/flowistry_ide/src/focus/direct_influence.rs
@@ -11,14 +11,30 @@ pub struct DirectInfluence<'a, 'tcx> {
   influence: IndexMatrix<Place<'tcx>, LocationOrArg>,
 }
 
+/// The values reachable from `place`, and `place` itself under all of its names (it is
+/// not among the former if it goes through a reference).
+fn names<'tcx>(
+  place_info: &PlaceInfo<'_, 'tcx>,
+  place: Place<'tcx>,
+  mutability: Mutability,
+) -> Vec<Place<'tcx>> {
+  place_info
+    .reachable_values(place, mutability)
+    .iter()
+    .chain(place_info.aliases(place))
+    .chain([&place])
+    .map(|place| place_info.normalize(*place))
+    .collect()
+}
+
 impl<'a, 'tcx> DirectInfluence<'a, 'tcx> {
   pub fn build(body: &Body<'tcx>, place_info: &'a PlaceInfo<'a, 'tcx>) -> Self {
     let mut influence = IndexMatrix::new(place_info.location_domain());
 
     ModularMutationVisitor::new(place_info, |location, mutations| {
       let mut add = |place: Place<'tcx>, mutability: Mutability| {
-        for alias in place_info.reachable_values(place, mutability) {
-          influence.insert(*alias, location);
+        for alias in names(place_info, place, mutability) {
+          influence.insert(alias, location);
         }
       };
 
@@ -42,13 +58,13 @@ impl<'a, 'tcx> DirectInfluence<'a, 'tcx> {
   }
 
   pub fn lookup(&self, target: Place<'tcx>) -> Vec<LocationOrArg> {
-    let aliases = self.place_info.reachable_values(target, Mutability::Not);
+    let aliases = names(self.place_info, target, Mutability::Not);
     aliases
-      .iter()
+      .into_iter()
       .flat_map(|target_alias| {
         self
           .influence
-          .row_set(target_alias)
+          .row_set(&target_alias)
           .iter()
           .copied()
           .collect::<Vec<_>>()
-- 
2.43.0

