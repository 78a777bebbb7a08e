"use strict";
// Discrete-event simulation of VS Code, the file system, the network and the process table
// around the real extension code. Every asynchronous completion is a task whose next action
// runs only when the scheduler picks it.
const { EventEmitter } = require("events");
const { Readable, Writable } = require("stream");
const zlib = require("zlib");
const util = require("util");
const nodepath = require("path");
const M = require("./model");
const { keyed, hash } = require("./rng");

const ROOT = "/ws";
let current = null;
process.on("unhandledRejection", (e) => { if (current) current.escaped.push(String(e && e.stack || e)); });

class Violation extends Error { constructor(prop, rule, detail) { super(`${prop} ${rule}: ${detail}`); this.prop = prop; this.rule = rule; this.detail = detail; } }
class HarnessError extends Error {}

class Position { constructor(line, character) { this.line = line; this.character = character; }
  isBefore(o) { return this.compareTo(o) < 0; } isBeforeOrEqual(o) { return this.compareTo(o) <= 0; } isAfter(o) { return this.compareTo(o) > 0; } isAfterOrEqual(o) { return this.compareTo(o) >= 0; }
  isEqual(o) { return this.compareTo(o) === 0; } compareTo(o) { return this.line - o.line || this.character - o.character; }
  translate(a = 0, b = 0) { return new Position(this.line + a, this.character + b); } with(l = this.line, c = this.character) { return new Position(l, c); } }
class Range { constructor(a, b, c, d) { let s, e; if (a instanceof Position) { s = a; e = b; } else { s = new Position(a, b); e = new Position(c, d); } if (e.isBefore(s)) [s, e] = [e, s]; this.start = s; this.end = e; }
  get isEmpty() { return this.start.isEqual(this.end); } get isSingleLine() { return this.start.line === this.end.line; }
  isEqual(o) { return this.start.isEqual(o.start) && this.end.isEqual(o.end); }
  contains(p) { return p instanceof Range ? this.contains(p.start) && this.contains(p.end) : !p.isBefore(this.start) && !p.isAfter(this.end); }
  intersection(o) { const s = this.start.isAfter(o.start) ? this.start : o.start, e = this.end.isBefore(o.end) ? this.end : o.end; return s.isAfter(e) ? undefined : new Range(s, e); }
  union(o) { return new Range(this.start.isBefore(o.start) ? this.start : o.start, this.end.isAfter(o.end) ? this.end : o.end); }
  with(s = this.start, e = this.end) { return new Range(s, e); } }
class Selection extends Range { constructor(a, b, c, d) { super(a, b, c, d); if (a instanceof Position) { this.anchor = a; this.active = b; } else { this.anchor = new Position(a, b); this.active = new Position(c, d); } }
  get isReversed() { return this.anchor.isAfter(this.active); }
  isEqual(o) { return o instanceof Selection ? this.anchor.isEqual(o.anchor) && this.active.isEqual(o.active) : super.isEqual(o); } }
class Uri { constructor(scheme, path) { this.scheme = scheme; this.path = path; this.authority = ""; this.query = ""; this.fragment = ""; } get fsPath() { return this.path; }
  static file(p) { return new Uri("file", p); } static parse(s) { const m = /^([a-z]+):\/\/(.*)$/.exec(s); return m ? new Uri(m[1], m[2]) : new Uri("file", s); }
  static joinPath(u, ...p) { return new Uri(u.scheme, nodepath.posix.join(u.path, ...p)); } toString() { return `${this.scheme}://${this.path}`; } with(o) { return Object.assign(new Uri(this.scheme, this.path), o); } }
class ThemeColor { constructor(id) { this.id = id; } }
class ThemeIcon { constructor(id) { this.id = id; } }
class MarkdownString { constructor(v) { this.value = v; } }
class Disposable { constructor(f) { this.f = f; } dispose() { const f = this.f; this.f = null; if (f) f(); } static from(...d) { return new Disposable(() => d.forEach((x) => x.dispose())); } }

class Sim {
  // plan: {seed, cfg, steps?, procs:{}, saves:{}, dialogs:{}}
  constructor(bundle, plan) {
    this.bundle = bundle; this.plan = plan; this.cfg = plan.cfg || {};
    this.tasks = new Map(); this.order = []; this.nextId = { p: 0, s: 0, d: 0, t: 0, f: 0, w: 0, v: 0, n: 0, g: 0, x: 0 };
    this.clock = 0; this.trace = []; this.escaped = []; this.listenerErrors = [];
    this.faults = {}; this.stats = { events: 0, userOps: 0, spawns: 0 };
    this.spawnLog = []; this.saves = []; this.dialogs = []; this.messages = []; this.paneLog = [];
    this.commands = new Map(); this.regCount = new Map(); this.decoTypes = [];
    this.docs = new Map(); this.visible = []; this.active = undefined;
    this.wstate = new Map(); this.invariants = []; this.bars = [];
    this.onSpawn = []; this.stepNo = 0; this.statusHistory = [];
    this.disk = new Map(); this.crate = new Set(); this.dirs = null;
    this.tool = { rustup: true, toolchain: true, bin: bundle.version, driver: bundle.version, exec: true, sysroot: true };
    this.listeners = {}; for (const k of ["change", "save", "sel", "active", "visible", "open", "close", "visranges", "willsave", "config", "folders", "winstate"]) this.listeners[k] = [];
    this.urls = [];
    this.vscode = this.mkVscode();
  }
  // ---- tasks
  task(kind, actions, meta = {}) {
    const id = kind + this.nextId[kind]++;
    const t = { id, kind, actions, i: 0, meta };
    this.tasks.set(id, t);
    return t;
  }
  enabled(pred) { return [...this.tasks.values()].filter((t) => (!pred || pred(t)) && (!t.meta.at || true)); }
  runTask(id) {
    const t = this.tasks.get(id);
    if (!t) return false;
    this.clock += 1 + (hash(id + ":" + t.i + ":" + this.plan.seed) % 997);
    if (t.meta.at && t.meta.at > this.clock) this.clock = t.meta.at;
    const a = t.actions[t.i++];
    if (t.i >= t.actions.length) this.tasks.delete(id);
    this.trace.push(id + "." + a[0]);
    this.stats.events++;
    a[1](t);
    return true;
  }
  cancel(t) { this.tasks.delete(t.id); }
  async drainMicro() { for (let i = 0; i < 3; i++) await new Promise((r) => setImmediate(r)); }
  fault(k) { this.faults[k] = (this.faults[k] || 0) + 1; }
  async step(fn) { this.stepNo++; fn(); await this.drainMicro(); for (const inv of this.invariants) inv(); }
  fire(ch, ev) { for (const l of this.listeners[ch].slice()) { if (!this.listeners[ch].includes(l)) continue; try { const r = l.thisArg ? l.f.call(l.thisArg, ev) : l.f(ev); void r; } catch (e) { this.listenerErrors.push(ch + ": " + (e && e.stack || e)); } } }
  event(ch) { return (f, thisArg, disps) => { const l = { f, thisArg }; this.listeners[ch].push(l); const d = new Disposable(() => { const i = this.listeners[ch].indexOf(l); if (i >= 0) this.listeners[ch].splice(i, 1); }); if (Array.isArray(disps)) disps.push(d); return d; }; }

  // ---- documents and editors
  mkDoc(path, text, languageId, scheme = "file") {
    const S = this;
    const doc = {
      _text: text, _saved: text, fileName: path, uri: new Uri(scheme, path), languageId, version: 1, isDirty: false, isUntitled: false, isClosed: false, eol: 1,
      getText(r) { return r ? this._text.slice(this.offsetAt(r.start), this.offsetAt(r.end)) : this._text; },
      get lineCount() { return this._text.split("\n").length; },
      offsetAt(p) { return M.offAt(this._text, p.line, p.character); },
      positionAt(o) { const p = M.posAt(this._text, o); return new Position(p.line, p.character); },
      lineAt(l) { const n = typeof l === "number" ? l : l.line; const t = this._text.split("\n")[n]; return { lineNumber: n, text: t, range: new Range(n, 0, n, t.length), isEmptyOrWhitespace: !t.trim(), firstNonWhitespaceCharacterIndex: t.length - t.trimStart().length }; },
      validateRange(r) { return r; }, validatePosition(p) { return p; },
      save() { return S.saveDoc(doc, "api"); },
    };
    this.docs.set(path, doc);
    return doc;
  }
  setText(doc, text, { dirty, force } = {}) {
    const old = doc._text; doc._text = text; doc.version++; doc.isDirty = dirty; if (this.onTextHook) this.onTextHook(doc);
    this.fire("change", { document: doc, contentChanges: old === text && !force ? [] : [{ range: new Range(0, 0, 0, 0), rangeOffset: 0, rangeLength: old.length, text }], reason: undefined });
  }
  saveDoc(doc, who) {
    const ord = this.nextId.s;
    const q = { doc, who }; this.saves.push(q); if (this.onSave) this.onSave(q); const done = () => { q.done = this.saveDone = (this.saveDone || 0) + 1; };
    if (!doc.isDirty) return new Promise((res) => this.task("s", [["noop", () => { done(); res(true); }]], { doc, who }));
    const mode = (this.plan.saves || {})[ord] || "ok";
    return new Promise((res, rej) => {
      const acts = [];
      if (mode === "format") acts.push(["format", () => { this.fault("format_on_save_edit"); this.setText(doc, "// fmt" + ord + "\n" + doc._text, { dirty: true }); }]);
      if (mode === "fail" || mode === "reject") acts.push(["fail", () => { this.fault("save_" + mode); this.noteFailure("save"); done(); mode === "fail" ? res(false) : rej(new Error("EACCES: save failed")); }]);
      else {
        acts.push(["write", () => { doc._saved = doc._text; this.disk.set(doc.fileName, doc._text); doc.isDirty = false; this.fire("change", { document: doc, contentChanges: [], reason: undefined }); }]);
        acts.push(["did", () => { if (this.onDidSaveHook) this.onDidSaveHook(doc); this.fire("save", doc); }]);
        acts.push(["ret", () => { done(); res(true); }]);
      }
      this.task("s", acts, { doc, who });
    });
  }
  mkEditor(doc, column, selection) {
    const S = this;
    const ed = { document: doc, viewColumn: column, _sels: [selection || new Selection(0, 0, 0, 0)], _deco: new Map(), _disposed: false, options: {}, visibleRanges: [],
      get selection() { return ed._sels[0]; }, set selection(s) { ed.selections = [s]; },
      get selections() { return ed._sels; },
      set selections(s) { if (!Array.isArray(s) || s.some((x) => !(x instanceof Selection))) throw new Error("Illegal argument: selections"); S.lastSelect = s; if (!s.length) return; /* the editor refuses to have none */ ed._sels = s; S.task("v", [["selev", () => { if (!ed._disposed) S.fire("sel", { textEditor: ed, selections: ed._sels, kind: 3 }); }]]); },
      setDecorations(type, ranges) { if (ed._disposed) return; if (!type || type._disposed) return; ed._deco.set(type, ranges.map((r) => r.range && !(r instanceof Range) ? r.range : r)); S.paints = (S.paints || 0) + 1; },
      revealRange() {}, edit() { throw new HarnessError("edit unsupported"); }, insertSnippet() {}, show() {},
      hide() { S.closeEditor(ed); } };
    return ed;
  }
  closeEditor(ed) { const i = this.visible.indexOf(ed); if (i >= 0) this.visible.splice(i, 1); ed._disposed = true; ed._deco.clear(); if (this.active === ed) { this.active = this.visible[0]; this.fire("active", this.active); } this.fire("visible", this.visible.slice()); }
  showInColumn(doc, column, { preserveFocus = false, selEvent = false } = {}) {
    const prev = this.visible.find((e) => e.viewColumn === column);
    if (prev && prev.document === doc) { if (!preserveFocus && this.active !== prev) { this.active = prev; this.fire("active", prev); } return prev; }
    const keep = this.lastSel && this.lastSel.get(doc.fileName);
    if (prev) { (this.lastSel || (this.lastSel = new Map())).set(prev.document.fileName, prev._sels[0]); prev._disposed = true; prev._deco.clear(); this.visible.splice(this.visible.indexOf(prev), 1); }
    const ed = this.mkEditor(doc, column, keep);
    this.visible.push(ed);
    this.fire("visible", this.visible.slice());
    if (!preserveFocus || this.active === prev) { this.active = ed; this.fire("active", ed); }
    if (selEvent) this.fire("sel", { textEditor: ed, selections: ed._sels, kind: undefined });
    return ed;
  }
  select(ed, a, b, rev) { const s = ed.document.positionAt(a), e = ed.document.positionAt(b); ed._sels = [rev ? new Selection(e, s) : new Selection(s, e)]; this.fire("sel", { textEditor: ed, selections: ed._sels, kind: 2 }); }
  selOffsets(ed) { return [ed.document.offsetAt(ed.selection.start), ed.document.offsetAt(ed.selection.end)]; }

  // ---- decoration roles, by what the user sees
  role(type) { const o = type.options || {}; if (o.opacity !== undefined) return parseFloat(o.opacity) < 1 ? "dim" : "slice"; const c = o.dark && o.dark.backgroundColor; if (c === "rgba(255, 255, 255, 0.1)") return "seed"; if (c === "rgba(255, 255, 255, 0.07)") return "emph"; return "other"; }
  painted(ed) { const ivs = { dim: [], slice: [], seed: [], emph: [], other: [] }; for (const [t, rs] of ed._deco) if (!t._disposed) for (const r of rs) ivs[this.role(t)].push([ed.document.offsetAt(r.start), ed.document.offsetAt(r.end)]); const o = {}; for (const k in ivs) o[k] = M.cover(ivs[k]); o.empty = !o.dim && !o.slice && !o.seed && !o.emph && !o.other; o.raw = ivs; return o; }
  bar() { const b = this.bars[this.bars.length - 1]; if (!b) return "none"; const t = String(b.text); return t.includes("sync") ? "loading" : t.includes("circle-slash") ? "unsaved" : t.includes("(check)") ? "active" : t.includes("(x)") ? "error" : t.includes("question") ? "notfound" : "idle"; }
  paneEditor() { return this.visible.find((e) => e.document.uri.scheme === "flowistry"); }
  paneText() { const p = this.paneEditor(); if (!p || !this.provider) return null; return String(this.paneContent); }
  // The editor asks for the contents of a virtual document when it opens it and when it is told of a change.
  queryPane(uri) { Promise.resolve().then(() => this.provider.provideTextDocumentContent(uri)).then((t) => { this.paneContent = t; }); }

  noteFailure(what) { this.lastFail = this.stepNo; this.lastFailWhat = what; if (what === "save") this.saveFailStep = this.stepNo; }

  // ---- vscode API
  mkVscode() {
    const S = this;
    const dialog = (sev) => (msg, ...items) => { let opts = items.filter((x) => typeof x === "string" || (x && typeof x === "object" && "title" in x)); const ord = S.nextId.d; const d = { sev, msg: String(msg), items: opts.map((x) => typeof x === "string" ? x : x.title), answered: undefined }; S.dialogs.push(d); S.messages.push({ sev, msg: String(msg), step: S.stepNo });
      return new Promise((res) => S.task("d", [["answer", () => { const want = (S.plan.dialogs || {})[ord]; let c = want === undefined || want === null ? undefined : opts.find((x) => (typeof x === "string" ? x : x.title) === want); d.answered = c === undefined ? "dismissed" : c; res(c); }]], { dialog: d })); };
    const win = {
      get activeTextEditor() { return S.active; }, get visibleTextEditors() { return S.visible.slice(); }, get state() { return { focused: true }; }, tabGroups: { all: [], close: async () => true },
      createTextEditorDecorationType(options) { const t = { key: "T" + S.decoTypes.length, options, _disposed: false, dispose() { t._disposed = true; S.visible.forEach((e) => e._deco.delete(t)); } }; S.decoTypes.push(t); return t; },
      createStatusBarItem() { const b = { text: "", tooltip: "", color: undefined, backgroundColor: undefined, command: undefined, show() {}, hide() {}, dispose() {} }; S.bars.push(b); return b; },
      createOutputChannel() { return { append() {}, appendLine() {}, show() {}, hide() {}, clear() {}, replace() {}, dispose() {}, info() {}, warn() {}, error() {}, debug() {}, trace() {} }; },
      showErrorMessage: dialog("error"), showInformationMessage: dialog("info"), showWarningMessage: dialog("warn"),
      setStatusBarMessage() { return new Disposable(() => {}); },
      withProgress(_o, f) { return Promise.resolve(f({ report() {} }, { isCancellationRequested: false, onCancellationRequested: () => new Disposable(() => {}) })); },
      showTextDocument(docOrUri, opts) { const o = typeof opts === "object" ? opts : {}; return new Promise((res) => S.task("x", [["show", () => { const doc = docOrUri.uri ? docOrUri : S.docs.get(docOrUri.path); const ed = S.showInColumn(doc, o.viewColumn === -2 ? 9 : 1, { preserveFocus: !!o.preserveFocus }); S.paneLog.push("show"); res(ed); }]])); },
      onDidChangeTextEditorSelection: S.event("sel"), onDidChangeActiveTextEditor: S.event("active"), onDidChangeVisibleTextEditors: S.event("visible"), onDidChangeTextEditorVisibleRanges: S.event("visranges"), onDidChangeWindowState: S.event("winstate"),
      createWebviewPanel() { return { webview: { html: "", onDidReceiveMessage: () => new Disposable(() => {}), postMessage: async () => true }, onDidDispose: () => new Disposable(() => {}), dispose() {}, reveal() {} }; },
    };
    const ws = {
      get workspaceFolders() { return S.folders === undefined ? [{ uri: Uri.file(ROOT), name: "ws", index: 0 }] : S.folders; },
      get textDocuments() { return [...S.docs.values()]; }, rootPath: ROOT,
      fs: { stat: (uri) => new Promise((res, rej) => S.task("f", [["stat", () => { const f = S.statFault && S.statFault(uri.path); if (f) { S.fault(f); return rej(new Error(f)); } S.hasFile(uri.path) ? res({ type: 1, size: 1, ctime: 0, mtime: 0 }) : rej(new Error("FileNotFound " + uri.path)); }]], { path: uri.path })),
        readFile: (uri) => new Promise((res, rej) => S.task("f", [["read", () => S.hasFile(uri.path) ? res(Buffer.from(S.disk.get(uri.path) || "")) : rej(new Error("FileNotFound"))]])),
        readDirectory: (uri) => new Promise((res) => S.task("f", [["readdir", () => { const out = new Map(); for (const p of S.allFiles()) if (p.startsWith(uri.path + "/")) { const r = p.slice(uri.path.length + 1).split("/"); out.set(r[0], r.length > 1 ? 2 : 1); } res([...out]); }]])) },
      onDidChangeTextDocument: S.event("change"), onDidSaveTextDocument: S.event("save"), onWillSaveTextDocument: S.event("willsave"), onDidOpenTextDocument: S.event("open"), onDidCloseTextDocument: S.event("close"), onDidChangeConfiguration: S.event("config"), onDidChangeWorkspaceFolders: S.event("folders"),
      registerTextDocumentContentProvider(scheme, p) { S.provider = p; if (p.onDidChange) p.onDidChange((u) => { S.queryPane(u); }); return new Disposable(() => {}); },
      openTextDocument: (u) => new Promise((res) => S.task("x", [["open", () => { const uri = typeof u === "string" ? Uri.file(u) : u; if (uri.scheme === "flowistry" && S.provider && !S.docs.has(uri.path)) S.queryPane(uri); res(S.docs.get(uri.path) || S.mkDoc(uri.path, S.disk.get(uri.path) || "", uri.scheme === "flowistry" ? "plaintext" : "rust", uri.scheme)); }]])),
      getConfiguration: () => ({ get: (_k, d) => d, has: () => false, update: async () => {} }), getWorkspaceFolder: (u) => u.path.startsWith(ROOT + "/") ? ws.workspaceFolders[0] : undefined, asRelativePath: (p) => String(p.path || p).replace(ROOT + "/", ""),
      saveAll: async () => true,
      createFileSystemWatcher: () => ({ onDidChange: () => new Disposable(() => {}), onDidCreate: () => new Disposable(() => {}), onDidDelete: () => new Disposable(() => {}), dispose() {} }),
    };
    class VEventEmitter { constructor() { this.ls = []; this.event = (f) => { this.ls.push(f); return new Disposable(() => { this.ls = this.ls.filter((x) => x !== f); }); }; } fire(x) { this.ls.slice().forEach((f) => f(x)); } dispose() { this.ls = []; } }
    return { window: win, workspace: ws, version: "1.99.0-sim",
      commands: { registerCommand(name, f) { if (S.commands.has(name)) throw new Error(`command '${name}' already exists`); S.commands.set(name, f); S.regCount.set(name, (S.regCount.get(name) || 0) + 1); return new Disposable(() => S.commands.delete(name)); }, executeCommand: async (n, ...a) => { const f = S.commands.get(n); return f ? f(...a) : undefined; }, getCommands: async () => [...S.commands.keys()] },
      env: { openExternal: async (u) => { S.urls.push(String(u)); return true; }, clipboard: { writeText: async () => {} } }, languages: {}, extensions: { getExtension: () => undefined },
      Uri, Range, Position, Selection, ThemeColor, ThemeIcon, MarkdownString, Disposable, EventEmitter: VEventEmitter,
      ViewColumn: { Active: -1, Beside: -2, One: 1, Two: 2 }, StatusBarAlignment: { Left: 1, Right: 2 }, ProgressLocation: { Notification: 15, Window: 10, SourceControl: 1 }, OverviewRulerLane: { Left: 1, Center: 2, Right: 4, Full: 7 }, TextEditorRevealType: {}, DecorationRangeBehavior: {}, FileType: { Unknown: 0, File: 1, Directory: 2 }, ConfigurationTarget: {}, TextDocumentChangeReason: { Undo: 1, Redo: 2 }, TextEditorSelectionChangeKind: { Keyboard: 1, Mouse: 2, Command: 3 } };
  }
  hasFile(p) { return this.disk.has(p) || (this.extraFiles && this.extraFiles.has(p)); }
  allFiles() { return [...this.disk.keys(), ...(this.extraFiles || [])]; }

  // ---- child processes
  classify(cmd, args) {
    const base = nodepath.basename(String(cmd));
    if (base === "cargo") {
      const i = args.indexOf("flowistry");
      if (args.includes("install")) return { what: "cargo-install", args };
      if (i >= 0) { const rest = args.slice(i + 1); return rest[0] === "-V" || rest[0] === "--version" ? { what: "version" } : { what: rest[0], rest }; }
      return { what: "cargo-other" };
    }
    if (base === "rustup") return { what: args[0] === "which" ? "rustup-which" : args[0] === "toolchain" ? "rustup-toolchain" : "rustup-other", args };
    if (base === "rustc") return { what: args.includes("--print") ? "rustc-print" : "rustc-Vv" };
    if (base === "curl") return { what: "curl" };
    return { what: "unknown:" + base };
  }
  // Computes the natural outcome of a command at the moment it does its work.
  effect(c) {
    const T = this.tool, V = this.bundle.version;
    const okOut = (s) => ({ code: 0, out: s, err: "" }), bad = (e, code = 1) => ({ code, out: "", err: e });
    if (this.cmdFault) { const f = this.cmdFault(c); if (f) { this.fault(f.fault); if (f.partial) f.partial(); return bad(f.err || f.fault, f.code || 1); } }
    const needTc = () => T.toolchain ? null : bad(`error: toolchain '${this.bundle.channel}' is not installed`);
    switch (c.what) {
      case "version": return needTc() || (T.bin && T.exec ? okOut(T.bin + "\n") : bad("error: no such command: `flowistry`", 101));
      case "rustup-toolchain": T.toolchain = true; return okOut("");
      case "rustup-which": return needTc() || okOut(`/home/u/.rustup/toolchains/${this.bundle.channel}/bin/rustc\n`);
      case "rustc-print": return okOut("/tc/lib/rustlib/x/lib\n/tc\n");
      case "rustc-Vv": return T.rustc === false ? bad("rustc: not found", 127) : okOut("rustc 1.80.0\nbinary: rustc\nhost: x86_64-unknown-linux-gnu\nrelease: 1.80.0\n");
      case "cargo-install": { const e = needTc(); if (e) return e; const i = c.args.indexOf("--version"); let v = i >= 0 ? c.args[i + 1] : (c.args.find((a) => a.startsWith("--version=")) || "=9.9.9").split("=")[1]; const at = c.args.find((a) => a.startsWith("flowistry_ide@")); if (at) v = at.split("@")[1]; const force = c.args.includes("--force") || c.args.includes("-f"); if (!force && (T.bin || T.driver) && !T.tracked) return bad("error: binary `cargo-flowistry` already exists in destination\nAdd --force to overwrite", 101); if (!force && T.tracked === v) return okOut(""); T.tracked = v; T.bin = v; T.driver = v; T.exec = true; T.driverExec = true; this.sourceInstalls = (this.sourceInstalls || 0) + 1; return okOut(""); }
      case "preload": return needTc() || okOut("");
      case "spans": case "focus": case "decompose": return this.analyser(c, okOut, bad, needTc);
      case "curl": return okOut("https://paste.rs/x");
    }
    return bad("simulated machine does not know this command: " + JSON.stringify(c));
  }
  // What the slices of `file` depend on besides its own text: the next file of the crate.
  dep(file) { const fs = [...this.crate], i = fs.indexOf(file); return i < 0 ? "" : String(hash(this.disk.get(fs[(i + 1) % fs.length]) || "")); }
  analyser(c, okOut, bad, needTc) {
    const e = needTc(); if (e) return e;
    const T = this.tool;
    if (!T.bin || !T.exec) return bad("error: no such command: `flowistry`", 101);
    const enc = (v) => okOut(zlib.gzipSync(Buffer.from(JSON.stringify(v)), { level: 1 }).toString("base64"));
    const file = c.rest[1];
    c.diskText = this.disk.get(file);
    if (c.what === "decompose") return bad("thread 'main' panicked: Flowistry must be built with the decompose feature", 101);
    if (!this.crate.has(file)) return enc({ Err: { type: "FileNotFound" } });
    for (const f of this.crate) if ((this.disk.get(f) || "").includes("@@error")) return bad(`error: expected item, found @@error --> ${f} ünïcödé\nerror: could not compile`, 101);
    const text = this.disk.get(file);
    if (c.what === "spans") return enc({ Ok: M.spansOutput(text, file) });
    const out = M.focusOutput(text, file, +c.rest[2], +c.rest[3], this.dep(file));
    return out ? enc({ Ok: out }) : enc({ Err: { type: "AnalysisError", error: "Selection did not map to a body" } });
  }
  startProc(cmd, args, opts, api) {
    args = (args || []).map(String); opts = opts || {};
    const S = this, ord = this.nextId.p;
    const c = this.classify(cmd, args);
    const plan = (this.plan.procs || {})[ord] || {};
    const kind = plan.kind || "ok";
    const rec = { ord, what: c.what, c, cwd: opts.cwd, step: this.stepNo, cmd, args, plan, kind, done: false, ok: undefined };
    this.spawnLog.push(rec); this.stats.spawns++;
    const proc = new EventEmitter();
    proc.pid = 1000 + ord; proc.exitCode = null; proc.signalCode = null; proc.killed = false; proc.spawnfile = cmd; proc.spawnargs = [cmd, ...args];
    proc.stdout = new Readable({ read() {} }); proc.stderr = new Readable({ read() {} }); proc.stdin = new Writable({ write(_c, _e, cb) { cb(); } }); proc.stdio = [proc.stdin, proc.stdout, proc.stderr];
    for (const s of [proc.stdout, proc.stderr]) s.on("error", () => {});
    proc.kill = (sig) => { if (proc.exitCode !== null || proc.signalCode !== null || rec.dead) return false; proc.killed = true; rec.dead = true; this.cancel(t); this.task("p", [["killed", () => { proc.signalCode = sig || "SIGTERM"; proc.stdout.push(null); proc.stderr.push(null); rec.done = true; rec.ok = false; emit("exit", null, proc.signalCode); emit("close", null, proc.signalCode); }]], { rec }); return true; };
    const emit = (ev, ...a) => { if (ev === "error" && proc.listenerCount("error") === 0) { S.listenerErrors.push("unhandled process error event"); return; } try { proc.emit(ev, ...a); } catch (e) { S.listenerErrors.push("proc " + ev + ": " + (e.stack || e)); } };
    let acts = [];
    const finish = (ok) => { rec.done = true; rec.ok = ok; rec.doneStep = S.stepNo; if (!ok) { S.noteFailure(rec.what + ":" + kind); } if (S.onProcDone) S.onProcDone(rec); };
    if (kind === "spawnerr") {
      acts = [["error", () => { S.fault("proc_spawn_error"); finish(false); proc.exitCode = -2; proc.stdout.push(null); proc.stderr.push(null); emit("error", Object.assign(new Error(`spawn ${cmd} ENOENT`), { code: "ENOENT" })); }]];
      if (plan.closeAfterError) acts.push(["close", () => emit("close", -2, null)]);
      rec.expectErr = "ENOENT";
    } else {
      acts.push(["work", (tk) => {
        if (api.beforeWork) api.beforeWork(rec);
        let o;
        if (kind === "exit") { o = { code: plan.code || 101, out: plan.partialOut ? "H4sIAAAA" : "", err: plan.err || "error: injected analyser failure" }; S.fault("proc_exit_nonzero"); }
        else if (kind === "signal") { o = { code: null, signal: "SIGKILL", out: plan.partialOut ? "H4sIAAAA" : "", err: plan.err || "" }; S.fault("proc_killed"); }
        else { o = S.effect(c); }
        if (o.code === 0 && kind === "trunc") { S.fault("stdout_truncated"); o.out = o.out.slice(0, Math.max(1, Math.floor(o.out.length * (plan.frac || 0.5)))); o.bad = true; }
        if (o.code === 0 && kind === "garbage") { S.fault("stdout_garbage"); o.out = plan.text || "warning: not base64!"; o.bad = true; }
        if (o.code === 0 && kind === "empty") { S.fault("stdout_empty"); o.out = ""; o.bad = true; }
        if (o.code === 0 && kind === "badgzip") { S.fault("stdout_badgzip"); o.out = Buffer.from("not gzip at all").toString("base64"); o.bad = true; }
        if (o.code === 0 && kind === "badjson") { S.fault("stdout_badjson"); o.out = zlib.gzipSync(Buffer.from('{"Ok":{"spans":[')).toString("base64"); o.bad = true; }
        if (o.code === 0 && kind === "typederr") { S.fault("typed_analysis_error"); o.out = zlib.gzipSync(Buffer.from(JSON.stringify({ Err: plan.typed || { type: "AnalysisError", error: "injected analysis error" } }))).toString("base64"); o.bad = true; }
        if (plan.warn && o.code === 0) o.err = plan.warn + o.err;
        rec.out = o; rec.typed = kind === "typederr" ? plan.typed : undefined;
        const split = (s, n) => { const b = Buffer.from(s); if (!b.length) return []; if (n <= 1) return [b]; const r = keyed(S.plan.seed, "split", ord, s.length); const cuts = new Set(); for (let i = 0; i < n - 1; i++) cuts.add(1 + r.int(Math.max(1, b.length - 1))); const cs = [0, ...[...cuts].sort((x, y) => x - y), b.length]; return cs.slice(0, -1).map((x, i) => b.subarray(x, cs[i + 1])).filter((x) => x.length); };
        const outs = split(o.out, plan.chunks || 1).map((b) => ["out", () => proc.stdout.push(b)]), errs = split(o.err, plan.echunks || 1).map((b) => ["err", () => proc.stderr.push(b)]);
        if (outs.length > 1) S.fault("stdout_split"); if (errs.length > 1) S.fault("stderr_split");
        const seq = [];
        const r = keyed(S.plan.seed, "mix", ord);
        while (outs.length || errs.length) seq.push((errs.length && (!outs.length || r.bool())) ? errs.shift() : outs.shift());
        const ex = ["exit", () => { if (o.code === null) proc.signalCode = o.signal; else proc.exitCode = o.code; emit("exit", o.code, o.signal || null); }];
        const early = plan.exitEarly ? Math.min(seq.length, r.int(seq.length + 1)) : seq.length;
        if (plan.exitEarly && early < seq.length) S.fault("exit_before_output");
        seq.splice(early, 0, ex);
        seq.push(["eof", () => { proc.stdout.push(null); proc.stderr.push(null); }]);
        seq.push(["close", () => { finish(o.code === 0 && !o.bad); emit("close", o.code, o.signal || null); }]);
        tk.actions = tk.actions.concat(seq);
      }]);
      // keep the task alive until "work" has appended its continuation
      acts.push(["sync", () => {}]);
    }
    const t = this.task("p", acts, { rec });
    for (const f of this.onSpawn) f(rec);
    return { proc, rec };
  }
  mkChildProcess() {
    const S = this;
    const spawn = (cmd, args, opts) => { if (!Array.isArray(args)) { opts = args; args = []; } return S.startProc(cmd, args, opts, {}).proc; };
    const collect = (cmd, args, opts, cb) => {
      const { proc } = S.startProc(cmd, args, opts, {}); const o = [], e = []; let done = false;
      proc.stdout.on("data", (d) => o.push(d)); proc.stderr.on("data", (d) => e.push(d));
      const fin = (err) => { if (done) return; done = true; const so = Buffer.concat(o).toString(), se = Buffer.concat(e).toString(); cb && cb(err, so, se); };
      proc.on("close", (code, sig) => fin(code === 0 ? null : Object.assign(new Error("Command failed: " + cmd + "\n" + Buffer.concat(e).toString()), { code, signal: sig })));
      proc.on("error", (er) => fin(er));
      return proc;
    };
    const norm = (o, cb) => typeof o === "function" ? [undefined, o] : [o, cb];
    const exec = (line, o, cb) => { [o, cb] = norm(o, cb); const w = line.trim().split(/\s+/); return collect(w[0], w.slice(1), o, cb); };
    const execFile = (file, args, o, cb) => { if (!Array.isArray(args)) { cb = o; o = args; args = []; } [o, cb] = norm(o, cb); return collect(file, args, o, cb); };
    exec[util.promisify.custom] = (line, o) => new Promise((res, rej) => exec(line, o, (e, stdout, stderr) => e ? rej(Object.assign(e, { stdout, stderr })) : res({ stdout, stderr })));
    execFile[util.promisify.custom] = (f, a, o) => new Promise((res, rej) => execFile(f, a, o || {}, (e, stdout, stderr) => e ? rej(Object.assign(e, { stdout, stderr })) : res({ stdout, stderr })));
    const sync = (cmd, args) => { const c = S.classify(cmd, args); S.spawnLog.push({ what: c.what, c, sync: true, step: S.stepNo }); if (c.what !== "curl") throw new HarnessError("synchronous process " + cmd); if (S.plan.curlFails) { S.fault("curl_fails"); throw new Error("curl failed"); } return Buffer.from("https://paste.rs/x"); };
    return { spawn, exec, execFile, execSync: (l) => { const w = l.trim().split(/\s+/); return sync(w[0], w.slice(1)); }, execFileSync: (f, a) => sync(f, a || []), spawnSync: (f, a) => ({ status: 0, stdout: sync(f, a || []), stderr: Buffer.alloc(0) }) };
  }
  // ---- network and archives
  mkGot() {
    const S = this;
    const get = (url) => {
      const ord = S.nextId.n; const plan = (S.plan.net || {})[ord] || {};
      const rec = { url: String(url), ord }; (S.netLog || (S.netLog = [])).push(rec);
      const p = () => new Promise((res, rej) => S.task("n", [["connect", () => {}], ["body", () => {
        if (plan.kind === "reset") { S.fault("net_reset"); return rej(Object.assign(new Error("ECONNRESET"), { code: "ECONNRESET" })); }
        if (plan.kind === "404") { S.fault("net_404"); return rej(Object.assign(new Error("Response code 404 (Not Found)"), { response: { statusCode: 404 } })); }
        const m = /releases\/download\/v([^/]+)\/(.+)\.zip$/.exec(rec.url);
        if (!m || m[2] !== "x86_64-unknown-linux-gnu") return rej(new Error("Response code 404 (Not Found)"));
        let b = Buffer.from(JSON.stringify({ zip: m[1] }));
        if (plan.kind === "short") { S.fault("net_truncated_body"); b = b.subarray(0, 5); }
        res(b);
      }]]));
      let pr; const th = () => pr || (pr = p());
      return { buffer: th, text: () => th().then(String), json: () => th().then((b) => JSON.parse(b)), then: (a, b) => th().then((x) => ({ rawBody: x, body: x, statusCode: 200 })).then(a, b), catch: (f) => th().catch(f) };
    };
    const got = (u) => get(u); got.get = get; got.stream = () => { throw new HarnessError("got.stream"); }; got.extend = () => got; got.default = got;
    return got;
  }
  mkAdmZip() {
    const S = this;
    return class AdmZip {
      constructor(buf) { try { this.v = JSON.parse(Buffer.from(buf).toString()).zip; } catch (e) { throw new Error("Invalid or unsupported zip format. No END header found"); } }
      extractAllTo(dir, overwrite) {
        if (!overwrite) { const T = S.tool; S.extractDir = dir; S.extracts = (S.extracts || 0) + 1; if (!T.bin) { T.bin = this.v; T.exec = false; } if (!T.driver) { T.driver = this.v; T.driverExec = false; } T.tracked = false; return; }
        const T = S.tool, f = S.plan.zip; S.extractDir = dir; S.extracts = (S.extracts || 0) + 1;
        const put = { bin: () => { T.bin = this.v; T.exec = false; }, driver: () => { T.driver = this.v; T.driverExec = false; } };
        const order = S.plan.zipOrder ? ["driver", "bin"] : ["bin", "driver"];
        if (f === "fail0") { S.fault("extract_enospc"); throw new Error("ENOSPC: no space left on device, write"); }
        put[order[0]]();
        if (f === "fail1") { S.fault("extract_torn"); throw new Error("ENOSPC: no space left on device, write"); }
        put[order[1]]();
      }
      extractAllToAsync(dir, ow, kp, cb) { const k = typeof kp === "function" ? kp : cb; S.task("x", [["extract", () => { try { this.extractAllTo(dir, ow); k && k(); } catch (e) { k && k(e); } }]]); }
      getEntries() { return ["cargo-flowistry", "flowistry-driver"].map((n) => ({ entryName: n })); }
      extractEntryTo(entry) { const n = entry.entryName || entry; const T = S.tool; if (n === "cargo-flowistry") { T.bin = this.v; T.exec = false; } else { T.driver = this.v; T.driverExec = false; } S.extracts = (S.extracts || 0) + 1; return true; }
    };
  }
  chmod(p, mode, cb) {
    const S = this; const ord = this.nextId.g;
    this.task("g", [["chmod", () => {
      if ((S.plan.chmods || {})[ord]) { S.fault("chmod_fails"); return cb(new Error("EPERM: operation not permitted, chmod")); }
      const m = typeof mode === "string" ? parseInt(mode, 8) : mode; const x = (m & 0o111) !== 0; const b = nodepath.basename(p);
      if (b === "cargo-flowistry") S.tool.exec = x; else if (b === "flowistry-driver") S.tool.driverExec = x; else return cb(new Error("ENOENT chmod " + p));
      S.chmodLog = (S.chmodLog || []).concat([p]);
      cb(null);
    }]], { path: p });
  }
  mkFs() {
    const S = this;
    const promises = { chmod: (p, m) => new Promise((res, rej) => S.chmod(p, m, (e) => e ? rej(e) : res())), mkdir: async () => {}, stat: (p) => S.vscode.workspace.fs.stat(Uri.file(p)), access: (p) => S.vscode.workspace.fs.stat(Uri.file(p)).then(() => {}), readFile: (p) => S.vscode.workspace.fs.readFile(Uri.file(p)) };
    return { promises, constants: { F_OK: 0, R_OK: 4, W_OK: 2, X_OK: 1 }, existsSync: (p) => S.hasFile(p), chmod: (p, m, cb) => S.chmod(p, m, cb), accessSync: (p) => { if (!S.hasFile(p)) throw new Error("ENOENT"); }, statSync: (p) => { if (!S.hasFile(p)) throw new Error("ENOENT"); return { isFile: () => true, isDirectory: () => false }; } };
  }
  require(name) {
    const S = this;
    switch (name.replace(/^node:/, "")) {
      case "vscode": return this.vscode;
      case "lodash": return require("./lodash_mini");
      case "@flatten-js/interval-tree": return require("./interval_tree_mini");
      case "child_process": return this.cpMod || (this.cpMod = this.mkChildProcess());
      case "got": return this.gotMod || (this.gotMod = this.mkGot());
      case "adm-zip": return this.zipMod || (this.zipMod = this.mkAdmZip());
      case "fs": return this.fsMod || (this.fsMod = this.mkFs());
      case "fs/promises": return (this.fsMod || (this.fsMod = this.mkFs())).promises;
      case "open": { const o = async (u) => { S.urls.push(String(u)); }; o.default = o; return o; }
      case "new-github-issue-url": { const f = (o) => "https://github.com/issue?" + encodeURIComponent(o.body.slice(0, 50)); f.default = f; return f; }
      case "os": return { homedir: () => "/home/u", platform: () => "linux", release: () => "sim", tmpdir: () => "/tmp/sim", EOL: "\n", type: () => "Linux", arch: () => "x64" };
      case "path": case "util": case "zlib": case "events": case "stream": case "string_decoder": case "assert": case "buffer": case "url": case "querystring": return require(name);
    }
    throw new HarnessError("the extension imports a module the simulator does not provide: " + name);
  }
  timers() {
    const S = this;
    const setT = (f, ms, ...a) => S.task("t", [["timer", () => f(...a)]], { at: S.clock + Math.max(1, ms || 0) });
    const clr = (t) => t && t.id && S.tasks.delete(t.id);
    const setI = (f, ms, ...a) => { const h = { stop: false }; const arm = () => { h.t = setT(() => { if (h.stop) return; f(...a); arm(); }, ms); }; arm(); return h; };
    class SDate extends Date { constructor(...a) { if (a.length) super(...a); else super(1.7e12 + S.clock); } static now() { return 1.7e12 + S.clock; } }
    return { setTimeout: setT, clearTimeout: clr, setInterval: setI, clearInterval: (h) => { if (h) { h.stop = true; clr(h.t); } }, setImmediate: (f, ...a) => setT(f, 1, ...a), Date: SDate, performance: { now: () => S.clock } };
  }
  load() {
    current = this;
    const module = { exports: {} };
    const proc = { env: { PATH: "/usr/bin", HOME: "/home/u" }, platform: "linux", cwd: () => "/", nextTick: process.nextTick.bind(process), on() {}, version: process.version, versions: process.versions, arch: "x64" };
    const con = {}; for (const k of ["log", "error", "warn", "info", "debug", "trace", "dir", "table", "group", "groupEnd", "assert"]) con[k] = () => {};
    const T = this.timers();
    const fn = this.bundle.fn || (this.bundle.fn = new Function("require", "module", "exports", "process", "console", "setTimeout", "clearTimeout", "setInterval", "clearInterval", "setImmediate", "Date", "performance", this.bundle.code));
    fn((n) => this.require(n), module, module.exports, proc, con, T.setTimeout, T.clearTimeout, T.setInterval, T.clearInterval, T.setImmediate, T.Date, T.performance);
    this.context = { subscriptions: [], workspaceState: { get: (k, d) => this.wstate.has(k) ? this.wstate.get(k) : d, update: async (k, v) => { this.wstate.set(k, v); }, keys: () => [...this.wstate.keys()] }, globalState: { get: (_k, d) => d, update: async () => {}, keys: () => [] }, extensionPath: "/ext", extensionUri: Uri.file("/ext"), asAbsolutePath: (p) => "/ext/" + p, extension: { packageJSON: { version: this.bundle.version } } };
    this.ext = module.exports;
    return this.ext;
  }
  exec(name) { const f = this.commands.get("flowistry." + name); if (!f) return null; const rec = { name, step: this.stepNo, done: false }; (this.execs || (this.execs = [])).push(rec); let p; try { p = f(); } catch (e) { this.listenerErrors.push("command " + name + ": " + (e.stack || e)); rec.done = true; return rec; } Promise.resolve(p).then(() => { rec.done = true; rec.doneStep = this.stepNo; }, (e) => { rec.done = true; this.escaped.push("command " + name + ": " + (e && e.stack || e)); }); return rec; }
  // run every pending task, oldest first, until none is left
  async drain(pred, limit = 3000) {
    let n = 0;
    for (;;) {
      const e = this.enabled(pred);
      if (!e.length) return n;
      if (++n > limit) throw new Violation(this.run && this.run.target !== "all" ? this.run.target : "C06", "livelock", `still ${e.length} pending tasks after ${limit} fault-free steps: ${e.slice(0, 5).map((t) => t.id)}`);
      await this.step(() => this.runTask(e[0].id));
    }
  }
}
module.exports = { Sim, Violation, HarnessError, ROOT, Uri, Selection };
