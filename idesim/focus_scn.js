"use strict";
// Scenario for the focus-mode properties C01-C06, C10: a user working in several files.
const { ROOT } = require("./sim");
const { BaseRun } = require("./base");
const M = require("./model");
const { Rng, keyed, hash } = require("./rng");

const FILES = [ROOT + "/src/main.rs", ROOT + "/src/a.rs", ROOT + "/.gen/a.rs", ROOT + "/src/orphan.rs"];
const EXTRA = [ROOT + "/notes.txt", "/other/x.rs", ROOT + "/Cargo.toml"];

const genText = (r, name) => {
  let out = `// ${name} r${r.int(1e6)}\n`;
  const nb = r.range(1, 3);
  const stmt = (ind) => {
    const v = () => "xyzw"[r.int(4)] + r.int(3);
    const rhs = r.bool(0.4) ? `(${v()} ${v()})` : r.bool(0.3) ? `f(${v()} (${v()} ${v()}))`.replace("f(", "(") : v();
    return `${ind}${v()} = ${rhs};\n`;
  };
  for (let b = 0; b < nb; b++) {
    const long = r.bool(0.25);
    out += `fn f${b}() {\n`;
    const n = long ? r.range(7, 12) : r.range(1, 4);
    const nestAt = r.bool(0.3) ? r.int(n) : -1;
    for (let i = 0; i < n; i++) {
      if (i === nestAt && r.bool(0.3)) out += `  fn g${b}() { ${stmt("").trim()} ${stmt("").trim()} }\n`;
      else if (i === nestAt) { out += `  fn g${b}() {\n`; const k = r.range(1, r.bool(0.3) ? 8 : 3); for (let j = 0; j < k; j++) out += stmt("    "); out += "  }\n"; }
      out += stmt("  ");
    }
    out += "}\n" + (r.bool(0.3) ? "\n" : "");
  }
  return out;
};

class FocusRun extends BaseRun {
  constructor(bundle, plan, target) {
    super(bundle, plan, target);
    this.on = false;
    this.marks = new Map(); // file -> Map(bodyStart -> Set(json sel|null))
    this.windows = [];      // pending mark/unmark commands issued while busy
    this.lastReset = 0;
    this.delivered = new Set(); this.attempted = new Set();
    this.quiet = true; this.tick = 0; this.dropSeq = 0; this.deps = new Map(); this.upd = null;
  }
  isRust(ed) { return ed && ed.document.uri.scheme === "file" && ed.document.languageId === "rust" && ed.document.fileName.startsWith(ROOT + "/"); }
  act() { const e = this.S.active; return this.isRust(e) ? e : null; }
  drop() { this.dropSeq = (this.dropSeq || 0) + 1; }
  key(doc) { return doc.fileName + "#" + hash(doc._text); }

  async start() {
    const S = this.S, r = keyed(this.plan.seed, "world");
    const cfg = this.plan.cfg;
    for (const f of FILES) S.disk.set(f, genText(r, f));
    for (const f of FILES.slice(0, 3)) S.crate.add(f);
    if (!cfg.orphan) S.crate.add(FILES[3]);
    S.disk.set(ROOT + "/Cargo.toml", "[package]\n"); S.disk.set(ROOT + "/notes.txt", "notes\n"); S.disk.set("/other/x.rs", "fn f0() {\n  x0 = y0;\n}\n");
    if (cfg.brokenAtStart) { S.disk.set(FILES[0], S.disk.get(FILES[0]) + "// @@error\n"); }
    for (const f of [...FILES, ...EXTRA]) S.mkDoc(f, S.disk.get(f), f.endsWith(".rs") ? "rust" : "plaintext");
    S.active = S.mkEditor(S.docs.get(FILES[0]), 1); S.visible = [S.active];
    await this.activateClean();
    S.invariants.push(() => this.always());
    S.listeners.sel.push({ f: (ev) => { if (ev.textEditor === S.active) this.look(); } });
    S.onSave = (q) => { q.seq = this.dropSeq; q.at = this.tick++; };
    S.onTextHook = () => this.drop(); // whoever edits: the user, a formatter, another program
    S.onDidSaveHook = (doc) => { this.drop(); for (const [f, m] of this.marks) if (f !== doc.fileName) for (const s of m.values()) s.add(null); for (const w of this.windows) w.exact = false; if (doc.languageId === "rust") this.lastReset = S.stepNo; };
    S.onProcDone = (rec) => { if (rec.what === "focus" || rec.what === "spans") { const k = rec.what + "|" + this.procKey(rec); if (rec.ok) { this.delivered.add(k); rec.deliveredKey = k; rec.deliveredAt = this.tick++; } } };
    S.onSpawn.push((rec) => { if (rec.what === "focus" || rec.what === "spans") { rec.saveViolation = undefined; rec.key = this.procKey(rec); this.attempted.add(rec.what + "|" + rec.key); this.noRepeat(rec); } });
  }
  procKey(rec) {
    const file = rec.c.rest[1]; const doc = this.S.docs.get(file); const text = rec.textAtSpawn === undefined ? (rec.textAtSpawn = doc ? doc._text : "") : rec.textAtSpawn;
    if (rec.what === "spans") return file + "#" + hash(text);
    const off = M.offAt(text, +rec.c.rest[2], +rec.c.rest[3]); const b = M.enclosing(text, off, off);
    return file + "#" + hash(text) + "#" + (b ? b.start : "none");
  }
  // Nothing was edited, saved or toggled since the answer was asked for: it may not be asked for again.
  noRepeat(rec) {
    // An analysis is asked for when it saves its file, and starts once that has been done.
    const S = this.S, f = rec.c.rest[1], done = S.saves.filter((q) => q.who === "api" && q.done), asked = done.reduce((a, q) => (!a || q.done > a.done ? q : a), null);
    if (!asked || asked.used || asked.doc.fileName !== f) { if (asked) asked.used = true; return; }
    asked.used = true; rec.asked = asked;
    const k = rec.what + "|" + rec.key;
    if (S.spawnLog.some((q) => q !== rec && q.deliveredKey === k && q.asked && q.asked.seq === this.dropSeq && rec.asked.seq === this.dropSeq && q.deliveredAt < rec.asked.at)) this.repeat = `${rec.what} ${rec.c.rest.slice(1).join(" ")} was analysed again although the answer had been delivered and nothing was edited, saved or toggled since`;
  }
  // ---- invariants that hold after every single event
  always() {
    const S = this.S;
    if (this.repeat) this.fail("C04", "repeated-analysis", this.repeat);
    for (const f of S.crate) { let l = this.deps.get(f); if (!l) this.deps.set(f, l = []); const d = S.dep(f); if (l[0] !== d) this.deps.set(f, [d, ...l.filter((x) => x !== d)]); }
    for (const ed of S.visible) {
      if (ed.document.uri.scheme !== "file") continue;
      const p = S.painted(ed);
      if (p.empty) continue;
      if (!this.on) this.fail("C03", "painted-while-off", `editor of ${ed.document.fileName} shows highlights (${p.slice}|dim ${p.dim}) while focus mode is off`);
      if (!this.isRust(ed)) this.fail("C02", "painted-foreign", `highlights painted in ${ed.document.fileName}`);
      if (!this.validFor(ed.document, p)) this.fail("C02", "stale-paint", `editor of ${ed.document.fileName} (${ed.document.isDirty ? "dirty" : "clean"}) shows slice ${p.slice} / dim ${p.dim}, which no analysis of its current text gives`);
    }
    const nl = S.listeners.sel.length;
    if (this.on) { if (this.maxSel === undefined) { if (!S.tasks.size) this.maxSel = nl; } else if (nl > this.maxSel) this.fail("C03", "listeners-pile-up", `focus mode listens to cursor moves ${nl} times, when it was first on it was ${this.maxSel}: it was not turned off properly`); }
    this.states.add([S.bar(), this.on ? 1 : 0, this.act() ? (this.act().document.isDirty ? "d" : "c") : "n", S.visible.length, S.enabled((t) => t.kind === "p").length, S.enabled((t) => t.kind === "s").length, S.enabled((t) => t.kind === "d").length, this.act() ? (S.painted(this.act()).empty ? "-" : "P") : "x"].join("/"));
  }
  validFor(doc, p) { return (this.deps.get(doc.fileName) || [""]).some((d) => this.validWith(M.analyse(doc._text, d), p)); }
  validWith(a, p) {
    const inU = (ivs, allowed) => ivs.every(([x, y]) => x === y || allowed.has(x + "-" + y));
    return a.bodies.some((b) => {
      const sl = new Set(), se = new Set();
      for (const q of b.places) { for (const [x, y] of q.slice) sl.add(x + "-" + y); for (const [x, y] of q.seeds) se.add(x + "-" + y); }
      return inU(p.raw.slice, sl) && inU(p.raw.seed, se) && inU(p.raw.emph, sl) && p.dim === M.dimOf(b, p.raw.slice);
    });
  }
  // ---- user operations (each is one scheduler step)
  selPos(ed, o) {
    const text = ed.document._text, a = M.analyse(text);
    const bs = a.bodies.filter((b) => b.places.length);
    if (!bs.length || o.kind === "out") { const x = Math.floor(o.a * text.length); return [x, x]; }
    const b = bs[Math.min(bs.length - 1, Math.floor(o.b * bs.length))], p = b.places[Math.min(b.places.length - 1, Math.floor(o.a * b.places.length))];
    switch (o.kind) {
      case "place": { const x = p.start + Math.min(p.end - p.start, 1); return [x, x]; }
      case "exact": return [p.start, p.end];
      case "stmt": { const s = b.stmts[Math.min(b.stmts.length - 1, Math.floor(o.a * b.stmts.length))]; return s; }
      case "multi": { const q = b.stmts[Math.floor(o.a * b.stmts.length)] || b.stmts[0], q2 = b.stmts[b.stmts.length - 1]; return [Math.min(q[0], q2[0]) , Math.max(q[1], q2[1])]; }
      case "partial": { const s = b.stmts[Math.min(b.stmts.length - 1, Math.floor(o.a * b.stmts.length))]; return [s[0] + 1, Math.min(b.end - 1, s[0] + 1 + Math.floor(o.c * (s[1] - s[0])))]; }
      default: { const x = b.start + Math.floor(o.a * (b.end - b.start)); return [x, x]; }
    }
  }
  usable(ed, [a, b]) {
    void ed; void a; void b; return true;
  }
  // An edit removes the marks of its document; those elsewhere may stay or go.
  clearMarks(doc) {
    this.drop(); this.upd = null;
    this.marks.delete(doc.fileName);
    for (const m of this.marks.values()) for (const s of m.values()) s.add(null);
    for (const w of this.windows) { w.exact = false; w.sels = w.sels.filter(([f]) => f !== doc.fileName); }
    this.windows = this.windows.filter((w) => w.kind === "unmark" ? w.file !== doc.fileName : w.sels.length);
  }
  poss(file, start) { let m = this.marks.get(file); if (!m) this.marks.set(file, m = new Map()); let s = m.get(start); if (!s) m.set(start, s = new Set([null])); return s; }
  noteSel(ed) { for (const w of this.windows) if (w.kind === "mark") w.sels.push([ed.document.fileName, ...this.S.selOffsets(ed)]); }
  // Whether the last thing that happened to the active editor made the extension look at it.
  covered() { const u = this.upd, e = this.S.active; return !!u && u.ed === e && u.text === e.document._text && u.sel === String(this.S.selOffsets(e)); }
  doOp(o) {
    this.doOp1(o);
    if (["mark", "unmark", "select"].includes(o.op)) this.look();
    if (o.op === "last_error") this.upd = null;
  }
  look() { const S = this.S, e = this.act(); this.upd = e && this.on ? { ed: e, text: e.document._text, sel: String(S.selOffsets(e)) } : null; }
  doOp1(o) {
    const S = this.S, ed = this.act();
    S.stats.userOps++;
    S.trace.push("u." + o.op);
    switch (o.op) {
      case "move": { if (!ed) return; const se = this.selPos(ed, o); if (!this.usable(ed, se)) return; S.select(ed, ...se, o.c > 0.5); this.noteSel(ed); return; }
      case "toggle": { this.drop(); this.on = !this.on; if (this.on) { this.lastReset = S.stepNo; } else { this.lastOff = S.stepNo; } for (const m of this.marks.values()) for (const s of m.values()) s.add(null); S.exec("focus"); return; }
      case "mark": case "unmark": case "select": {
        if (!ed) return;
        const was = this.on; this.on = true; if (!was) this.lastReset = S.stepNo;
        if (o.op !== "select") { const w = { kind: o.op, file: ed.document.fileName, sels: [[ed.document.fileName, ...S.selOffsets(ed)]], exact: this.quietNow && was && S.bar() === "active", step: S.stepNo }; this.windows.push(w); }
        S.exec("focus_" + o.op); return;
      }
      case "edit": {
        const e2 = o.bg ? S.visible.find((e) => this.isRust(e) && e !== ed) : ed;
        const doc = o.bg ? (e2 ? e2.document : S.docs.get(FILES[Math.floor(o.a * 3)])) : ed && ed.document;
        if (!doc) return;
        const t = doc._text; let nt;
        const r = keyed(this.plan.seed, "edit", S.stepNo, o.a);
        if (o.kind === "fix") nt = t.split("\n").filter((l) => !l.includes("@@error")).join("\n");
        else if (o.kind === "break") nt = t.includes("@@error") ? t : t + "// @@error\n";
        else if (o.kind === "body") { const i = t.indexOf(";", Math.floor(o.a * t.length)); nt = i < 0 ? "// e" + r.int(1e6) + "\n" + t : t.slice(0, i + 1) + `\n  x${r.int(3)} = y${r.int(3)};` + t.slice(i + 1); }
        else if (o.kind === "del") { const i = t.indexOf("\n", Math.floor(o.a * t.length)); const line = t.slice(t.lastIndexOf("\n", i - 1) + 1, i); nt = i > 0 && /^\s*[a-z]\d+ = .*;$/.test(line) ? t.slice(0, t.lastIndexOf("\n", i - 1) + 1) + t.slice(i + 1) : "// d" + r.int(1e6) + "\n" + t; }
        else nt = "// n" + r.int(1e6) + "\n" + t;
        if (nt === t) return;
        this.clearMarks(doc); this.lastReset = S.stepNo;
        S.setText(doc, nt, { dirty: true });
        if (o.sel && ed && doc === ed.document) { const x = Math.min(nt.length, Math.floor(o.a * nt.length)); S.select(ed, x, x); this.noteSel(ed); }
        return;
      }
      case "undo": { const doc = ed && ed.document; if (!doc || !doc.isDirty || S.enabled((t) => t.kind === "s" && t.meta.doc === doc).length) return; this.clearMarks(doc); this.lastReset = S.stepNo; S.fault("undo_to_clean"); S.setText(doc, doc._saved, { dirty: false, force: true }); return; }
      case "reload": { const doc = o.bg ? S.docs.get(FILES[Math.floor(o.a * 3)]) : ed && ed.document; if (!doc || doc.isDirty || S.enabled((t) => t.kind === "s" && t.meta.doc === doc).length) return; this.clearMarks(doc); this.lastReset = S.stepNo; S.fault("external_change"); const nt = "// ext" + Math.floor(o.a * 1e6) + "\n" + doc._text; S.disk.set(doc.fileName, nt); doc._saved = nt; S.setText(doc, nt, { dirty: false }); return; }
      case "save": { const d = o.all ? [...S.docs.values()].filter((x) => x.isDirty) : ed ? [ed.document] : []; for (const x of d) if (x.isDirty) S.saveDoc(x, "user"); return; }
      case "switch": { const f = o.to < 4 ? FILES[o.to] : EXTRA[(o.to - 4) % EXTRA.length]; if (!this.cfgOrphanOk(f)) return; S.showInColumn(S.docs.get(f), o.split ? 2 : (S.active ? S.active.viewColumn === 9 ? 1 : S.active.viewColumn : 1), { selEvent: o.sel }); if (this.act()) this.noteSel(this.act()); return; }
      case "focuscol": { const e = S.visible.filter((x) => x !== S.active)[0]; if (!e) return; S.active = e; S.fire("active", e); if (o.sel) S.fire("sel", { textEditor: e, selections: e._sels, kind: undefined }); if (this.act()) this.noteSel(this.act()); return; }
      case "closeall": { while (S.visible.length) S.closeEditor(S.visible[0]); return; }
      case "closepane": { const p = S.paneEditor(); if (p) { S.fault("user_closes_error_pane"); S.closeEditor(p); } return; }
      case "last_error": { S.exec("last_error"); return; }
    }
    throw new Error("unknown op " + o.op);
  }
  cfgOrphanOk(f) { return f !== FILES[3] || this.plan.cfg.orphan; }
  poke() { const S = this.S, ed = this.act(); if (ed) { S.trace.push("u.poke"); S.fire("sel", { textEditor: ed, selections: ed._sels, kind: undefined }); } }
  resolveWindows() {
    // Commands issued since the last settled point have all finished: fold their possible effects in.
    for (const w of this.windows) {
      const doc = this.S.docs.get(w.file);
      for (const [f, a, b] of w.sels) {
        if (f !== w.file) continue;
        const body = M.enclosing(doc._text, a, b); if (!body) continue;
        const s = this.poss(w.file, body.start), v = w.kind === "mark" ? JSON.stringify([a, b]) : null;
        if (w.exact && w.sels.length === 1 && this.windows.length === 1 && !this.failedSince(w.step)) { s.clear(); s.add(v); } else s.add(v);
      }
    }
    this.windows = [];
  }
  failedSince(step) { return this.S.lastFail !== undefined && this.S.lastFail >= step; }
  async drainAll() {
    const S = this.S;
    await S.drain((t) => t.kind !== "d");
    if (this.on && S.bar() === "loading") this.fail("C06", "loading-behind-dialog", `nothing is running except an unanswered message box, but the status still says loading; messages: ${JSON.stringify(S.dialogs.filter((d) => !d.answered).map((d) => d.msg))}`);
    await S.drain();
  }
  async settle({ poke = true, recovery = false } = {}) {
    const S = this.S;
    await this.drainAll();
    this.checkQuiet(this.covered());
    if (poke && this.act()) {
      if (!this.usable(this.act(), S.selOffsets(this.act()))) { await S.step(() => S.select(this.act(), S.selOffsets(this.act())[0], S.selOffsets(this.act())[0])); this.noteSel(this.act()); await this.drainAll(); }
      await S.step(() => this.poke()); await this.drainAll(); this.checkQuiet(true, recovery);
    }
    this.resolveWindows();
    if (poke) this.quietNow = true;
    this.probe("settled");
  }
  checkQuiet(poked, recovery) {
    const S = this.S, bar = S.bar(), ed = this.act();
    if (!this.on) {
      if (bar !== "idle") this.fail(["C10", "C03"], "bar-off", `focus mode is off and nothing is pending but the status bar says ${bar}`);
      if (S.paneEditor() && !this.paneExcused()) this.fail("C03", "pane-open-while-off", "the error pane is open although focus mode was turned off after it was requested");
      return;
    }
    if (bar === "loading") this.fail(["C06", "C10", "C07"], "stuck-loading", `nothing is pending but the status bar says loading (last failure: ${S.lastFailWhat}; escaped: ${S.escaped.slice(-1)})`);
    if (!poked || !ed) return;
    const doc = ed.document, p = S.painted(ed), failed = this.failedSince(this.lastReset) && !recovery;
    if (doc.isDirty) {
      if (bar !== "unsaved" && !(failed && bar === "error")) this.fail("C10", "bar-dirty", `active file has unsaved changes; status bar says ${bar}`);
      return;
    }
    if (failed && bar === "error") { this.probe("error-state"); return; }
    if (!S.crate.has(doc.fileName)) { if (bar !== "notfound") this.fail("C10", "bar-notfound", `file outside the Cargo project; status bar says ${bar}`); if (!p.empty && false) return; this.probe("notfound"); return; }
    const broken = [...S.crate].some((f) => (S.disk.get(f) || "").includes("@@error"));
    if (broken && this.failedSince(this.lastReset) && bar === "error") { this.probe("error-state"); return; }
    if (bar !== "active") this.fail(recovery ? ["C06", "C10"] : ["C10"], recovery ? "no-recovery" : "bar-active", `file saved, ${failed ? "an analysis failed" : "no analysis failed since the last edit, save or toggle"}, nothing pending; status bar says ${bar} (last failure ${S.lastFailWhat} at step ${S.lastFail}, reset at ${this.lastReset}, now ${S.stepNo})`);
    if (S.paneEditor() && !this.paneExcused2()) this.fail("C06", "pane-after-success", "the last analysis succeeded but the error pane of an earlier failure is still open");
    const [a, b] = S.selOffsets(ed), body = M.enclosing(doc._text, a, b, S.dep(doc.fileName));
    if (!body) { this.probe("outside-body"); return; }
    if (!p.empty) this.probe("painted");
    const possible = this.possibleMarks(doc.fileName, body, doc._text, a, b);
    const want = possible.map((m) => M.expected(doc._text, body, ...(m || [a, b])));
    const match = (e) => e.empty ? p.empty : (e.dim === p.dim && e.slice === p.slice && e.seed === p.seed && e.emph === p.emph);
    if (!want.some(match)) {
      const marked = possible.some((m) => m);
      const props = ["C01", ...(this.everMarked ? ["C05"] : []), ...(recovery ? ["C06"] : []), ...(this.plan.cfg.sequential ? ["C07"] : [])];
      this.fail(props, marked ? "wrong-slice-with-mark" : recovery ? "wrong-after-recovery" : "wrong-slice", `selection [${a},${b}] in ${doc.fileName} (function at ${body.start}); marks considered ${JSON.stringify(possible)}; shown slice=${p.slice} dim=${p.dim} seed=${p.seed} emph=${p.emph}; expected slice=${want[0].slice} dim=${want[0].dim} seed=${want[0].seed} emph=${want[0].emph}`);
    }
    if (possible.some((m) => m)) this.probe("mark-in-force");
    this.probe("highlight-checked");
  }
  possibleMarks(file, body, text, a, b) {
    const out = new Set([...this.poss(file, body.start)]);
    for (const w of this.windows) {
      if (w.kind === "mark") { this.everMarked = true; if (w.exact && w.sels.length >= 1 && this.windows.length === 1 && !this.failedSince(w.step)) { const [f, x, y] = w.sels[0]; const bb = M.enclosing(text, x, y); if (f === file && bb && bb.start === body.start && w.sels.length === 1) { out.clear(); } } for (const [f, x, y] of w.sels) { const bb = M.enclosing(this.S.docs.get(f)._text, x, y); if (f === file && bb && bb.start === body.start) out.add(JSON.stringify([x, y])); } }
      else if (w.exact && this.windows.length === 1 && w.file === file && !this.failedSince(w.step)) { const [, x, y] = w.sels[0]; const bb = M.enclosing(text, x, y); if (bb && bb.start === body.start) out.clear(); out.add(null); }
      else out.add(null);
    }
    return [...out].map((x) => x === null ? null : JSON.parse(x));
  }
  paneExcused2() { return false; }
  paneExcused() { return (this.S.execs || []).some((e) => e.name === "last_error" && e.step >= (this.lastOff || 0)); }

  // ---- settled probes: one operation on a quiescent system, with an exact expectation
  async doProbe(o) {
    const S = this.S;
    await this.settle({ poke: true });
    const ed = this.act();
    const okState = () => this.on && ed && !ed._disposed && S.bar() === "active" && !ed.document.isDirty && S.crate.has(ed.document.fileName);
    const spawnsFrom = (n) => S.spawnLog.slice(n).filter((r) => r.what === "focus" || r.what === "spans");
    switch (o.kind) {
      case "reuse": case "reuse_mark": case "reuse_select": {
        if (!okState()) return;
        const doc = ed.document, [a, b] = S.selOffsets(ed), body = M.enclosing(doc._text, a, b);
        if (!body || !body.places.length) return;
        const k = "focus|" + this.key(doc) + "#" + body.start;
        if (!this.delivered.has(k)) return;
        const n = S.spawnLog.length;
        if (o.kind === "reuse") { const p = body.places[Math.floor(o.a * body.places.length)]; await S.step(() => { S.select(ed, p.start, p.start); this.noteSel(ed); }); }
        else await S.step(() => this.doOp({ op: o.kind === "reuse_mark" ? (o.a < 0.5 ? "mark" : "unmark") : "select" }));
        await this.drainAll();
        const sp = spawnsFrom(n);
        const stay = M.enclosing(doc._text, ...S.selOffsets(ed)) === body;
        if (sp.length && stay) this.fail("C04", "reanalysis", `${o.kind} inside function at ${body.start} of ${doc.fileName}, already analysed for this text, started ${sp.map((r) => r.what + " " + r.c.rest.slice(1)).join("; ")}`);
        this.probe("reuse-checked");
        await this.settle({ poke: true });
        return;
      }
      case "fresh": {
        if (!okState()) return;
        const doc = ed.document, bodies = M.analyse(doc._text).bodies.filter((b) => b.places.length && !this.attempted.has("focus|" + this.key(doc) + "#" + b.start));
        if (!bodies.length || !this.delivered.has("spans|" + this.key(doc))) return;
        const body = bodies[Math.floor(o.a * bodies.length)], p = body.places[0], n = S.spawnLog.length;
        await S.step(() => { S.select(ed, p.start, p.start); this.noteSel(ed); });
        await this.drainAll();
        const sp = spawnsFrom(n);
        const foc = sp.filter((r) => r.what === "focus"), spn = sp.filter((r) => r.what === "spans");
        if (foc.length !== 1 || spn.length) { if (!sp.some((r) => !r.ok)) this.fail("C04", "fresh-count", `one cursor move into a function not analysed yet started ${foc.length} function analyses and ${spn.length} file analyses`); }
        this.probe("fresh-checked");
        await this.settle({ poke: true });
        return;
      }
      case "afteredit": {
        // an edit invalidates: after edit + save the function under the cursor is analysed again
        if (!okState()) return;
        const doc = ed.document, [a, b] = S.selOffsets(ed); if (!M.enclosing(doc._text, a, b)) return;
        await S.step(() => this.doOp({ op: "edit", kind: "newline", a: o.a }));
        const n = S.spawnLog.length;
        await S.step(() => this.doOp({ op: "save" }));
        await this.drainAll();
        if (doc.isDirty || this.act() !== ed) return;
        const sp = spawnsFrom(n);
        const [a2, b2] = S.selOffsets(ed);
        if (M.enclosing(doc._text, a2, b2) && !this.failedSince(this.lastReset) && !sp.some((r) => r.what === "focus")) this.fail("C04", "stale-cache", `after an edit and a save of ${doc.fileName} the function under the cursor was not analysed again`);
        this.probe("afteredit-checked");
        await this.settle({ poke: true });
        return;
      }
      case "crosssave": {
        // a file that this one depends on is saved around the time at which this one is analysed
        if (!okState()) return;
        const doc = ed.document, fs = [...S.crate], a = S.docs.get(fs[(fs.indexOf(doc.fileName) + 1) % fs.length]);
        if (a === doc || a.isDirty || S.visible.some((e) => e.document === a)) return;
        await S.step(() => { this.clearMarks(a); this.lastReset = S.stepNo; S.setText(a, "// x" + Math.floor(o.a * 1e6) + "\n" + a._text, { dirty: true }); });
        await this.settle({ poke: true });
        if (!okState() || !a.isDirty) return;
        const bodies = M.analyse(doc._text).bodies.filter((b) => b.places.length), body = bodies[Math.floor(o.a * bodies.length)]; if (!body) return; const p = body.places[Math.floor(o.b * body.places.length)];
        await S.step(() => { S.select(ed, p.start, p.start); this.noteSel(ed); });
        for (let i = Math.floor(o.b * 997) % 12; i > 0; i--) { const e = S.enabled(); if (!e.length) break; await S.step(() => S.runTask(e[0].id)); }
        await S.step(() => S.saveDoc(a, "user"));
        for (let e; o.a < 0.8 && (e = S.enabled((t) => t.kind === "s" && t.meta.doc === a)[0]);) await S.step(() => S.runTask(e.id));
        await this.settle({ poke: o.a < 0.3 });
        this.probe("crosssave-checked");
        return;
      }
      case "off": {
        if (!this.on) return;
        await S.step(() => this.doOp({ op: "toggle" }));
        await this.settle({ poke: false });
        const e2 = this.act(); const n = S.spawnLog.length;
        if (e2) { const bs = M.analyse(e2.document._text).bodies.filter((b) => b.places.length); for (const b of bs) { await S.step(() => S.select(e2, b.places[0].start, b.places[0].start)); await S.drain(); } }
        const sp = spawnsFrom(n);
        if (sp.length) this.fail("C03", "analysis-while-off", `cursor moves while focus mode is off started ${sp.map((r) => r.what).join()}`);
        this.probe("off-checked");
        return;
      }
      case "cycle": {
        // off/on several times, then one move into a fresh function must cause exactly one analysis
        if (!this.on) return;
        for (let i = 0; i < 2 + Math.floor(o.a * 3) * 2; i++) { await S.step(() => this.doOp({ op: "toggle" })); if (o.b < 0.5) await this.drainAll(); }
        await this.settle({ poke: true });
        await this.doProbe({ kind: "fresh", a: o.b });
        this.probe("cycle-checked");
        return;
      }
      case "select": {
        if (!okState()) return;
        const doc = ed.document, [a, b] = S.selOffsets(ed), body = M.enclosing(doc._text, a, b, S.dep(doc.fileName)); if (!body) return;
        const marks = this.possibleMarks(doc.fileName, body, doc._text, a, b); if (marks.length !== 1) return;
        const want = M.expected(doc._text, body, ...(marks[0] || [a, b])); if (want.empty || !this.delivered.has("focus|" + this.key(doc) + "#" + body.start)) return;
        S.lastSelect = null;
        await S.step(() => this.doOp({ op: "select" }));
        await this.drainAll();
        const got = (S.lastSelect || []).map((s) => [doc.offsetAt(s.start), doc.offsetAt(s.end)]);
        const norm = (x) => [...new Set(x.map((y) => y.join("-")))].sort().join(",");
        if (norm(got) !== norm(want.ranges)) this.fail("C05", "select", `select set the selections to ${norm(got)}; the slice is ${norm(want.ranges)}`);
        this.probe("select-checked");
        await S.step(() => { S.select(ed, a, b); });
        await this.settle({ poke: true });
        return;
      }
      case "mark": {
        // mark s1, move to s2 in the same function: still s1; unmark: s2
        if (!okState()) return;
        const doc = ed.document, [a, b] = S.selOffsets(ed), body = M.enclosing(doc._text, a, b); if (!body || M.expected(doc._text, body, a, b).empty) return;
        await S.step(() => this.doOp({ op: "mark" })); await this.settle({ poke: true });
        const p = body.places[Math.floor(o.a * body.places.length)];
        if (this.act() !== ed || ed.document._text !== doc._text) return;
        await S.step(() => { S.select(ed, p.start, p.end); }); await this.settle({ poke: true });
        this.probe("mark-checked");
        if (o.b < 0.6) { await S.step(() => this.doOp({ op: "unmark" })); await this.settle({ poke: true }); this.probe("unmark-checked"); }
        return;
      }
      case "lasterr": {
        // the last build failure can always be looked at, and an older one does not stay on display
        const fails = S.spawnLog.filter((r) => r.done && r.ok === false && ["focus", "spans", "preload"].includes(r.what) && (r.kind === "spawnerr" || !r.out || r.out.code !== 0));
        if (!fails.length || (S.saveFailStep || 0) >= Math.max(...fails.map((r) => r.doneStep))) return;
        const last = fails.reduce((x, y) => (y.doneStep >= x.doneStep ? y : x));
        const w = last.kind === "spawnerr" ? "ENOENT" : (last.out.err || "").trim();
        await S.step(() => this.doOp({ op: "last_error" })); await this.drainAll();
        const pane = S.paneText();
        if (pane === null || !pane.includes(w)) this.fail(["C06", "C07"], "last-error", `asked for the last error, the error pane shows ${JSON.stringify(pane)}; the last failure was ${last.what} with ${JSON.stringify(w)}`);
        this.probe("last-error-checked");
        return;
      }
      case "failon": {
        // user-initiated request that fails must show the failure
        if (this.on) { await S.step(() => this.doOp({ op: "toggle" })); await this.settle({ poke: false }); }
        const e2 = this.act(); if (!e2 || !S.crate.has(e2.document.fileName)) return;
        const nd = S.messages.length;
        const before = S.lastFail; const t0 = S.stepNo;
        const n = S.spawnLog.length;
        const paneBefore = S.paneText();
        await S.step(() => this.doOp({ op: "toggle" }));
        await S.drain((t) => t.kind !== "d");
        const bad = S.spawnLog.slice(n).filter((r) => r.done && r.ok === false);
        if (S.bar() === "error" && bad.length) {
          const build = bad.filter((r) => r.kind === "spawnerr" || !r.out || r.out.code !== 0);
          const msgs = S.messages.slice(nd).map((m) => m.msg), pane = S.paneText();
          const shown = msgs.length > 0 || (pane !== null);
          if (!shown) this.fail(["C06", "C07"], "failure-not-shown", `turning focus mode on failed (${bad.map((r) => r.what + ":" + r.kind)}) but neither the error pane nor a message is visible`);
          if (build.length === bad.length && build.length === 1 && pane !== null) { const w = build[0].kind === "spawnerr" ? "ENOENT" : (build[0].out.err || "").trim(); if (!pane.includes(w)) this.fail(["C06", "C07"], "wrong-error-shown", `error pane does not contain the failure's diagnostics ${JSON.stringify(w)}: ${JSON.stringify(pane)}`); }
          this.probe("failure-shown-checked");
        }
        void before; void t0; void paneBefore;
        await this.settle({ poke: true });
        return;
      }
    }
    throw new Error("unknown probe " + o.kind);
  }
  // ---- after the faults stop, everything must come good
  async recover(variant) {
    const S = this.S;
    S.plan = { ...S.plan, procs: {}, saves: {}, dialogs: {} }; // faults stop
    await this.drainAll();
    let ed = this.act();
    if (!ed || !S.crate.has(ed.document.fileName)) { await S.step(() => this.doOp({ op: "switch", to: 1, sel: true })); await this.drainAll(); ed = this.act(); }
    // repair every broken or unsaved file the way a user would
    for (const f of FILES) {
      const doc = S.docs.get(f);
      if (doc._text.includes("@@error") || doc.isDirty) {
        await S.step(() => this.doOp({ op: "switch", to: FILES.indexOf(f), sel: false })); await this.drainAll();
        if (!this.act() || this.act().document !== doc) { if (f === FILES[3]) { await S.step(() => S.showInColumn(doc, 1)); } else continue; }
        await S.step(() => this.doOp({ op: "edit", kind: "fix", a: 0.3 })); await S.step(() => this.doOp({ op: "save" })); await this.drainAll();
        if (doc.isDirty) await S.step(() => S.saveDoc(doc, "user")), await this.drainAll();
      }
    }
    if (!this.act() || !S.crate.has(this.act().document.fileName)) await S.step(() => this.doOp({ op: "switch", to: 2, sel: true }));
    await this.drainAll();
    ed = this.act();
    const bs = M.analyse(ed.document._text).bodies.filter((b) => b.places.length);
    if (!this.on) { await S.step(() => this.doOp({ op: "toggle" })); await this.drainAll(); }
    if (variant === 0) { await S.step(() => this.doOp({ op: "edit", kind: "newline", a: 0.1 })); await S.step(() => this.doOp({ op: "save" })); }
    else { await S.step(() => this.doOp({ op: "toggle" })); await this.drainAll(); await S.step(() => this.doOp({ op: "toggle" })); }
    await this.drainAll();
    if (bs.length) { const bb = M.analyse(ed.document._text).bodies.filter((b) => b.places.length); const p = bb[S.stepNo % bb.length].places[0]; await S.step(() => S.select(ed, p.start, p.start)); }
    this.clearAmbiguousMarks();
    await this.settle({ poke: true, recovery: true });
    if (!this.on) this.fail("C06", "no-recovery", "focus mode is not on");
    this.probe("recovered");
  }
  clearAmbiguousMarks() { }

  // ---- generation
  static genPlan(seed, prop, tier) {
    const r = keyed(seed, "plan", prop);
    const cfg = { sequential: prop === "C07", nsteps: prop === "C07" ? r.range(3, 12) : r.range(6, tier === "thorough" ? 90 : 50), userP: [0.15, 0.3, 0.5, 0.7][r.int(4)], faults: r.bool(prop === "C06" || prop === "C07" ? 0.9 : 0.45), orphan: r.bool(0.2), brokenAtStart: r.bool(0.08), split: r.bool(0.3), lifo: r.f(), probes: r.bool(0.7) };
    cfg.faultRate = cfg.faults ? [0.03, 0.1, 0.25][r.int(3)] : 0;
    // swarm: each run weights user operations differently and leaves some out
    const base = { move: 8, toggle: 2, mark: 1.2, unmark: 0.7, select: 0.5, edit: 2.5, save: 2, switch: 1.2, undo: 0.4, reload: 0.3, bgedit: 0.4, break: 0.4, fix: 0.6, saveall: 0.4, focuscol: 0.4, closepane: 0.2, closeall: 0.05, last_error: 0.15, settle: 0.6, probe: cfg.probes ? 1.2 : 0 };
    const w = {};
    for (const k in base) w[k] = r.bool(0.15) ? 0 : base[k] * (0.3 + 2 * r.f());
    w.move = Math.max(w.move, 1); w.toggle = Math.max(w.toggle, 0.5);
    if (prop === "C03") w.toggle *= 3; if (prop === "C05") { w.mark = Math.max(w.mark, 1) * 3; w.unmark = Math.max(0.5, w.unmark) * 2; w.select = Math.max(w.select, 0.5); } if (prop === "C02") w.edit = Math.max(w.edit, 2) * 2;
    if (prop === "C04" || prop === "C05") { w.probe = 2.5; cfg.probes = true; }
    if (prop !== "C05" && r.bool(0.5)) { w.mark = 0; w.unmark = 0; w.select = 0; }
    const pw = { reuse: 2, reuse_mark: 1, reuse_select: 0.5, fresh: 2, afteredit: 1, off: 1, cycle: 1, select: 1, mark: 1.5, failon: 1, lasterr: 0.4, crosssave: 1 };
    if (prop === "C04") { pw.reuse = 4; pw.fresh = 4; } if (prop === "C05") { pw.mark = 5; pw.select = 4; } if (prop === "C06" || prop === "C07") { pw.failon = 5; pw.lasterr = 3; } if (prop === "C03") { pw.off = 5; pw.cycle = 4; }
    if (!(w.mark > 0)) { pw.mark = 0; pw.reuse_mark = 0; pw.select = 0; pw.reuse_select = 0; }
    return { seed, prop, cfg, w, pw, procs: {}, saves: {}, dialogs: {}, steps: [] };
  }
  async generate() {
    const S = this.S, P = this.plan, r = keyed(P.seed, "steps", P.prop), cfg = P.cfg;
    const seenP = new Set();
    const assignFaults = () => {
      // decide the fate of the next few processes, saves and dialogs ahead of time
      for (let k = S.nextId.p; k < S.nextId.p + 6; k++) if (!seenP.has("p" + k)) {
        seenP.add("p" + k); const q = keyed(P.seed, "pf", k);
        const pl = {};
        if (q.bool(0.5)) pl.chunks = q.range(2, 4);
        if (q.bool(0.2)) { pl.warn = "warning: ünused\n"; pl.echunks = q.range(1, 4); }
        if (q.bool(0.2)) pl.exitEarly = true;
        if (cfg.faults && q.bool(cfg.faultRate)) { pl.kind = q.weighted({ exit: 4, signal: 2, spawnerr: 1, trunc: 2, garbage: 1, empty: 2, typederr: 3, badgzip: 0.5, badjson: 0.5 }); pl.frac = q.f(); if (pl.kind === "typederr" && q.bool(0.4)) pl.typed = { type: "AnalysisError", error: "" }; if (pl.kind === "spawnerr") pl.closeAfterError = q.bool(); if (pl.kind === "exit") { pl.err = "error: injected ü failure " + k; pl.echunks = q.range(1, 5); } }
        if (Object.keys(pl).length) P.procs[k] = pl;
      }
      for (let k = S.nextId.s; k < S.nextId.s + 3; k++) if (!seenP.has("s" + k)) { seenP.add("s" + k); const q = keyed(P.seed, "sf", k); if (q.bool(0.1)) P.saves[k] = "format"; else if (cfg.faults && q.bool(cfg.faultRate)) P.saves[k] = q.bool(0.8) ? "fail" : "reject"; }
      for (let k = S.nextId.d; k < S.nextId.d + 3; k++) if (!seenP.has("d" + k)) { seenP.add("d" + k); const q = keyed(P.seed, "df", k); P.dialogs[k] = q.pick(["Report bug", "Dismiss", null]); }
    };
    assignFaults();
    const steps = P.steps;
    const go = async (st) => { steps.push(st); await this.apply(st); assignFaults(); };
    await go({ u: { op: "toggle" } });
    for (let i = 0; i < cfg.nsteps; i++) {
      const pend = S.enabled();
      if (pend.length && !r.bool(cfg.userP)) { const t = r.bool(cfg.lifo) ? pend[pend.length - 1] : r.pick(pend); await go({ e: t.id }); continue; }
      // another file with unsaved changes is saved while this one is being analysed
      const other = [...S.docs.values()].some((d) => d.isDirty && S.active && d !== S.active.document) && S.bar() === "loading";
      const k = other && r.bool(0.3) ? "saveall" : r.weighted(P.w);
      const o = { a: r.r6(), b: r.r6() };
      switch (k) {
        case "move": await go({ u: { op: "move", kind: r.weighted({ place: 6, exact: 2, stmt: 1.5, multi: 1, partial: 1, any: 1, out: 0.7 }), ...o, c: r.r6() } }); break;
        case "edit": await go({ u: { op: "edit", kind: r.weighted({ newline: 2, body: 3, del: 1.5 }), a: o.a, sel: r.bool(0.6) } }); break;
        case "bgedit": await go({ u: { op: "edit", kind: "body", a: o.a, bg: true } }); break;
        case "break": await go({ u: { op: "edit", kind: "break", a: o.a } }); break;
        case "fix": await go({ u: { op: "edit", kind: "fix", a: o.a } }); break;
        case "save": await go({ u: { op: "save" } }); break;
        case "saveall": await go({ u: { op: "save", all: true } }); break;
        case "reload": await go({ u: { op: "reload", a: o.a, bg: r.bool(0.4) } }); break;
        case "switch": await go({ u: { op: "switch", to: r.bool(0.85) ? r.int(4) : 4 + r.int(3), sel: r.bool(0.5), split: cfg.split && r.bool(0.4) } }); break;
        case "focuscol": await go({ u: { op: "focuscol", sel: r.bool(0.5) } }); break;
        case "settle": await go({ settle: 1, poke: r.bool(0.8) }); break;
        case "probe": await go({ probe: { kind: r.weighted(P.pw), ...o } }); break;
        default: await go({ u: { op: k, ...o } });
      }
      if (cfg.sequential) await go({ settle: 1, poke: true });
    }
    await go({ settle: 1, poke: true });
    await go({ recover: r.int(2) });
  }
  async apply(st) {
    const S = this.S;
    if (st.e) { if (S.tasks.has(st.e)) { this.quietNow = false; await S.step(() => S.runTask(st.e)); } return; }
    if (st.u) { if (["edit", "undo", "reload", "toggle", "switch", "closeall", "save", "focuscol", "move"].includes(st.u.op) || true) { const q = this.quietNow && !S.tasks.size, idle = !S.tasks.size; const ns = S.saves.length, np = S.spawnLog.length; await S.step(() => { this.quietNow = q; this.doOp(st.u); }); this.quietNow = false;
      const e = this.act();
      if (idle && ["move", "switch", "focuscol"].includes(st.u.op) && e && e.document.isDirty && (S.saves.length > ns || S.spawnLog.length > np)) this.fail("C04", "unsaved-analysed", `${st.u.op} with unsaved changes in ${e.document.fileName} ${S.saves.length > ns ? "saved it" : "started an analysis"}`);
      } return; }
    if (st.settle) { await this.settle({ poke: st.poke }); return; }
    if (st.probe) { await this.doProbe(st.probe); return; }
    if (st.recover !== undefined) { await this.recover(st.recover); return; }
  }
  async replay() { for (const st of this.plan.steps.slice()) await this.apply(st); }
}
module.exports = { FocusRun };
