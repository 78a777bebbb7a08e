"use strict";
// The simulated analyser and the reference model of what focus mode must show.
const { hash } = require("./rng");
const lineStarts = (t) => { const a = [0]; for (let i = 0; i < t.length; i++) if (t[i] === "\n") a.push(i + 1); return a; };
const posAt = (t, off) => { off = Math.max(0, Math.min(off, t.length)); const ls = lineStarts(t); let l = 0; while (l + 1 < ls.length && ls[l + 1] <= off) l++; return { line: l, character: off - ls[l] }; };
const offAt = (t, line, ch) => { const ls = lineStarts(t); if (line < 0) return 0; if (line >= ls.length) return t.length; const end = line + 1 < ls.length ? ls[line + 1] - 1 : t.length; return Math.max(ls[line], Math.min(ls[line] + ch, end)); };

const cache = new Map();
// text -> { bodies: [{start,end,name,places:[{start,end,seeds,slice,direct}], stmts}] } in offsets
// Slices of every other function also depend on `dep`, a digest of another file on disk.
const analyse = (text, dep = "") => {
  const key = dep + "\0" + text;
  let r = cache.get(key);
  if (r) return r;
  const bodies = [];
  const re = /\bfn (\w+)\(\) \{/g;
  let m;
  while ((m = re.exec(text))) {
    let depth = 0, i = m.index + m[0].length - 1;
    for (; i < text.length; i++) { if (text[i] === "{") depth++; else if (text[i] === "}") { depth--; if (!depth) break; } }
    bodies.push({ start: m.index, end: Math.min(i + 1, text.length), name: m[1] });
  }
  const inner = (b, off) => bodies.some((c) => c !== b && c.start > b.start && c.end <= b.end && c.start <= off && off < c.end);
  for (const b of bodies) {
    const open = text.indexOf("{", b.start) + 1;
    const stmts = [], places = [];
    const sre = /[^\n;{}]+;/g; sre.lastIndex = open;
    let s;
    while ((s = sre.exec(text)) && s.index < b.end) {
      const lead = s[0].length - s[0].trimStart().length;
      const st = s.index + lead, en = s.index + s[0].length;
      if (!inner(b, st)) stmts.push([st, en]);
    }
    const pre = /\b[a-z]\d+\b|\([a-z0-9 ]*\)/g; pre.lastIndex = open;
    while ((s = pre.exec(text)) && s.index < b.end) {
      const st = s.index, en = st + s[0].length;
      if (!inner(b, st) && stmts.some(([x, y]) => x <= st && en <= y)) places.push({ start: st, end: en, txt: s[0] });
      if (s[0][0] === "(") pre.lastIndex = st + 1;
    }
    for (const p of places) {
      const salt = hash(text + b.start) % 2 ? dep : "";
      const h = (k) => hash(text + "|" + p.start + "|" + k + (k[0] === "s" || k[0] === "d" ? salt : ""));
      p.seeds = [[p.start, p.end]];
      if (h("m") % 3 === 0) for (const q of places) if (q !== p && q.txt === p.txt && h("q" + q.start) % 2) p.seeds.push([q.start, q.end]);
      p.slice = stmts.filter(([x, y], i) => (x <= p.start && p.end <= y) || h("s" + i) % 2 === 0);
      // parts of statements of the slice, and the head of the function
      if (h("s-n") % 3 === 0) for (const q of places) if (p.slice.some(([x, y]) => x <= q.start && q.end <= y) && h("s-q" + q.start) % 4 === 0) p.slice.splice(h("s-i" + q.start) % (p.slice.length + 1), 0, [q.start, q.end]);
      if (h("s-h") % 4 === 0) p.slice.push([b.start, b.start + 2]);
      p.direct = p.slice.filter((_, i) => h("d" + i) % 3 === 0);
    }
    b.places = places; b.stmts = stmts;
  }
  if (cache.size > 4000) cache.clear();
  r = { bodies }; cache.set(key, r);
  return r;
};
const toRange = (text, [a, b], filename) => { const s = posAt(text, a), e = posAt(text, b); return { start: { line: s.line, column: s.character }, end: { line: e.line, column: e.character }, filename }; };
const spansOutput = (text, filename) => ({ spans: analyse(text).bodies.map((b) => toRange(text, [b.start, b.end], filename)) });
const sizeKey = (text, it) => { const s = posAt(text, it[0]), e = posAt(text, it[1]); return [e.line - s.line, e.character - s.character]; };
const smaller = (x, y) => x[0] - y[0] || x[1] - y[1];
const enclosing = (text, a, b, dep) => {
  const bs = analyse(text, dep).bodies.filter((x) => x.start <= a && b <= x.end);
  bs.sort((x, y) => smaller(sizeKey(text, [x.start, x.end]), sizeKey(text, [y.start, y.end])));
  return bs[0] || null;
};
const focusOutput = (text, filename, line, ch, dep) => {
  const off = offAt(text, line, ch);
  const b = enclosing(text, off, off, dep);
  if (!b) return null;
  const R = (x) => toRange(text, x, filename);
  // place order is arbitrary in the real analyser (hash order): permute by text hash
  const ps = b.places.slice().sort((p, q) => hash(text + "o" + p.start) - hash(text + "o" + q.start));
  return { place_info: ps.map((p) => ({ range: R([p.start, p.end]), ranges: p.seeds.map(R), slice: p.slice.map(R), direct_influence: p.direct.map(R) })), containers: [R([b.start, b.end])] };
};
// What must be shown for selection [a,b] (offsets) in `text`, queried in body `body`.
const expected = (text, body, a, b) => {
  const hit = body.places.filter((p) => !(p.end < a || b < p.start));
  const contained = hit.filter((p) => a <= p.start && p.end <= b);
  const containing = hit.filter((p) => !contained.includes(p) && p.start <= a && b <= p.end);
  const overlapping = hit.filter((p) => !contained.includes(p) && !containing.includes(p));
  containing.sort((x, y) => smaller(sizeKey(text, [x.start, x.end]), sizeKey(text, [y.start, y.end])));
  const sliced = contained.length ? contained : overlapping.concat(containing.slice(0, 1));
  const seeds = sliced.flatMap((p) => p.seeds), slice = sliced.flatMap((p) => p.slice), emph = sliced.flatMap((p) => p.direct);
  if (!seeds.length) return { empty: true, dim: "", slice: "", seed: "", emph: "", ranges: [] };
  return { empty: false, dim: dimOf(body, slice), slice: cover(slice), seed: cover(seeds), emph: cover(emph), ranges: slice };
};
const merge = (ivs) => { const s = ivs.filter(([a, b]) => b > a).map((x) => x.slice()).sort((x, y) => x[0] - y[0] || x[1] - y[1]); const o = []; for (const v of s) { const l = o[o.length - 1]; if (l && v[0] <= l[1]) l[1] = Math.max(l[1], v[1]); else o.push(v); } return o; };
const cover = (ivs) => merge(ivs).map((x) => x.join("-")).join(",");
const dimOf = (body, slice) => { const pieces = merge(slice.filter(([a, b]) => body.start <= a && b <= body.end)); const out = []; let at = body.start; for (const [a, b] of pieces) { if (a > at) out.push([at, a]); at = Math.max(at, b); } if (at < body.end) out.push([at, body.end]); return cover(out); };
module.exports = { analyse, spansOutput, focusOutput, expected, enclosing, cover, merge, dimOf, posAt, offAt, toRange };
