"use strict";
// One integer decides everything: splitmix-seeded xorshift128, plus keyed substreams.
class Rng {
  constructor(seed) {
    let s = (seed >>> 0) ^ 0x9e3779b9;
    const nx = () => { s = (s + 0x9e3779b9) | 0; let z = s; z = Math.imul(z ^ (z >>> 16), 0x85ebca6b); z = Math.imul(z ^ (z >>> 13), 0xc2b2ae35); return (z ^ (z >>> 16)) >>> 0; };
    this.a = nx(); this.b = nx(); this.c = nx(); this.d = nx() | 1;
  }
  u32() { let t = this.a ^ (this.a << 11); this.a = this.b; this.b = this.c; this.c = this.d; this.d = (this.d ^ (this.d >>> 19) ^ t ^ (t >>> 8)) >>> 0; return this.d; }
  f() { return this.u32() / 4294967296; }
  int(n) { return Math.floor(this.f() * n); }
  range(a, b) { return a + this.int(b - a + 1); }
  bool(p = 0.5) { return this.f() < p; }
  pick(a) { return a[this.int(a.length)]; }
  weighted(o) { const ks = Object.keys(o).filter((k) => o[k] > 0); let t = 0; for (const k of ks) t += o[k]; let x = this.f() * t; for (const k of ks) { x -= o[k]; if (x < 0) return k; } return ks[ks.length - 1]; }
  r6() { return Math.round(this.f() * 1e6) / 1e6; }
}
const hash = (s) => { let h = 2166136261; for (let i = 0; i < s.length; i++) { h ^= s.charCodeAt(i); h = Math.imul(h, 16777619); } h ^= h >>> 15; h = Math.imul(h, 0x2c1b3c6d); h ^= h >>> 12; h = Math.imul(h, 0x297a2d39); h ^= h >>> 15; return h >>> 0; };
const keyed = (...k) => new Rng(hash(k.join("|")));
module.exports = { Rng, hash, keyed };
