// Stand-in for @flatten-js/interval-tree 1.x: in-order search by (low, high), closed-interval
// intersection, insertion order among equal keys.
"use strict";
class Interval {
  constructor(low, high) { this.low = low; this.high = high; }
  get max() { return new Interval(this.low, this.high); }
  clone() { return new Interval(this.low, this.high); }
  less_than(o) { return this.low < o.low || (this.low === o.low && this.high < o.high); }
  equal_to(o) { return this.low === o.low && this.high === o.high; }
  not_intersect(o) { return this.high < o.low || o.high < this.low; }
  merge(o) { return new Interval(Math.min(this.low, o.low), Math.max(this.high, o.high)); }
  output() { return [this.low, this.high]; }
}
const mk = (k) => Array.isArray(k) ? new Interval(Math.min(k[0], k[1]), Math.max(k[0], k[1])) : k;
class IntervalTree {
  constructor() { this.nodes = []; }
  get size() { return this.nodes.length; }
  get keys() { return this.nodes.map((n) => n.key.output()); }
  get values() { return this.nodes.map((n) => n.value); }
  get items() { return this.nodes.map((n) => ({ key: n.key.output(), value: n.value })); }
  isEmpty() { return this.nodes.length === 0; }
  clear() { this.nodes = []; }
  insert(key, value = key) {
    if (key === undefined) return;
    const node = { key: mk(key), value };
    let i = this.nodes.length;
    while (i > 0 && node.key.less_than(this.nodes[i - 1].key)) i--;
    this.nodes.splice(i, 0, node);
    return node;
  }
  exist(key, value = key) { const k = mk(key); return this.nodes.some((n) => n.key.equal_to(k) && n.value === value); }
  remove(key, value = key) {
    const k = mk(key);
    const i = this.nodes.findIndex((n) => n.key.equal_to(k) && n.value === value);
    if (i >= 0) return this.nodes.splice(i, 1)[0];
  }
  search(interval, outputMapperFn = (value, key) => value === key ? key.output() : value) {
    const q = mk(interval);
    return this.nodes.filter((n) => !n.key.not_intersect(q)).map((n) => outputMapperFn(n.value, n.key));
  }
  intersect_any(interval) { const q = mk(interval); return this.nodes.some((n) => !n.key.not_intersect(q)); }
  forEach(f) { this.nodes.forEach((n) => f(n.key, n.value)); }
  map(f) { const t = new IntervalTree(); this.nodes.forEach((n) => t.insert(n.key, f(n.value, n.key))); return t; }
}
module.exports = IntervalTree; module.exports.default = IntervalTree; module.exports.Interval = Interval; module.exports.IntervalTree = IntervalTree;
