// Minimal stand-in for lodash (not available offline). Semantics follow lodash 4,
// including its comparison rules for sort criteria.
"use strict";
const _ = (v) => _.chain(v);
const baseGet = (o, p) => {
  const path = Array.isArray(p) ? p : String(p).split(/[.[\]]+/).filter((s) => s.length);
  let cur = o;
  for (const k of path) { if (cur == null) return undefined; cur = cur[k]; }
  return cur;
};
_.isEqual = (a, b) => {
  if (a === b || (a !== a && b !== b)) return true;
  if (a == null || b == null || typeof a !== "object" || typeof b !== "object") return false;
  if (Array.isArray(a) !== Array.isArray(b)) return false;
  const ka = Object.keys(a), kb = Object.keys(b);
  if (ka.length !== kb.length) return false;
  return ka.every((k) => Object.prototype.hasOwnProperty.call(b, k) && _.isEqual(a[k], b[k]));
};
_.isMatch = (o, src) => Object.keys(src).every((k) => o != null && (src[k] !== null && typeof src[k] === "object" ? _.isMatch(o[k], src[k]) : _.isEqual(o[k], src[k])));
_.identity = (x) => x;
_.noop = () => undefined;
_.constant = (x) => () => x;
_.iteratee = (f) => {
  if (f == null) return _.identity;
  if (typeof f === "function") return f;
  if (Array.isArray(f)) return (o) => _.isEqual(baseGet(o, f[0]), f[1]);
  if (typeof f === "object") return (o) => _.isMatch(o, f);
  return (o) => baseGet(o, f);
};
const toArr = (c) => c == null ? [] : Array.isArray(c) ? c : typeof c === "string" ? c.split("") : Object.values(c);
// lodash compareAscending
const cmpAsc = (value, other) => {
  if (value !== other) {
    const vd = value !== undefined, vn = value === null, vr = value === value, vs = typeof value === "symbol";
    const od = other !== undefined, on = other === null, or = other === other, os = typeof other === "symbol";
    if ((!on && !os && !vs && value > other) || (vs && od && or && !on && !os) || (vn && od && or) || (!vd && or) || !vr) return 1;
    if ((!vn && !vs && !os && value < other) || (os && vd && vr && !vn && !vs) || (on && vd && vr) || (!od && vr) || !or) return -1;
  }
  return 0;
};
_.orderBy = (coll, its, orders) => {
  if (its != null && !Array.isArray(its)) its = [its];
  its = its && its.length ? its : [_.identity];
  if (orders != null && !Array.isArray(orders)) orders = [orders];
  orders = orders || [];
  const fs = its.map(_.iteratee);
  return toArr(coll)
    .map((value, index) => ({ value, index, criteria: fs.map((f) => f(value)) }))
    .sort((a, b) => {
      for (let i = 0; i < a.criteria.length; i++) {
        const r = cmpAsc(a.criteria[i], b.criteria[i]);
        if (r) return i >= orders.length ? r : r * (orders[i] === "desc" ? -1 : 1);
      }
      return a.index - b.index;
    })
    .map((x) => x.value);
};
_.sortBy = (coll, ...its) => _.orderBy(coll, its.flat());
_.range = (a, b, step) => {
  if (b === undefined) { b = a; a = 0; }
  step = step === undefined ? (a < b ? 1 : -1) : step;
  const out = [];
  if (step === 0) return out;
  for (let i = a; step > 0 ? i < b : i > b; i += step) out.push(i);
  return out;
};
_.map = (c, f) => { f = _.iteratee(f); return Array.isArray(c) || c == null ? toArr(c).map((x, i) => f(x, i, c)) : Object.keys(c).map((k) => f(c[k], k, c)); };
_.flatMap = (c, f) => _.map(c, f).flat();
_.filter = (c, f) => { f = _.iteratee(f); return toArr(c).filter((x, i) => f(x, i)); };
_.reject = (c, f) => { f = _.iteratee(f); return toArr(c).filter((x, i) => !f(x, i)); };
_.find = (c, f, from) => { f = _.iteratee(f); return toArr(c).slice(from || 0).find((x, i) => f(x, i)); };
_.findIndex = (c, f) => { f = _.iteratee(f); return toArr(c).findIndex((x, i) => f(x, i)); };
_.some = (c, f) => { f = _.iteratee(f); return toArr(c).some((x, i) => f(x, i)); };
_.every = (c, f) => { f = _.iteratee(f); return toArr(c).every((x, i) => f(x, i)); };
_.forEach = _.each = (c, f) => { if (Array.isArray(c)) c.forEach((x, i) => f(x, i)); else Object.keys(c || {}).forEach((k) => f(c[k], k)); return c; };
_.reduce = (c, f, ...init) => toArr(c).reduce(f, ...init);
_.includes = (c, x) => toArr(c).includes(x);
_.uniqWith = (c, cmp) => { const out = []; for (const x of toArr(c)) if (!out.some((y) => cmp ? cmp(x, y) : x === y)) out.push(x); return out; };
_.uniqBy = (c, f) => { f = _.iteratee(f); const seen = [], out = []; for (const x of toArr(c)) { const k = f(x); if (!seen.some((y) => Object.is(y, k))) { seen.push(k); out.push(x); } } return out; };
_.uniq = (c) => _.uniqBy(c);
_.groupBy = (c, f) => { f = _.iteratee(f); const o = {}; for (const x of toArr(c)) { const k = f(x); (o[k] = o[k] || []).push(x); } return o; };
_.keyBy = (c, f) => { f = _.iteratee(f); const o = {}; for (const x of toArr(c)) o[f(x)] = x; return o; };
_.partition = (c, f) => { f = _.iteratee(f); const a = [], b = []; for (const x of toArr(c)) (f(x) ? a : b).push(x); return [a, b]; };
_.mapValues = (o, f) => Object.fromEntries(Object.keys(o).map((k) => [k, _.iteratee(f)(o[k], k)]));
_.pick = (o, ...ks) => Object.fromEntries(ks.flat().filter((k) => k in o).map((k) => [k, o[k]]));
_.omit = (o, ...ks) => Object.fromEntries(Object.keys(o).filter((k) => !ks.flat().includes(k)).map((k) => [k, o[k]]));
_.zip = (...as) => _.range(Math.max(0, ...as.map((a) => a.length))).map((i) => as.map((a) => a[i]));
_.flatten = (c) => toArr(c).flat();
_.flattenDeep = (c) => toArr(c).flat(Infinity);
_.compact = (c) => toArr(c).filter(Boolean);
_.concat = (a, ...b) => [].concat(a, ...b);
_.head = _.first = (c) => toArr(c)[0];
_.last = (c) => toArr(c)[toArr(c).length - 1];
_.tail = (c) => toArr(c).slice(1);
_.initial = (c) => toArr(c).slice(0, -1);
_.take = (c, n = 1) => toArr(c).slice(0, n);
_.drop = (c, n = 1) => toArr(c).slice(n);
_.takeWhile = (c, f) => { f = _.iteratee(f); const a = toArr(c); const i = a.findIndex((x) => !f(x)); return i < 0 ? a.slice() : a.slice(0, i); };
_.slice = (c, a, b) => toArr(c).slice(a, b);
_.reverse = (c) => c.reverse();
_.without = (c, ...v) => toArr(c).filter((x) => !v.includes(x));
_.difference = (c, ...v) => { const s = v.flat(); return toArr(c).filter((x) => !s.includes(x)); };
_.differenceWith = (c, v, cmp) => toArr(c).filter((x) => !v.some((y) => cmp(x, y)));
_.intersection = (a, b) => _.uniq(toArr(a).filter((x) => b.includes(x)));
_.unionWith = (a, b, cmp) => _.uniqWith([...a, ...b], cmp);
_.union = (...as) => _.uniq(as.flat());
_.minBy = (c, f) => _.orderBy(c, [f])[0];
_.maxBy = (c, f) => _.orderBy(c, [f], ["desc"])[0];
_.min = (c) => _.minBy(c); _.max = (c) => _.maxBy(c);
_.sumBy = (c, f) => toArr(c).map(_.iteratee(f)).reduce((a, b) => a + b, 0);
_.sum = (c) => _.sumBy(c);
_.size = (c) => c == null ? 0 : c.length !== undefined ? c.length : Object.keys(c).length;
_.isEmpty = (c) => _.size(c) === 0;
_.keys = (o) => Object.keys(o || {}); _.values = (o) => Object.values(o || {});
_.toPairs = _.entries = (o) => Object.entries(o || {}); _.fromPairs = (a) => Object.fromEntries(a);
_.get = (o, p, d) => { const v = baseGet(o, p); return v === undefined ? d : v; };
_.has = (o, k) => o != null && Object.prototype.hasOwnProperty.call(o, k);
_.isNil = (x) => x == null; _.isNull = (x) => x === null; _.isUndefined = (x) => x === undefined;
_.isString = (x) => typeof x === "string"; _.isNumber = (x) => typeof x === "number"; _.isArray = Array.isArray;
_.isFunction = (x) => typeof x === "function"; _.isObject = (x) => x !== null && (typeof x === "object" || typeof x === "function");
_.isBoolean = (x) => typeof x === "boolean";
_.clone = (x) => Array.isArray(x) ? x.slice() : x && typeof x === "object" ? { ...x } : x;
_.cloneDeep = (x) => x === undefined ? undefined : structuredClone(x);
_.clamp = (n, a, b) => Math.min(Math.max(n, a), b);
_.inRange = (n, a, b) => b === undefined ? n >= 0 && n < a : n >= a && n < b;
_.split = (s, sep, lim) => String(s == null ? "" : s).split(sep, lim);
_.trim = (s) => String(s).trim(); _.trimEnd = (s) => String(s).trimEnd(); _.join = (a, s) => toArr(a).join(s === undefined ? "," : s);
_.startsWith = (s, t) => String(s).startsWith(t); _.endsWith = (s, t) => String(s).endsWith(t);
_.times = (n, f) => _.range(n).map(f || _.identity);
_.once = (f) => { let d = false, v; return (...a) => d ? v : (d = true, v = f(...a)); };
_.negate = (f) => (...a) => !f(...a);
_.chunk = (a, n) => { const o = []; for (let i = 0; i < a.length; i += n) o.push(a.slice(i, i + n)); return o; };
_.assign = Object.assign; _.extend = Object.assign;
_.merge = (a, ...bs) => { for (const b of bs) for (const k of Object.keys(b || {})) a[k] = b[k] && typeof b[k] === "object" && !Array.isArray(b[k]) ? _.merge(a[k] || {}, b[k]) : b[k]; return a; };
_.tap = (v, f) => { f(v); return v; }; _.thru = (v, f) => f(v);
_.remove = (a, f) => { f = _.iteratee(f); const out = []; for (let i = a.length - 1; i >= 0; i--) if (f(a[i])) out.unshift(a.splice(i, 1)[0]); return out; };
class Chain {
  constructor(v) { this.__v = v; }
  value() { return this.__v; } valueOf() { return this.__v; } toJSON() { return this.__v; }
}
for (const k of Object.keys(_)) Chain.prototype[k] = function (...a) { return new Chain(_[k](this.__v, ...a)); };
_.chain = (v) => new Chain(v);
_.default = _;
module.exports = _;
