'use strict';
// Tagged JSON that keeps undefined, bigint, Date, -0, NaN, infinities, null prototypes and
// __proto__ keys, so that a counterexample survives being written to a replay file.
function ser(v) {
  if (v === undefined) return { $: 'undefined' };
  if (typeof v === 'bigint') return { $: 'bigint', v: String(v) };
  if (typeof v === 'number' && (!Number.isFinite(v) || Object.is(v, -0)))
    return { $: 'number', v: Object.is(v, -0) ? '-0' : String(v) };
  if (v === null || typeof v !== 'object') return v;
  if (v instanceof Date) return { $: 'date', v: v.getTime() };
  if (Array.isArray(v)) return v.map(ser);
  const keys = Object.keys(v);
  if (Object.getPrototypeOf(v) === null || keys.includes('$') || keys.includes('__proto__'))
    return { $: Object.getPrototypeOf(v) === null ? 'nobj' : 'obj', e: keys.map((k) => [k, ser(v[k])]) };
  const o = {};
  for (const k of keys) o[k] = ser(v[k]);
  return o;
}
function deser(v) {
  if (v === null || typeof v !== 'object') return v;
  if (Array.isArray(v)) return v.map(deser);
  switch (v.$) {
    case 'undefined': return undefined;
    case 'bigint': return BigInt(v.v);
    case 'number': return v.v === '-0' ? -0 : Number(v.v);
    case 'date': return new Date(v.v === null ? NaN : v.v);
    case 'nobj': case 'obj': {
      const o = v.$ === 'nobj' ? Object.create(null) : {};
      for (const [k, x] of v.e)
        Object.defineProperty(o, k, { value: deser(x), enumerable: true, configurable: true, writable: true });
      return o;
    }
  }
  const o = {};
  for (const k of Object.keys(v)) o[k] = deser(v[k]);
  return o;
}
const show = (v, n = 2000) => {
  const s = JSON.stringify(ser(v));
  return s === undefined ? 'undefined' : s.length > n ? s.slice(0, n) + '…' : s;
};

// Deep equality that tells undefined from a missing key and -0/NaN apart from other numbers where asked.
function eq(a, b) {
  if (Object.is(a, b)) return true;
  if (a === 0 && b === 0) return true; // -0 and 0 are the same JSON number
  if (typeof a !== 'object' || typeof b !== 'object' || a === null || b === null) return false;
  if (a instanceof Date || b instanceof Date)
    return a instanceof Date && b instanceof Date && Object.is(a.getTime(), b.getTime());
  if (Array.isArray(a) !== Array.isArray(b)) return false;
  if (a instanceof Set && b instanceof Set) return eq([...a], [...b]);
  if (a instanceof Map && b instanceof Map) return eq([...a], [...b]);
  const ka = Object.keys(a), kb = Object.keys(b);
  if (ka.length !== kb.length) return false;
  for (const k of ka) if (!Object.prototype.hasOwnProperty.call(b, k) || !eq(a[k], b[k])) return false;
  return true;
}
function stable(v) {
  if (v === null || typeof v !== 'object') return v;
  if (Array.isArray(v)) return v.map(stable);
  const o = {};
  for (const k of Object.keys(v).sort()) o[k] = stable(v[k]);
  return o;
}
module.exports = { ser, deser, show, eq, stable };
