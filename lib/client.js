'use strict';
// Generated routes with requests and values as an API client sees them.
const C = require('./codec');
const R = require('./request');
const P = require('./routes');
const { fc } = require('./harness');
const { show, eq } = require('./ser');

const HEADER_NAMES = ['x-a', 'x-trace-id', 'authorization', 'x-n', 'if-match'];
const QUERY_NAMES = ['q', 'page', 'ids', 'from', 'x_y', 'sort', 'a.b', 'é', 'a b', 'a-b', '$top'];
const BODY_NAMES = ['content', 'when', 'amount', 'data', 'flag', 'kind', '日本', 'a[b]', 'then', '0'];
const METHODS = ['get', 'post', 'put', 'delete', 'patch'];

// path parameters are never absent; an empty, '.' or '..' segment cannot be put in a URL
const routeArb = ({ bodyDepth = 1, body = true } = {}) =>
  P.pathDesc().chain((segs) => {
    const pnames = P.paramsOf(segs);
    const part = (names, d, max) => fc.option(C.props(names, d, { max }), { nil: undefined, freq: 3 });
    return fc
      .record({
        params: fc.tuple(...pnames.map((n) => C.paramDesc())).map((xs) => xs.map((codec, i) => ({ name: pnames[i], codec }))),
        query: part(QUERY_NAMES, C.queryDesc(), 3),
        headers: part(HEADER_NAMES, C.paramDesc(), 2),
        body: body ? part(BODY_NAMES, C.bodyDesc(bodyDepth), 3) : fc.constant(undefined),
        method: fc.constantFrom(...METHODS),
      })
      .map(({ method, ...d }) => {
        const req = {};
        if (d.params.length) req.params = d.params;
        for (const k of ['query', 'headers', 'body']) if (d[k]) req[k] = d[k];
        return { segs, method, d: req };
      });
  });
const valuesArb = (d) => R.arbDecoded(d);

// The request's values as they can be sent: excluded are values HTTP itself cannot carry.
function sendable(L, d, a) {
  for (const f of R.fieldsOf(d)) {
    const v = a[f.name];
    if (v === undefined) continue;
    const enc = C.build(L, f.codec).encode(v);
    if (f.part === 'params' && (typeof enc !== 'string' || enc === '' || enc === '.' || enc === '..' || !isWellFormed(enc))) return false;
    if (f.part === 'headers' && (typeof enc !== 'string' || !P.headerValue(enc))) return false;
    // one-element and empty arrays look like a plain or missing value in a query string
    if (f.part === 'query' && Array.isArray(enc) && (enc.length < 2 || enc.length > 15)) return false;
    if (f.part === 'query' && !(Array.isArray(enc) ? enc : [enc]).every((x) => typeof x === 'string' && isWellFormed(x))) return false;
  }
  return true;
}
const isWellFormed = (s) => s.isWellFormed();
// Makes a value sendable where that is easy, so that few cases are lost.
function adapt(L, d, a) {
  const o = { ...a };
  for (const f of R.fieldsOf(d)) {
    const v = o[f.name];
    if (v === undefined) { if (f.part === 'params') o[f.name] = undefined; continue; }
    const opt = f.codec.k === 'optional' ? f.codec.of : f.codec;
    if (typeof v === 'string' && f.part === 'headers' && (opt.k === 'string' || opt.k === 'NonEmptyString') && !(P.headerValue(v) && (v || opt.k === 'string'))) o[f.name] = v.replace(/[^\x21-\x7e]/g, '') || 'x';
    if (typeof v === 'string' && f.part === 'params' && (v === '' || v === '.' || v === '..')) o[f.name] = v + 'x';
    if (Array.isArray(v) && f.part === 'query' && v.length === 1) o[f.name] = [v[0], v[0]];
    if (Array.isArray(v) && f.part === 'query' && v.length === 0) { if (f.codec.k === 'optional') delete o[f.name]; }
  }
  return o;
}

module.exports = { routeArb, valuesArb, sendable, adapt, METHODS, HEADER_NAMES, QUERY_NAMES, BODY_NAMES };
