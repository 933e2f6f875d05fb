'use strict';
// Generated HTTP request codecs and a field-by-field reference model of what they mean.
const C = require('./codec');
const { fc, Excluded } = require('./harness');

const PARTS = ['query', 'params', 'headers', 'body'];
const has = (o, k) => Object.prototype.hasOwnProperty.call(o, k);

function libs(env) {
  return { t: env.req('io-ts'), tt: env.req('io-ts-types'), h: env.pkg('io-ts-http') };
}

// description: { query?: props, params?: props, headers?: props, body?: props }, names distinct across parts
function requestDesc({ names = C.NAMES, max = 7, parts = PARTS, body = () => C.bodyDesc(2), query = C.queryDesc, param = C.paramDesc, optParams = true } = {}) {
  return fc
    .uniqueArray(fc.constantFrom(...names), { maxLength: max })
    .chain((ns) =>
      fc.tuple(
        fc.tuple(
          ...ns.map((name) =>
            fc.constantFrom(...parts).chain((part) =>
              fc.tuple(part === 'body' ? body() : part === 'query' ? query() : param(), fc.boolean()).map(([codec, o]) => ({
                part,
                name,
                codec: o && (optParams || part !== 'params') ? { k: 'optional', of: codec } : codec,
              })),
            ),
          ),
        ),
        fc.subarray(parts),
      ),
    )
    .map(([fields, declared]) => {
      const d = {};
      for (const p of PARTS) {
        const fs = fields.filter((f) => f.part === p);
        if (fs.length || declared.includes(p)) d[p] = fs.map(({ name, codec }) => ({ name, codec }));
      }
      return d;
    });
}

function buildRequest(L, d) {
  const spec = {};
  for (const p of PARTS) if (d[p]) spec[p] = C.toProps(L, d[p]);
  return L.h.httpRequest(spec);
}
const fieldsOf = (d) => PARTS.flatMap((p) => (d[p] || []).map((f) => ({ ...f, part: p })));

// decoded values of a request description
const arbDecoded = (d) => C.recordOf(fieldsOf(d), (c) => C.arbA(c));

// Is v an object in the sense every object codec uses?
const isObj = (v) => Object.prototype.toString.call(v) === '[object Object]';

// The model: accepted iff each part is an object and each declared field's own codec accepts its value;
// the result has exactly the declared fields whose decoded value is not undefined.
function modelDecode(L, d, input, { implicit = ['query', 'params'] } = {}) {
  if (!isObj(input)) return { ok: false, why: 'not an object' };
  const out = {};
  let why;
  for (const p of PARTS) {
    if (!d[p] && !implicit.includes(p)) continue;
    const part = input[p];
    if (!isObj(part)) { why = why || `${p} is not an object`; continue; }
    for (const f of d[p] || []) {
      const codec = C.build(L, f.codec);
      const optional = codec.is(undefined);
      const v = has(part, f.name) ? part[f.name] : undefined;
      if (v === undefined && optional) continue;
      let r;
      try { r = codec.decode(v); } catch (e) { throw new Excluded('a third-party field codec that throws'); }
      if (r._tag === 'Left') { why = why || `${p}.${f.name}`; continue; }
      if (r.right !== undefined) Object.defineProperty(out, f.name, { value: r.right, enumerable: true, configurable: true, writable: true });
    }
  }
  return why ? { ok: false, why } : { ok: true, value: out };
}

module.exports = { PARTS, libs, requestDesc, buildRequest, fieldsOf, arbDecoded, modelDecode, isObj, has };
