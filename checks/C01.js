'use strict';
const C = require('../lib/codec');
const R = require('../lib/request');
const { eq, show } = require('../lib/ser');

// An explicit undefined is the same as a missing key: neither survives the wire.
const noUndef = (o) =>
  o === null || typeof o !== 'object' || o instanceof Date ? o : Array.isArray(o) ? o.map(noUndef) : C.obj(Object.entries(o).filter(([, v]) => v !== undefined).map(([k, v]) => [k, noUndef(v)]));

module.exports = {
  rule:
    'A request codec (0-7 fields spread over query/params/headers/body, each with a generated codec and possibly optional) plus a value of its decoded type, possibly with undeclared extra keys and explicit undefined values. Non-trivial: at least two declared fields are present with values, in at least two parts or with a codec that changes the representation.',
  assumptions: ['Field codecs of io-ts and io-ts-types are trusted: the oracle is what each field codec does on its own.', 'A field name in several parts (where the documentation calls the result undefined) is only checked with the same value in all of them. Field names are not names of Object.prototype members.'],
  props: [
    {
      name: 'roundtrip',
      runs: { quick: 24000, thorough: 600000 },
      arb: (fc) =>
        R.requestDesc().chain((d) =>
          fc.record({
            d: fc.constant(d),
            a: R.arbDecoded(d),
            extra: fc.dictionary(fc.constantFrom('zz', 'yy', 'constructor', 'toString', 'httpRequest'), C.json(1), { maxKeys: 2, noNullPrototype: true }),
          }),
        ),
      check({ d, a, extra }, t, env) {
        const L = R.libs(env);
        const codec = R.buildRequest(L, d);
        const fields = R.fieldsOf(d);
        const present = fields.filter((f) => a[f.name] !== undefined);
        if (present.length >= 2 && (new Set(present.map((f) => f.part)).size >= 2 || present.some((f) => C.LEAVES[f.codec.k] === undefined || /From/.test(f.codec.k)))) t.nontrivial();
        t.label(`fields:${Math.min(present.length, 4)}`, ...present.map((f) => f.part), Object.keys(extra).length ? 'extra keys' : '', Object.keys(a).length !== present.length ? 'explicit undefined' : '');

        const input = { ...extra, ...a };
        const enc = codec.encode(input);
        const declared = R.PARTS.filter((p) => d[p] || p === 'query' || p === 'params');
        t.assert(eq(Object.keys(enc).sort(), [...declared].sort()), () => `encoded request has parts ${Object.keys(enc)}, declared are ${declared}`);
        for (const p of declared) {
          const want = {};
          for (const f of d[p] || []) if (a[f.name] !== undefined) want[f.name] = C.build(L, f.codec).encode(a[f.name]);
          t.assert(eq(noUndef(enc[p]), noUndef(want)), () => `part ${p} encodes to ${show(enc[p])}, its own fields encode to ${show(want)}`);
        }
        // JSON loses nothing that matters here: generated codecs encode to JSON data
        let expected;
        let asJson = enc;
        try { if (enc.body) asJson = { ...enc, body: JSON.parse(JSON.stringify(enc.body)) }; } catch { t.label('ambiguous union: not JSON'); }
        for (const wire of [asJson, enc]) {
          expected = {};
          for (const f of present) {
            const r = C.build(L, f.codec).decode(wire[f.part][f.name]);
            if (r._tag === 'Left') return t.exclude('a field codec that does not accept its own output');
            if (r.right !== undefined) expected[f.name] = r.right;
          }
          const dec = codec.decode(wire);
          t.assert(dec._tag === 'Right', () => `decode(encode(x)) is rejected: ${show(wire)}`);
          t.assert(eq(noUndef(dec.right), noUndef(expected)), () => `decode(encode(x)) = ${show(dec.right)}, expected ${show(expected)}`);
          for (const f of fields) t.assert(!(R.has(dec.right, f.name) && dec.right[f.name] === undefined), () => `decoded field ${f.name} is an explicit undefined`);
          t.assert(codec.is(dec.right), () => `the codec does not recognise the value it decoded: ${show(dec.right)}`);
        }
        // encoding what was decoded gives the same wire request again
        const again = codec.encode(codec.decode(enc).right);
        for (const p of declared) {
          const want = {};
          for (const f of d[p] || []) if (expected[f.name] !== undefined) want[f.name] = C.build(L, f.codec).encode(expected[f.name]);
          t.assert(eq(noUndef(again[p]), noUndef(want)), () => `re-encoding gives ${show(again[p])} for ${p}, expected ${show(want)}`);
        }
      },
    },
    {
      name: 'wire',
      runs: { quick: 8000, thorough: 200000 },
      // GenericHttpRequest is the type of all wire forms: string parameters, string or string array queries, optional string headers and JSON body
      arb: (fc) =>
        fc.oneof(
          R.requestDesc().chain((d) => fc.record({ d: fc.constant(d), a: R.arbDecoded(d) })),
          fc.record({
            raw: fc.record(
              Object.fromEntries(R.PARTS.map((p) => [p, fc.oneof({ weight: 4, arbitrary: fc.dictionary(fc.constantFrom(...C.NAMES, 'x-y', 'constructor'), fc.oneof({ weight: 5, arbitrary: fc.string({ maxLength: 3 }) }, { weight: 1, arbitrary: fc.array(fc.string({ maxLength: 2 }), { maxLength: 2 }) }, { weight: 1, arbitrary: C.json(1) }, { weight: 1, arbitrary: fc.constant(undefined) }), { maxKeys: 3, noNullPrototype: true }) }, { weight: 1, arbitrary: C.json(2) }, { weight: 1, arbitrary: fc.constant(undefined) })])),
              { requiredKeys: [], noNullPrototype: true },
            ),
          }),
        ),
      check({ d, a, raw }, t, env) {
        const L = R.libs(env);
        const wire = raw || R.buildRequest(L, d).encode(a);
        const own = (v) => v !== null && typeof v === 'object' && (Object.keys(v).includes('__proto__') || Object.values(v).some(own));
        if (own(wire)) return t.exclude('own __proto__ key: io-ts records drop it');
        const str = (v) => typeof v === 'string';
        const rec = (v, f) => Object.prototype.toString.call(v) === '[object Object]' && Object.values(v).every(f);
        const json = (v) => v === null || ['string', 'boolean'].includes(typeof v) || typeof v === 'number' || (Array.isArray(v) ? v.every(json) : rec(v, json));
        const want = rec(wire.params, str) && rec(wire.query, (v) => str(v) || (Array.isArray(v) && v.every(str))) && (wire.headers === undefined || rec(wire.headers, str)) && (wire.body === undefined || json(wire.body));
        if (raw ? want : want && Object.keys(a).length > 1) t.nontrivial();
        t.label(raw ? 'any object' : 'encoded request', want ? 'a wire form' : 'no wire form');
        const G = L.h.GenericHttpRequest;
        t.assert(G.is(wire) === want, () => `GenericHttpRequest.is(${show(wire)}) is ${!want}`);
        const r = G.decode(wire);
        t.assert((r._tag === 'Right') === want, () => `GenericHttpRequest.decode(${show(wire)}) is ${show(r)}`);
        if (want) {
          t.assert(eq(noUndef(r.right), noUndef(wire)), () => `GenericHttpRequest decodes ${show(wire)} to ${show(r.right)}`);
          t.assert(eq(noUndef(G.encode(r.right)), noUndef(wire)), () => `GenericHttpRequest encodes ${show(wire)} to ${show(G.encode(r.right))}`);
        }
      },
    },
    {
      name: 'recognise',
      runs: { quick: 8000, thorough: 200000 },
      // is(): exactly the objects whose declared fields are recognised by their own codecs
      arb: (fc) =>
        R.requestDesc().chain((d) =>
          fc.record({
            d: fc.constant(d),
            a: R.arbDecoded(d),
            spoil: fc.array(fc.record({ f: fc.nat(9), how: fc.constantFrom('drop', 'undefined', 'junk'), v: C.json(1) }), { maxLength: 2 }),
            whole: fc.option(fc.constantFrom(undefined, null, 0, 'x', [], true), { freq: 12, nil: C.ABSENT }),
          }),
        ),
      check({ d, a, spoil, whole }, t, env) {
        const L = R.libs(env);
        const codec = R.buildRequest(L, d);
        const fields = R.fieldsOf(d);
        const v = { ...a };
        for (const s of spoil) if (fields.length) { const n = fields[s.f % fields.length].name; if (s.how === 'drop') delete v[n]; else v[n] = s.how === 'junk' ? s.v : undefined; }
        if (whole !== C.ABSENT) { t.assert(codec.is(whole) === false, () => `is(${show(whole)}) is true`); return; }
        const want = fields.every((f) => C.build(L, f.codec).is(v[f.name]));
        t.label(want ? 'a value' : 'not a value');
        if (fields.length >= 2 && spoil.length) t.nontrivial();
        t.assert(codec.is(v) === want, () => `is(${show(v)}) is ${!want}, its fields are ${fields.map((f) => `${f.name}: ${C.build(L, f.codec).is(v[f.name])}`)}`);
      },
    },
    {
      name: 'shared-names',
      runs: { quick: 4000, thorough: 100000 },
      // one name in several parts: each part has its own codec and wire form for the one value
      arb: (fc) => {
        const families = [
          [fc.boolean(), ['BooleanFromString'], ['boolean']],
          [fc.integer({ min: -50, max: 50 }), ['NumberFromString', 'IntFromString'], ['number', 'NumberFromString', 'Int']],
          [fc.date({ min: new Date(0), max: new Date(4e12), noInvalidDate: true }).map((d) => new Date(d.getTime() - (d.getTime() % 1000))), ['DateFromISOString'], ['DateFromNumber', 'DateFromUnixTime', 'DateFromISOString']],
          [fc.string({ minLength: 1, maxLength: 4 }), ['string', 'NonEmptyString'], ['string']],
        ];
        return fc
          .uniqueArray(fc.constantFrom(...C.NAMES), { minLength: 1, maxLength: 3 })
          .chain((names) =>
            fc.tuple(
              ...names.map((name) =>
                fc.constantFrom(...families).chain(([value, s, j]) =>
                  fc.record({ name: fc.constant(name), value, parts: fc.subarray(R.PARTS, { minLength: 1 }), s: fc.constantFrom(...s), j: fc.constantFrom(...j), optional: fc.boolean(), absent: fc.boolean() }),
                ),
              ),
            ),
          )
          .map((fields) => ({ fields }));
      },
      check({ fields }, t, env) {
        const L = R.libs(env);
        const d = {}, a = {};
        for (const f of fields) {
          for (const p of f.parts) {
            const codec = { k: p === 'body' ? f.j : f.s };
            (d[p] = d[p] || []).push({ name: f.name, codec: f.optional ? { k: 'optional', of: codec } : codec });
          }
          if (!(f.optional && f.absent)) a[f.name] = f.value;
        }
        if (fields.some((f) => f.parts.length > 1 && f.name in a)) t.nontrivial();
        const codec = R.buildRequest(L, d);
        const enc = codec.encode(a);
        for (const p of Object.keys(enc)) {
          const want = {};
          for (const f of d[p] || []) if (a[f.name] !== undefined) want[f.name] = C.build(L, f.codec).encode(a[f.name]);
          t.assert(eq(enc[p], want), () => `part ${p} encodes to ${show(enc[p])}, its own fields encode to ${show(want)}`);
        }
        const dec = codec.decode(enc);
        t.assert(dec._tag === 'Right' && eq(dec.right, a), () => `decode(encode(x)) = ${show(dec)}, expected ${show(a)}`);
      },
    },
    {
      name: 'flattened',
      runs: { quick: 8000, thorough: 200000 },
      // the general combinator, with arbitrary part names and body-like codecs everywhere
      arb: (fc) =>
        fc
          .uniqueArray(fc.constantFrom(...C.NAMES), { minLength: 1, maxLength: 5 })
          .chain((names) => fc.tuple(...names.map((name) => fc.tuple(fc.constantFrom('one', 'two', 'body', 'a', '0'), C.bodyDesc(1), fc.boolean()).map(([part, codec, o]) => ({ part, name, codec: o ? { k: 'optional', of: codec } : codec })))))
          .chain((fields) => fc.record({ fields: fc.constant(fields), a: C.recordOf(fields, (c) => C.arbA(c)) })),
      check({ fields, a }, t, env) {
        const L = R.libs(env);
        const parts = {};
        for (const f of fields) (parts[f.part] = parts[f.part] || {})[f.name] = C.build(L, f.codec);
        const codec = L.h.flattened('gen', parts);
        if (Object.keys(parts).length >= 2) t.nontrivial();
        t.label(`parts:${Object.keys(parts).length}`);
        const enc = codec.encode(a);
        t.assert(eq(Object.keys(enc).sort(), Object.keys(parts).sort()), () => `parts ${Object.keys(enc)}`);
        const expected = {};
        for (const p of Object.keys(parts)) {
          const want = {};
          for (const f of fields) if (f.part === p && a[f.name] !== undefined) want[f.name] = parts[p][f.name].encode(a[f.name]);
          t.assert(eq(noUndef(enc[p]), noUndef(want)), () => `part ${p} encodes to ${show(enc[p])}, its own fields encode to ${show(want)}`);
          for (const k of Object.keys(want)) {
            const r = parts[p][k].decode(want[k]);
            if (r._tag === 'Left') return t.exclude('a field codec that does not accept its own output');
            if (r.right !== undefined) expected[k] = r.right;
          }
        }
        const dec = codec.decode(enc);
        t.assert(dec._tag === 'Right' && eq(noUndef(dec.right), noUndef(expected)), () => `decode(encode(x)) = ${show(dec)}, expected ${show(expected)}`);
      },
    },
  ],
};
