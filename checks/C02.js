'use strict';
const C = require('../lib/codec');
const R = require('../lib/request');
const { eq, show } = require('../lib/ser');

const junkPart = (fc) => fc.oneof(fc.constantFrom(undefined, null, 0, '', 'x', [], [1], false, true), C.json(1));

function inputFor(fc, d) {
  const parts = {};
  for (const p of R.PARTS) {
    const fs = d[p];
    const good = fs ? C.withExtra(C.recordOf(fs, (c) => C.arbI(c, 1))) : fc.dictionary(C.undeclared(), C.json(1), { maxKeys: 2, noNullPrototype: true });
    const required = fs || p === 'query' || p === 'params';
    parts[p] = fc.oneof({ weight: required ? 40 : 8, arbitrary: good }, { weight: 1, arbitrary: junkPart(fc) }, { weight: required ? 1 : 3, arbitrary: fc.constant(C.ABSENT) });
  }
  return fc.tuple(fc.record(parts), fc.dictionary(fc.oneof({ weight: 9, arbitrary: fc.constantFrom('extra', 'url', 'decoded') }, { weight: 1, arbitrary: fc.constant('__proto__') }), C.json(1), { maxKeys: 1, noNullPrototype: true })).map(([r, x]) => C.obj([...Object.entries(x), ...Object.entries(r).filter(([, v]) => v !== C.ABSENT)]));
}

const hasProto = (v) => v !== null && typeof v === 'object' && (R.has(v, '__proto__') || Object.values(v).some(hasProto));

function accept(L, codec, d, input, t) {
  const want = R.modelDecode(L, d, input);
  const got = codec.decode(input);
  const n = R.fieldsOf(d).length;
  if (n > 0 && !(want.why || '').endsWith('object')) t.nontrivial();
  t.label(want.ok ? 'accepted' : 'rejected', !want.ok ? (/object/.test(want.why) ? 'rejected: shape' : 'rejected: field') : '');
  if (hasProto(input)) {
    t.label('own __proto__ key');
    if (got._tag === 'Left') return;
    const names = new Set(R.fieldsOf(d).map((f) => f.name));
    t.assert(Object.getPrototypeOf(got.right) === Object.prototype, 'the decoded value has a foreign prototype');
    for (const k in got.right) t.assert(names.has(k), () => `undeclared ${k} in the decoded value`);
    return;
  }
  if (want.ok) {
    t.assert(got._tag === 'Right', () => `rejected, but every declared field is acceptable: ${show(input)}`);
    t.assert(eq(got.right, want.value), () => `decoded to ${show(got.right)}, the fields decode to ${show(want.value)}`);
    t.assert(Object.getPrototypeOf(got.right) === Object.prototype, 'the decoded value has a foreign prototype');
    for (const k in got.right) t.assert(R.has(got.right, k), () => `the decoded value inherits ${k}`);
  } else {
    t.assert(got._tag === 'Left', () => `accepted as ${show(got.right)}, but ${want.why} is not acceptable`);
    t.assert(Array.isArray(got.left) && got.left.length > 0, 'rejected without any error');
  }
  return want.ok ? [got.right, want.value] : undefined;
}

module.exports = {
  rule:
    'A request codec and an arbitrary JSON-like request whose fields are mostly near-valid wire values, with corrupted values, missing fields, missing or non-object parts, and undeclared keys including __proto__ and constructor. Non-trivial: the codec declares at least one field and the request reaches field decoding.',
  assumptions: ['Field codecs of io-ts and io-ts-types are trusted: the oracle composes what each declared field codec decides on its own.', "For requests with an own '__proto__' key only safety is asserted (no exception, no undeclared or inherited data in the result), because the pinned io-ts copies that key with plain assignment."],
  props: [
    {
      name: 'accept',
      runs: { quick: 40000, thorough: 1000000 },
      // one codec decodes several requests in turn
      arb: (fc) => R.requestDesc({ max: 5 }).chain((d) => fc.record({ d: fc.constant(d), inputs: fc.array(inputFor(fc, d), { minLength: 1, maxLength: 3 }) })),
      check({ d, inputs }, t, env) {
        const L = R.libs(env);
        const codec = R.buildRequest(L, d);
        const kept = [];
        for (const input of inputs) {
          const got = accept(L, codec, d, input, t);
          if (got) kept.push(got);
        }
        // one object that becomes one request after the other
        const last = inputs[inputs.length - 1];
        if (inputs.length > 1 && R.isObj(inputs[0]) && R.isObj(last) && !hasProto(inputs)) {
          const turned = { ...inputs[0] };
          accept(L, codec, d, turned, t);
          for (const k of Object.keys(turned)) delete turned[k];
          accept(L, codec, d, Object.assign(turned, last), t);
        }
        for (const [value, want] of kept) t.assert(eq(value, want), () => `a decoded value became ${show(value)} when later requests were decoded, it was ${show(want)}`);
      },
    },
    {
      name: 'anything',
      runs: { quick: 6000, thorough: 100000 },
      // requests that are not requests at all
      arb: (fc) => fc.record({ d: R.requestDesc({ max: 2 }), input: fc.oneof(C.json(3), fc.constantFrom(undefined, null, [], 0, NaN, '', true, new Date(0)), fc.bigInt()) }),
      check({ d, input }, t, env) {
        const L = R.libs(env);
        const want = R.modelDecode(L, d, input);
        const got = R.buildRequest(L, d).decode(input);
        if (hasProto(input)) return;
        if (R.isObj(input)) t.nontrivial();
        t.assert((got._tag === 'Right') === want.ok, () => `decode gives ${got._tag} for ${show(input)}`);
      },
    },
  ],
};
