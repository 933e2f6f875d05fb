'use strict';
const C = require('../lib/codec');
const R = require('../lib/request');
const { eq, show, ser } = require('../lib/ser');

function freeze(v) {
  if (v !== null && typeof v === 'object' && !(v instanceof Date)) { Object.values(v).forEach(freeze); Object.freeze(v); }
  return v;
}
const copy = (v) => require('../lib/ser').deser(ser(v));
// every object inside v, to notice parts that are replaced by copies
function inside(v, out = []) {
  if (v !== null && typeof v === 'object' && !(v instanceof Date)) { out.push(v); for (const k of Object.keys(v)) inside(v[k], out); }
  return out;
}
const hasProto = (v) => v !== null && typeof v === 'object' && (R.has(v, '__proto__') || Object.values(v).some(hasProto));
const outcome = (f) => { try { return { v: f() }; } catch (e) { return { threw: String(e && e.message) }; } };

// applies op to a plain and to a frozen copy of the input, twice each
function unaffected(t, op, input, what) {
  const plain = copy(input);
  const objects = inside(plain);
  const first = outcome(() => op(plain));
  t.assert(eq(plain, input), () => `${what} changed its argument: ${show(input)} became ${show(plain)}`);
  const now = inside(plain);
  t.assert(now.length === objects.length && now.every((x, i) => x === objects[i]), () => `${what} replaced or reordered parts of its argument ${show(input)}`);
  const firstSnap = copy(first.v && first.v._tag === 'Left' ? { left: true } : first.v);
  const second = outcome(() => op(plain));
  // the pinned io-ts copies own __proto__ keys with plain assignment, so a frozen one gets in its way
  const frozen = hasProto(input) ? first : outcome(() => op(freeze(copy(input))));
  const same = (x) => (x.threw !== undefined || first.threw !== undefined ? x.threw === first.threw : first.v && first.v._tag === 'Left' ? x.v && x.v._tag === 'Left' : eq(x.v, first.v));
  t.assert(same(second), () => `${what} a second time gives ${show(second.v)}, the first time ${show(first.v)}`);
  t.assert(same(frozen), () => `${what} of a frozen copy gives ${frozen.threw || show(frozen.v)}, of a normal one ${first.threw || show(first.v)}`);
  return { first, firstSnap };
}
// requests as they arrive, some with parts of another shape
const inputFor = (fc, d) =>
  C.withExtra(
    fc
      .record(Object.fromEntries(R.PARTS.map((p) => [p, fc.oneof({ weight: 12, arbitrary: C.withExtra(C.recordOf(d[p] || [], (c) => C.arbI(c))) }, { weight: 1, arbitrary: C.json(2) }, { weight: 1, arbitrary: fc.array(C.json(1), { minLength: 1, maxLength: 3 }) }, { weight: 1, arbitrary: fc.constantFrom(C.ABSENT, undefined, null, '', 'a=b') })])))
      .map((r) => C.obj(Object.entries(r).filter(([, v]) => v !== C.ABSENT))),
  );
const undefineds = (v) => v !== null && typeof v === 'object' && !(v instanceof Date) && Object.values(v).some((x) => x === undefined || undefineds(x));

module.exports = {
  rule: 'A request, flattened or optionalized codec and an input, given as a normal and as a deeply frozen object, decoded and encoded twice. Non-trivial: the input has an explicitly undefined or an undeclared property, so that the codec has something to leave out.',
  assumptions: ['Field codecs of io-ts and io-ts-types do not modify their inputs.'],
  props: [
    {
      name: 'decode',
      runs: { quick: 16000, thorough: 400000 },
      arb: (fc) =>
        R.requestDesc({ max: 5 }).chain((d) =>
          fc.record({
            d: fc.constant(d),
            input: inputFor(fc, d),
          }),
        ),
      check({ d, input }, t, env) {
        const L = R.libs(env);
        if (undefineds(input)) t.nontrivial();
        const codec = R.buildRequest(L, d);
        unaffected(t, (x) => codec.decode(x), input, 'decoding a request');
        for (const p of R.PARTS)
          if (d[p]) {
            const o = L.h.optionalized(C.toProps(L, d[p]));
            unaffected(t, (x) => o.decode(x), input[p], 'decoding an optionalized object');
          }
      },
    },
    {
      name: 'encode',
      runs: { quick: 16000, thorough: 400000 },
      arb: (fc) => R.requestDesc({ max: 5 }).chain((d) => fc.record({ d: fc.constant(d), a: C.withExtra(R.arbDecoded(d)), b: C.withExtra(R.arbDecoded(d)) })),
      check({ d, a, b }, t, env) {
        const L = R.libs(env);
        if (undefineds(a)) t.nontrivial();
        const codec = R.buildRequest(L, d);
        const { first, firstSnap } = unaffected(t, (x) => codec.encode(x), a, 'encoding a request');
        // results of different calls share no state: writing to one does not show in the next
        // nor does a later call change an earlier result
        if (first.v) {
          outcome(() => codec.encode(b));
          t.assert(eq(first.v, firstSnap), () => `when another value was encoded, the result of ${show(a)} became ${show(first.v)}, it was ${show(firstSnap)}`);
          for (const p of Object.keys(first.v)) first.v[p]['written-by-caller'] = 1;
          const again = codec.encode(copy(a));
          t.assert(eq(again, firstSnap), () => `after a caller wrote to one result, encoding gives ${show(again)}`);
          const empty = codec.decode({ query: {}, params: {}, headers: {}, body: {} });
          if (empty._tag === 'Right') t.assert(!R.has(empty.right, 'written-by-caller'), 'a caller’s write shows in a later decode');
        }
        const o = L.h.optionalized(C.toProps(L, R.fieldsOf(d)));
        unaffected(t, (x) => o.encode(x), a, 'encoding an optionalized object');
        unaffected(t, (x) => o.is(x), a, 'checking an optionalized object');
      },
    },
  ],
};
