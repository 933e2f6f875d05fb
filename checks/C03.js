'use strict';
const C = require('../lib/codec');
const R = require('../lib/request');
const { eq, show } = require('../lib/ser');

// codecs that can be undefined, in every way a user can write that
const maybe = (fc) =>
  C.bodyDesc(1).chain((d) =>
    fc.constantFrom({ k: 'optional', of: d }, { k: 'union', of: [{ k: 'undefined' }, d] }, { k: 'union', of: [d, { k: 'null' }, { k: 'undefined' }] }, { k: 'optional', of: { k: 'optional', of: d } }, { k: 'unknown' }, { k: 'undefined' }, { k: 'union', of: [{ k: 'null' }, { k: 'undefined' }] }),
  );
const propsArb = (fc, names) =>
  fc.uniqueArray(fc.tuple(fc.constantFrom(...names), fc.oneof({ weight: 4, arbitrary: C.bodyDesc(1) }, { weight: 4, arbitrary: maybe(fc) }, { weight: 1, arbitrary: fc.constant({ k: 'defaulted' }) })), { selector: (x) => x[0], maxLength: 5 }).map((xs) => xs.map(([name, codec]) => ({ name, codec })));

const field = (fc, d, f) => fc.oneof({ weight: 6, arbitrary: f(d) }, { weight: 1, arbitrary: fc.constant(undefined) }, { weight: 1, arbitrary: fc.constant(C.ABSENT) });
const rec = (fc, ps, f) => fc.tuple(...ps.map((p) => field(fc, p.codec, f))).map((vs) => C.obj(ps.map((p, i) => [p.name, vs[i]]).filter(([, v]) => v !== C.ABSENT)));
const extras = (fc) => fc.dictionary(fc.constantFrom('zz', 'yy', 'constructor', 'toString', 'hasOwnProperty'), C.json(1), { maxKeys: 2, noNullPrototype: true });
const hasProto = (v) => v !== null && typeof v === 'object' && (R.has(v, '__proto__') || Object.values(v).some(hasProto));

function setup(env, ps) {
  const L = R.libs(env);
  const props = C.toProps(L, ps);
  const required = ps.filter((p) => !props[p.name].is(undefined)).map((p) => p.name);
  const optional = ps.filter((p) => props[p.name].is(undefined)).map((p) => p.name);
  return { L, props, required, optional, codec: L.h.optionalized(props), names: ps.map((p) => p.name) };
}
const attempt = (t, f) => { try { return f(); } catch (e) { return t.exclude('a field codec that throws on this value'); } };

module.exports = {
  rule:
    'Object codecs built with optionalized/optional from 0-5 properties with generated codecs, of which some can be undefined in different ways, and inputs or values with missing, undefined, corrupt, and undeclared properties. Non-trivial: at least one required and one optional property.',
  assumptions: ['Field codecs of io-ts and io-ts-types are trusted.', 'Declared names are not names of Object.prototype members.'],
  props: [
    {
      name: 'decode',
      runs: { quick: 20000, thorough: 500000 },
      arb: (fc) => propsArb(fc, C.NAMES).chain((ps) => fc.record({ ps: fc.constant(ps), input: fc.oneof({ weight: 20, arbitrary: fc.tuple(extras(fc), rec(fc, ps, (d) => C.arbI(d))).map(([x, r]) => ({ ...x, ...r })) }, { weight: 1, arbitrary: fc.oneof(C.json(1), fc.constant(undefined)) }) })),
      check({ ps, input }, t, env) {
        const { L, props, required, optional, codec, names } = setup(env, ps);
        if (required.length && optional.length) t.nontrivial();
        if (hasProto(input)) t.exclude('own __proto__ key (decided by C02)');
        let want = R.isObj(input) ? {} : undefined, bad = false;
        if (want) {
          for (const k of Object.keys(input)) if (!names.includes(k) && input[k] !== undefined) want[k] = input[k];
          for (const n of names) {
            const v = R.has(input, n) ? input[n] : undefined;
            if (optional.includes(n) && v === undefined) continue;
            const r = attempt(t, () => props[n].decode(v));
            if (r._tag === 'Left') bad = true;
            else if (r.right !== undefined) want[n] = r.right;
          }
          if (bad) want = undefined;
        }
        const got = codec.decode(input);
        t.label(want ? 'accepted' : 'rejected', optional.some((n) => want && R.has(input, n) && input[n] === undefined) ? 'explicit undefined' : '');
        t.assert((got._tag === 'Right') === !!want, () => `${got._tag === 'Right' ? 'accepted' : 'rejected'} ${show(input)}`);
        if (!want) return;
        t.assert(eq(got.right, want), () => `decoded to ${show(got.right)}, expected ${show(want)}`);
        const exact = L.t.exact(codec).decode(input);
        const stripped = Object.fromEntries(Object.entries(want).filter(([k]) => names.includes(k)));
        t.assert(exact._tag === 'Right' && eq(exact.right, stripped), () => `exact decoded to ${show(exact)}, expected ${show(stripped)}`);
      },
    },
    {
      name: 'encode-is',
      runs: { quick: 20000, thorough: 500000 },
      arb: (fc) => propsArb(fc, C.NAMES).chain((ps) => fc.record({ ps: fc.constant(ps), a: fc.tuple(extras(fc), rec(fc, ps, (d) => C.arbA(d))).map(([x, r]) => ({ ...x, ...r })) })),
      check({ ps, a }, t, env) {
        const { props, required, optional, codec, names } = setup(env, ps);
        if (required.length && optional.length) t.nontrivial();
        if (hasProto(a)) t.exclude('own __proto__ key (decided by C02)');
        const isWant = required.every((n) => R.has(a, n) && props[n].is(a[n])) && optional.every((n) => a[n] === undefined || !R.has(a, n) || props[n].is(a[n]));
        t.assert(codec.is(a) === isWant, () => `is(${show(a)}) = ${codec.is(a)}`);
        t.label(isWant ? 'is a value' : 'is not a value');
        if (!isWant) return; // encode is only defined on values of the type
        const want = {};
        for (const k of Object.keys(a)) {
          const v = names.includes(k) ? (a[k] === undefined && optional.includes(k) ? undefined : attempt(t, () => props[k].encode(a[k]))) : a[k];
          if (v !== undefined) want[k] = v;
        }
        const got = codec.encode(a);
        t.assert(eq(got, want), () => `encoded to ${show(got)}, expected ${show(want)}`);
      },
    },
    {
      name: 'optional',
      runs: { quick: 8000, thorough: 200000 },
      arb: (fc) => fc.oneof(C.bodyDesc(2), maybe(fc)).chain((d) => fc.record({ d: fc.constant(d), i: fc.oneof(C.arbI(d), fc.constant(undefined)), a: fc.oneof(C.arbA(d), fc.constant(undefined)) })),
      check({ d, i, a }, t, env) {
        const L = R.libs(env);
        const inner = C.build(L, d), opt = L.h.optional(inner);
        t.nontrivial();
        t.label(i === undefined ? 'decodes undefined' : 'decodes a value');
        const r = attempt(t, () => inner.decode(i));
        const got = opt.decode(i);
        if (r._tag === 'Right') t.assert(got._tag === 'Right' && eq(got.right, r.right), () => `optional decodes ${show(i)} to ${show(got)}, the codec itself to ${show(r)}`);
        else t.assert((got._tag === 'Right') === (i === undefined) && (got._tag === 'Left' || got.right === undefined), () => `optional decodes ${show(i)} to ${show(got)}`);
        t.assert(opt.is(a) === (a === undefined || inner.is(a)), () => `optional.is(${show(a)}) = ${opt.is(a)}`);
        if (!opt.is(a)) return;
        const want = a === undefined && !inner.is(a) ? undefined : attempt(t, () => inner.encode(a));
        t.assert(eq(opt.encode(a), want), () => `optional encodes ${show(a)} to ${show(opt.encode(a))}`);
      },
    },
  ],
};
