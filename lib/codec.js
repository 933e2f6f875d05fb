'use strict';
// A pure-data description language for io-ts codecs: descriptions are generated and shrunk as data,
// then turned into real codecs (build), into values of the decoded type (arbA) and into wire inputs (arbI).
const { fc } = require('./harness');

// ---- names -------------------------------------------------------------------------------------
// Names that exist on Object.prototype are left out as *declared* fields: io-ts itself reads
// input[name] through the prototype for them.
const NAMES = ['a', 'b', 'c', 'id', 'name', 'x-trace', 'fooBar', 'foo_bar', 'ids', 'n0', '0', '10', 'in', 'type', 'payload', 'body', 'query', 'params', 'headers', 'length', 'é', '日本', 'a b', 'a.b', 'a[b]', '$ref', 'then', 'status'];
const IDENT_NAMES = ['a', 'b', 'c', 'id', 'name', 'fooBar', 'foo_bar', 'ids', 'n0', 'kind', 'when', 'amount', 'status', 'then', 'type', 'payload', 'length'];

// names for undeclared keys; the awkward ones are rare enough not to dominate
const undeclared = () => fc.oneof({ weight: 20, arbitrary: fc.constantFrom('zz', 'yy', 'a', 'id', 'name', 'constructor', 'toString') }, { weight: 1, arbitrary: fc.constantFrom('__proto__', 'hasOwnProperty', 'valueOf') });

// ---- strings -----------------------------------------------------------------------------------
const SPECIAL = ['', ' ', '0', '1', '-1', '1.5', '1e3', 'true', 'false', 'null', 'undefined', 'NaN', 'Infinity', '0x10', '9007199254740993', '123456789012345678901234567890', '-0', ' 12', '12 ', '+5', '2020-01-01T00:00:00.000Z', '2020-02-30', 'a', 'b', 'foo', 'é', '日本語', '😀', 'a/b', 'a?b', 'a#b', 'a&b=c', 'a%20b', '%', '%zz', 'a+b', 'a,b', "a'b", 'a"b', '$&', '$1', '..', '.', 'a;b', 'a:b', '\\', '{id}', '[object Object]', '<x>', '2c9a1f3e-7d1b-4e8a-9f4e-6a2b1c3d4e5f'];
const str = () => fc.oneof({ weight: 3, arbitrary: fc.constantFrom(...SPECIAL) }, { weight: 2, arbitrary: fc.string({ maxLength: 8 }) }, { weight: 1, arbitrary: fc.string({ unit: 'grapheme', maxLength: 5 }) });
const json = (depth = 2) =>
  fc.letrec((tie) => ({
    v: fc.oneof(
      { maxDepth: depth, withCrossShrink: true },
      fc.oneof(fc.constant(null), fc.boolean(), fc.integer({ min: -5, max: 100 }), fc.double({ noNaN: true, noDefaultInfinity: true }), str()),
      fc.array(tie('v'), { maxLength: 3 }),
      fc.dictionary(fc.oneof({ weight: 20, arbitrary: fc.constantFrom(...NAMES, 'constructor', 'toString') }, { weight: 10, arbitrary: fc.string({ maxLength: 3 }) }, { weight: 1, arbitrary: fc.constantFrom('__proto__', 'hasOwnProperty') }), tie('v'), { maxKeys: 3, noNullPrototype: true }),
    ),
  })).v;

const uuid = () => fc.uuid();
const isoDate = () => fc.date({ min: new Date('0001-01-01T00:00:00Z'), max: new Date('9999-12-31T23:59:59.999Z'), noInvalidDate: true });
const num = () => fc.oneof(fc.integer({ min: -20, max: 1000 }), fc.double({ noNaN: true, noDefaultInfinity: true }), fc.constantFrom(0, 1, -1, 1e21, 1e-7, Number.MAX_SAFE_INTEGER, 0.1));

// ---- leaf codecs ---------------------------------------------------------------------------------
// wire: 's' when the encoded form is a string, 'j' when it is some other JSON value
const LEAVES = {
  string: { wire: 's', mk: (L) => L.t.string, a: () => str(), enc: (a) => a },
  NonEmptyString: { wire: 's', mk: (L) => L.tt.NonEmptyString, a: () => str().map((s) => s || 'x'), enc: (a) => a },
  NumberFromString: { wire: 's', mk: (L) => L.tt.NumberFromString, a: () => num(), enc: (a) => String(a) },
  IntFromString: { wire: 's', mk: (L) => L.tt.IntFromString, a: () => fc.maxSafeInteger(), enc: (a) => String(a) },
  BigIntFromString: { wire: 's', mk: (L) => L.tt.BigIntFromString, a: () => fc.bigInt({ min: -(10n ** 30n), max: 10n ** 30n }), enc: (a) => String(a) },
  BooleanFromString: { wire: 's', mk: (L) => L.tt.BooleanFromString, a: () => fc.boolean(), enc: (a) => String(a) },
  DateFromISOString: { wire: 's', mk: (L) => L.tt.DateFromISOString, a: () => isoDate(), enc: (a) => a.toISOString() },
  UUID: { wire: 's', mk: (L) => L.tt.UUID, a: () => uuid(), enc: (a) => a },
  keyof: { wire: 's', mk: (L) => L.t.keyof({ red: 1, green: 1, 'blue ish': 1 }), a: () => fc.constantFrom('red', 'green', 'blue ish'), enc: (a) => a },
  litS: { wire: 's', mk: (L) => L.t.literal('on'), a: () => fc.constant('on'), enc: (a) => a },
  number: { wire: 'j', mk: (L) => L.t.number, a: () => num(), enc: (a) => a },
  boolean: { wire: 'j', mk: (L) => L.t.boolean, a: () => fc.boolean(), enc: (a) => a },
  null: { wire: 'j', mk: (L) => L.t.null, a: () => fc.constant(null), enc: (a) => a },
  litN: { wire: 'j', mk: (L) => L.t.literal(7), a: () => fc.constant(7), enc: (a) => a },
  litB: { wire: 'j', mk: (L) => L.t.literal(false), a: () => fc.constant(false), enc: (a) => a },
  Int: { wire: 'j', mk: (L) => L.t.Int, a: () => fc.integer(), enc: (a) => a },
  DateFromNumber: { wire: 'j', mk: (L) => L.tt.DateFromNumber, a: () => isoDate(), enc: (a) => a.getTime() },
  DateFromUnixTime: { wire: 'j', mk: (L) => L.tt.DateFromUnixTime, a: () => isoDate().map((d) => new Date(Math.floor(d.getTime() / 1000) * 1000)), enc: (a) => a.getTime() / 1000 },
};
// leaves that only some checks ask for
LEAVES.defaulted = { wire: 'd', mk: (L) => L.tt.fromNullable(L.t.number, 5), a: () => num(), enc: (a) => a };
const S_LEAVES = Object.keys(LEAVES).filter((k) => LEAVES[k].wire === 's');
const J_LEAVES = Object.keys(LEAVES).filter((k) => LEAVES[k].wire !== 'd');

// ---- descriptions --------------------------------------------------------------------------------
const leaf = (names) => fc.constantFrom(...names).map((k) => ({ k }));

// codec for a header or path parameter
const paramDesc = () => fc.oneof({ weight: 6, arbitrary: leaf(S_LEAVES) }, { weight: 1, arbitrary: fc.constant({ k: 'union', of: [{ k: 'BooleanFromString' }, { k: 'NumberFromString' }] }) }, { weight: 1, arbitrary: fc.constant({ k: 'union', of: [{ k: 'keyof' }, { k: 'UUID' }] }) });
// codec for a query parameter
const queryDesc = () =>
  fc.oneof(
    { weight: 5, arbitrary: paramDesc() },
    { weight: 1, arbitrary: leaf(S_LEAVES).map((d) => ({ k: 'array', of: d })) },
    { weight: 1, arbitrary: leaf(S_LEAVES).map((d) => ({ k: 'union', of: [d, { k: 'array', of: d }] })) },
  );
const props = (names, d, { min = 0, max = 4, opt = true } = {}) =>
  fc.uniqueArray(fc.tuple(fc.constantFrom(...names), d, opt ? fc.boolean() : fc.constant(false)), { selector: (x) => x[0], minLength: min, maxLength: max }).map((xs) =>
    xs.map(([name, codec, o]) => ({ name, codec: o ? { k: 'optional', of: codec } : codec })),
  );
// any JSON-body codec
const bodyDesc = (depth = 2) =>
  fc.letrec((tie) => ({
    d: fc.oneof(
      { maxDepth: depth, withCrossShrink: true, depthSize: 'small' },
      leaf(J_LEAVES),
      tie('d').map((of) => ({ k: 'array', of })),
      tie('d').map((of) => ({ k: 'record', of })),
      props(NAMES, tie('d'), { max: 3, opt: false }).map((ps) => ({ k: 'type', props: ps })),
      props(NAMES, tie('d'), { max: 3, opt: false }).map((ps) => ({ k: 'partial', props: ps })),
      props(NAMES, tie('d'), { max: 3, opt: false }).map((ps) => ({ k: 'strict', props: ps })),
      props(NAMES, tie('d'), { max: 3 }).map((ps) => ({ k: 'optionalized', props: ps })),
      props(NAMES, tie('d'), { max: 3 }).map((ps) => ({ k: 'exactOptionalized', props: ps })),
      fc.array(tie('d'), { minLength: 2, maxLength: 3 }).map((of) => ({ k: 'union', of })),
      fc.tuple(props(['a', 'b', 'c'], tie('d'), { max: 2, opt: false }), props(['id', 'name'], tie('d'), { max: 2 })).map(([l, r]) => ({ k: 'intersection', of: [{ k: 'type', props: l }, { k: 'optionalized', props: r }] })),
    ),
  })).d;

function toProps(L, ps) {
  const o = {};
  for (const p of ps) o[p.name] = build(L, p.codec);
  return o;
}
// L = { t: io-ts, tt: io-ts-types, h: @api-ts/io-ts-http }
function build(L, d) {
  if (LEAVES[d.k]) return LEAVES[d.k].mk(L);
  switch (d.k) {
    case 'optional': return L.h.optional(build(L, d.of));
    case 'unknown': return L.t.unknown;
    case 'undefined': return L.t.undefined;
    case 'array': return L.t.array(build(L, d.of));
    case 'record': return L.t.record(L.t.string, build(L, d.of));
    case 'type': return L.t.type(toProps(L, d.props));
    case 'partial': return L.t.partial(toProps(L, d.props));
    case 'strict': return L.t.strict(toProps(L, d.props));
    case 'optionalized': return L.h.optionalized(toProps(L, d.props));
    case 'exactOptionalized': return L.t.exact(L.h.optionalized(toProps(L, d.props)));
    case 'union': return L.t.union(d.of.map((x) => build(L, x)));
    case 'intersection': return L.t.intersection(d.of.map((x) => build(L, x)));
  }
  throw new Error('unknown description ' + d.k);
}

// The same codec without any api-ts combinator, from plain io-ts: what `optional` and `optionalized` stand for.
function buildPlain(L, d) {
  const pp = (ps) => { const o = {}; for (const p of ps) o[p.name] = buildPlain(L, p.codec); return o; };
  switch (d.k) {
    case 'optional': return L.t.union([buildPlain(L, d.of), L.t.undefined]);
    case 'array': return L.t.array(buildPlain(L, d.of));
    case 'record': return L.t.record(L.t.string, buildPlain(L, d.of));
    case 'type': return L.t.type(pp(d.props));
    case 'partial': return L.t.partial(pp(d.props));
    case 'strict': return L.t.strict(pp(d.props));
    case 'union': return L.t.union(d.of.map((x) => buildPlain(L, x)));
    case 'intersection': return L.t.intersection(d.of.map((x) => buildPlain(L, x)));
    default: return build(L, d);
  }
}

const obj = (pairs) => {
  const o = {};
  for (const [k, v] of pairs) Object.defineProperty(o, k, { value: v, enumerable: true, configurable: true, writable: true });
  return o;
};
const ABSENT = Symbol('absent');
const recordOf = (ps, f, { optionalAbsent = (p) => p.codec.k === 'optional' } = {}) =>
  fc
    .tuple(...ps.map((p) => (optionalAbsent(p) ? fc.oneof({ weight: 3, arbitrary: f(p.codec.k === 'optional' ? p.codec.of : p.codec) }, { weight: 2, arbitrary: fc.constant(ABSENT) }, { weight: 1, arbitrary: fc.constant(undefined) }) : f(p.codec))))
    .map((vs) => obj(ps.map((p, i) => [p.name, vs[i]]).filter(([, v]) => v !== ABSENT)));

// values of the decoded type
function arbA(d, depth = 0) {
  if (LEAVES[d.k]) return LEAVES[d.k].a();
  switch (d.k) {
    case 'optional': return fc.oneof({ weight: 3, arbitrary: arbA(d.of, depth) }, { weight: 1, arbitrary: fc.constant(undefined) });
    case 'unknown': return json(1);
    case 'undefined': return fc.constant(undefined);
    case 'array': return fc.array(arbA(d.of, depth + 1), { maxLength: 3 });
    case 'record': return fc.dictionary(fc.constantFrom('a', 'b', 'k1', '日'), arbA(d.of, depth + 1), { maxKeys: 2, noNullPrototype: true });
    case 'type': case 'strict': return recordOf(d.props, (c) => arbA(c, depth + 1), { optionalAbsent: () => false });
    case 'partial': return recordOf(d.props, (c) => arbA(c, depth + 1), { optionalAbsent: () => true });
    case 'optionalized': case 'exactOptionalized': return recordOf(d.props, (c) => arbA(c, depth + 1));
    case 'union': return fc.oneof(...d.of.map((x) => arbA(x, depth)));
    case 'intersection': return fc.tuple(...d.of.map((x) => arbA(x, depth))).map((xs) => obj(xs.flatMap((x) => Object.entries(x))));
  }
  throw new Error(d.k);
}
// inputs as they arrive on the wire: mostly near-valid
function arbI(d, bad = 1) {
  const junk = fc.oneof(json(1), fc.constant(undefined));
  const good = goodI(d, bad);
  return bad ? fc.oneof({ weight: 9, arbitrary: good }, { weight: 1, arbitrary: junk }) : good;
}
function goodI(d, bad) {
  const L = LEAVES[d.k];
  if (L) return L.a().map((a) => L.enc(a));
  switch (d.k) {
    case 'optional': return fc.oneof({ weight: 4, arbitrary: arbI(d.of, bad) }, { weight: 1, arbitrary: fc.constant(undefined) });
    case 'unknown': return json(1);
    case 'undefined': return fc.constant(undefined);
    case 'array': return fc.array(arbI(d.of, bad), { maxLength: 3 });
    case 'record': return fc.dictionary(fc.constantFrom('a', 'b', 'k1', '日'), arbI(d.of, bad), { maxKeys: 2, noNullPrototype: true });
    case 'type': case 'strict': return withExtra(recordOf(d.props, (c) => arbI(c, bad), { optionalAbsent: () => false }));
    case 'partial': return withExtra(recordOf(d.props, (c) => arbI(c, bad), { optionalAbsent: () => true }));
    case 'optionalized': case 'exactOptionalized': return withExtra(recordOf(d.props, (c) => arbI(c, bad)));
    case 'union': return fc.oneof(...d.of.map((x) => arbI(x, bad)));
    case 'intersection': return fc.tuple(...d.of.map((x) => goodI(x, bad))).map((xs) => obj(xs.flatMap((x) => Object.entries(x))));
  }
  throw new Error(d.k);
}
// undeclared keys ride along with a record
function withExtra(rec) {
  return fc.oneof(
    { weight: 2, arbitrary: rec },
    { weight: 1, arbitrary: fc.tuple(rec, fc.array(fc.tuple(undeclared(), json(1)), { minLength: 1, maxLength: 2 })).map(([r, xs]) => {
      const o = obj(Object.entries(r));
      for (const [k, v] of xs) if (!Object.prototype.hasOwnProperty.call(o, k)) Object.defineProperty(o, k, { value: v, enumerable: true, configurable: true, writable: true });
      return o;
    }) },
  );
}

const isOptional = (L, d) => build(L, d).is(undefined);

module.exports = { undeclared, NAMES, IDENT_NAMES, LEAVES, S_LEAVES, J_LEAVES, str, json, num, leaf, paramDesc, queryDesc, bodyDesc, props, build, buildPlain, arbA, arbI, goodI, recordOf, withExtra, toProps, obj, ABSENT, isOptional };
