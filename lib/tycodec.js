'use strict';
// Codecs as data, with the static types of what they decode to and encode to, and examples of values
const LEAVES = {
  string: { x: 't.string', a: 'string', o: 'string', good: ["'x'", "''", 'String(1)'], bad: ['1', 'null', '{}', 'undefined'] },
  number: { x: 't.number', a: 'number', o: 'number', good: ['1', '0.5', 'Number(1)'], bad: ["'1'", 'null', 'undefined'] },
  boolean: { x: 't.boolean', a: 'boolean', o: 'boolean', good: ['true', 'false'], bad: ["'true'", '0'] },
  null: { x: 't.null', a: 'null', o: 'null', good: ['null'], bad: ["'x'", '0', 'undefined'] },
  litA: { x: "t.literal('a')", a: "'a'", o: "'a'", good: ["'a'"], bad: ["'b'", '1', 'String(1)'] },
  lit7: { x: 't.literal(7)', a: '7', o: '7', good: ['7'], bad: ['8', "'7'"] },
  litTrue: { x: 't.literal(true)', a: 'true', o: 'true', good: ['true'], bad: ['false', "'true'"] },
  keyof: { x: 't.keyof({ red: 1, blue: 1 })', a: "'red' | 'blue'", o: "'red' | 'blue'", good: ["'red'", "'blue'"], bad: ["'green'", '1'] },
  NumberFromString: { x: 'tt.NumberFromString', a: 'number', o: 'string', good: ['1', '2.5'], bad: ["'1'", 'null'] },
  BooleanFromString: { x: 'tt.BooleanFromString', a: 'boolean', o: 'string', good: ['true', 'false'], bad: ["'true'", '1'] },
  BigIntFromString: { x: 'tt.BigIntFromString', a: 'bigint', o: 'string', good: ['BigInt(1)'], bad: ['1', "'1'"] },
  DateFromISOString: { x: 'tt.DateFromISOString', a: 'Date', o: 'string', good: ['new Date(0)'], bad: ["'2020-01-01'", '0'] },
  date: { x: 'tt.date', a: 'Date', o: 'Date', good: ['new Date(0)'], bad: ["'2020-01-01'"] },
  fromNullable: { x: "tt.fromNullable(t.string, 'x')", a: 'string', o: 'string', good: ["'x'"], bad: ['1', 'null', 'undefined'] },
  unknown: { x: 't.unknown', a: 'unknown', o: 'unknown', u: true, uo: true, good: ['1', 'null', "'x'", '{}'], bad: [] },
};
const UNDEFINED = { x: 't.undefined', a: 'undefined', o: 'undefined', u: true, uo: true, good: ['undefined'], bad: ["'x'", 'null'] };

// what a codec is: { x: expression, a, o: types, u, uo: whether undefined is of that type, good, bad: expressions }
function info(c) {
  switch (c.k) {
    case 'leaf': return LEAVES[c.n];
    case 'opt': {
      const i = info(c.of);
      const x = [`h.optional(${i.x})`, `t.union([${i.x}, t.undefined])`, `t.union([t.undefined, ${i.x}])`][c.how];
      return { x, a: `${i.a} | undefined`, o: `${i.o} | undefined`, u: true, uo: true, good: [...i.good, 'undefined'], bad: i.bad.filter((v) => v !== 'undefined') };
    }
    case 'option': { const i = info(c.of); return { x: `tt.optionFromNullable(${i.x})`, a: `Option<${i.a}>`, o: `${i.o} | null`, uo: i.uo, good: [], bad: ["'x'", '1', 'null'] }; }
    case 'array': { const i = info(c.of); return { x: `t.array(${i.x})`, a: `(${i.a})[]`, o: `(${i.o})[]`, good: ['[]', ...i.good.map((v) => `[${v}]`)], bad: ["'x'", '{}', 'undefined', ...i.bad.map((v) => `[${[...i.good.slice(0, 1), v].join(', ')}]`)] }; }
    case 'record': { const i = info(c.of); return { x: `t.record(t.string, ${i.x})`, a: `{ [x: string]: ${i.a} }`, o: `{ [x: string]: ${i.o} }`, good: ['{}', ...i.good.map((v) => `{ k: ${v} }`)], bad: ["'x'", '1', ...i.bad.map((v) => `{ k: ${v} }`)] }; }
    case 'tuple': { const is = c.of.map(info); return { x: `t.tuple([${is.map((i) => i.x).join(', ')}])`, a: `[${is.map((i) => i.a).join(', ')}]`, o: `[${is.map((i) => i.o).join(', ')}]`, good: is.every((i) => i.good.length) ? [`[${is.map((i) => i.good[0]).join(', ')}]`] : [], bad: ["'x'", '{}', '[]'] }; }
    case 'union': {
      const is = c.of.map(info), any = is.some((i) => i.a === 'unknown');
      // what no member takes: only plain things are certain
      const bad = any ? [] : ['Symbol()', '(() => 1)'].filter(() => is.every((i) => i.a !== 'unknown'));
      return { x: `t.union([${is.map((i) => i.x).join(', ')}])`, a: is.map((i) => `(${i.a})`).join(' | '), o: is.map((i) => `(${i.o})`).join(' | '), u: is.some((i) => i.u), uo: is.some((i) => i.uo), good: is.flatMap((i) => i.good), bad };
    }
    case 'type': case 'partial': case 'strict': case 'optionalized': {
      const fs = c.props.map(([n, p]) => [n, info(p)]);
      const f = { type: 't.type', partial: 't.partial', strict: 't.strict', optionalized: 'h.optionalized' }[c.k];
      const optional = (i) => c.k === 'partial' || (c.k === 'optionalized' && !!i.u);
      const body = (kind) => `{ ${fs.map(([n, i]) => { const o = optional(i); return `${JSON.stringify(n)}${o ? '?' : ''}: ${o && c.k === 'optionalized' ? `Exclude<${i[kind]}, undefined>` : i[kind]}${c.k === 'partial' ? ' | undefined' : ''}`; }).join('; ')} }`;
      const goods = fs.every(([, i]) => optional(i) || i.good.length) ? [0, 1].map((k) => `{ ${fs.filter(([, i]) => i.good.length).map(([n, i]) => [n, i.good[k % i.good.length], i]).filter(([, v, i]) => !(v === 'undefined' && optional(i))).map(([n, v]) => `${JSON.stringify(n)}: ${v}`).join(', ')} }`) : [];
      const bad = fs.some(([, i]) => !optional(i)) ? ['null', "'x'", '1'] : ['null'];
      if (goods.length && fs.length) {
        const of = (change) => `{ ${fs.filter(([, i]) => i.good.length).map(([n, i]) => change(n, i, i.good.find((v) => v !== 'undefined') || i.good[0])).filter(Boolean).join(', ')} }`;
        for (const [n, i] of fs) {
          if (!optional(i) && i.good.length) bad.push(of((m, _, v) => (m === n ? '' : `${JSON.stringify(m)}: ${v}`)));
          const b = i.bad.find((v) => v !== 'undefined');
          if (b && i.good.length) bad.push(of((m, _, v) => `${JSON.stringify(m)}: ${m === n ? b : v}`));
        }
        bad.push(`{ ...(${goods[0]}), ...{}, 'not there': 1 }`.replace(/^\{ \.\.\.\(\{ (.*) \}\), \.\.\.\{\}, /, (_, inner) => `{ ${inner}${inner.trim() ? ', ' : ''}`));
      }
      return { x: `${f}({ ${fs.map(([n, i]) => `${JSON.stringify(n)}: ${i.x}`).join(', ')} })`, a: body('a'), o: body('o'), good: goods, bad };
    }
    case 'both': { const a = info(c.of[0]), b = info(c.of[1]); return { x: `t.intersection([${a.x}, ${b.x}])`, a: `(${a.a}) & (${b.a})`, o: `(${a.o}) & (${b.o})`, good: [], bad: ['null'] }; }
    default: throw new Error(c.k);
  }
}
const NAMES = ['a', 'b', 'id', 'x-y'];
function codecArb(fc, { depth = 2, leaves = Object.keys(LEAVES), json = false } = {}) {
  const leaf = fc.record({ k: fc.constant('leaf'), n: fc.constantFrom(...leaves) });
  if (depth === 0) return leaf;
  const sub = codecArb(fc, { depth: depth - 1, leaves, json });
  const opt = fc.record({ k: fc.constant('opt'), of: sub, how: fc.nat(2) });
  const props = (names) => fc.uniqueArray(fc.tuple(fc.constantFrom(...names), fc.oneof({ weight: 3, arbitrary: sub }, { weight: 1, arbitrary: opt })), { maxLength: 3, selector: (p) => p[0] });
  // JSON has no undefined: the compiler takes it for JSON only if it goes with optional properties
  const obj = (names) => fc.record({ k: fc.constantFrom('type', 'partial', 'strict', 'optionalized'), props: props(names) })
    .map((o) => (json && (o.k === 'type' || o.k === 'strict') ? { ...o, props: o.props.map(([n, c]) => [n, c.k === 'opt' ? c.of : c]) } : o));
  return fc.oneof(
    { weight: 5, arbitrary: leaf },
    { weight: 1, arbitrary: fc.record({ k: fc.constant('option'), of: leaf.filter((l) => l.n !== 'unknown') }) },
    { weight: 1, arbitrary: fc.record({ k: fc.constant('array'), of: sub }) },
    { weight: 1, arbitrary: fc.record({ k: fc.constant('record'), of: sub }) },
    { weight: 1, arbitrary: fc.record({ k: fc.constant('tuple'), of: fc.array(sub, { minLength: 1, maxLength: 2 }) }) },
    { weight: 1, arbitrary: fc.record({ k: fc.constant('union'), of: fc.array(sub, { minLength: 2, maxLength: 3 }) }) },
    { weight: 3, arbitrary: obj(NAMES) },
    { weight: 1, arbitrary: fc.record({ k: fc.constant('both'), of: fc.tuple(obj(['a', 'b']), obj(['id', 'x-y'])) }) },
  );
}
// codecs of which the encoded form may be a path or query parameter or a header
const STRINGY = ['string', 'litA', 'keyof', 'NumberFromString', 'BooleanFromString', 'BigIntFromString', 'DateFromISOString', 'fromNullable'];
const NOT_STRINGY = ['number', 'boolean', 'null', 'lit7', 'litTrue', 'date', 'unknown'];
module.exports = { LEAVES, UNDEFINED, info, codecArb, STRINGY, NOT_STRINGY, NAMES };
