'use strict';
// Whatever is documented, the document is one that OpenAPI 3.0.3 allows: own projects of every
// codec the generator knows (degenerate ones included) under odd names, and the projects of the
// checks that ask what the document means.
const G = require('../lib/gen');
const { problems } = require('../lib/oas');

const NAMES = ['Foo', 'foo', 'Bar', '$Foo', 'Foo$', '_', '$', 'Fé', 'Naïve', '数', 'constructor', 'toString', 'Foo1', 'Foo_', 'a1', 'title'];
const FIELDS = ['a', 'b', 'x-y', '$ref', 'type', 'é', 'required', '0', 'toString', 'with space'];
const IO = ['string', 'number', 'bigint', 'boolean', 'null', 'nullType', 'undefined', 'void', 'unknown', 'any', 'object', 'UnknownRecord'].map((n) => 't.' + n);
const TT = ['NumberFromString', 'BigIntFromString', 'BooleanFromNumber', 'BooleanFromString', 'DateFromISOString', 'DateFromNumber', 'DateFromUnixTime', 'IntFromString', 'JsonFromString', 'NonEmptyString', 'UUID', 'Json', 'JsonRecord', 'date'].map((n) => 'tt.' + n);
const NN = ['Negative', 'NonNegative', 'NonPositive', 'NonZero', 'Positive', 'Zero', 'NegativeInt', 'NumberFromString', 'NaturalFromString', 'PositiveFromString', 'NonNegativeIntFromString', 'ZeroFromString'].map((n) => 'n.' + n);
const BB = ['BigIntFromString', 'NegativeBigInt', 'NonEmptyString', 'NonZeroBigInt', 'PositiveBigIntFromString', 'ZeroBigInt'].map((n) => 'b.' + n);
const LITERALS = ["'a'", "'b'", "''", "'a b'", '1', '0', '1.5', 'true', 'false', 'null as any', "'1'"];
const TAGS = ['@title A title', '@format password', '@format uuid', '@deprecated', '@default foo', '@default 3', '@example foo', '@example 7', '@minLength 0', '@minLength 3', '@maxLength 10', '@minimum 0', '@minimum -2.5', '@maximum 100', '@exclusiveMinimum', '@exclusiveMaximum true', '@multipleOf 5', '@minItems 0', '@maxItems 4', '@uniqueItems true', '@uniqueItems', '@minProperties 1', '@maxProperties 3', '@readOnly', '@writeOnly true', '@pattern ^[a-z]*$', '@private', '@public', '@example {"a": 1}', '@example ["a"]', '@unknownTag hello'];
const ROUTE_TAGS = ['@tag Things', '@operationId op', '@private', '@public', '@unstable', '@deprecated', '@author me', '@example {"a": 1}'];
const METHODS = ['GET', 'POST', 'PUT', 'DELETE', 'PATCH', 'HEAD', 'OPTIONS', 'get', 'post'];
const CODES = [200, 201, 204, 301, 400, 404, 418, 500, 503];
const OTHERS = ['C20', 'C22', 'C23', 'C24', 'C26', 'C28'];

const subset = (fc, xs, maxLength) => fc.uniqueArray(fc.constantFrom(...xs), { maxLength });
const commentArb = (fc, tags) => fc.option(fc.record({ text: fc.constantFrom('', 'Some text.', 'Two\nlines', 'It has: "quotes" & <tags>'), tags: subset(fc, tags, 3), line: fc.boolean() })
  .map((c) => ({ ...c, tags: c.tags.includes('@private') ? c.tags.filter((x) => x !== '@public') : c.tags })), { nil: undefined, freq: 2 });

function codecArb(fc, names) {
  const { codec } = fc.letrec((tie) => {
    const sub = tie('codec');
    const props = fc.uniqueArray(fc.tuple(fc.constantFrom(...FIELDS), sub, commentArb(fc, TAGS)), { selector: (x) => x[0], maxLength: 3 });
    const many = fc.array(sub, { maxLength: 3 });
    const leaf = fc.oneof(
      { weight: 4, arbitrary: fc.constantFrom(...IO).map((s) => ({ s })) },
      { weight: 2, arbitrary: fc.constantFrom(...TT).map((s) => ({ s })) },
      { weight: 1, arbitrary: fc.constantFrom(...NN, ...BB).map((s) => ({ s })) },
      { weight: 2, arbitrary: fc.constantFrom(...LITERALS).map((s) => ({ s: `t.literal(${s})` })) },
      { weight: 2, arbitrary: fc.uniqueArray(fc.tuple(fc.constantFrom(...FIELDS), commentArb(fc, ['@deprecated', '@description Some value'])), { selector: (x) => x[0], maxLength: 3 }).map((keys) => ({ k: 'keyof', keys })) },
      ...(names.length ? [{ weight: 6, arbitrary: fc.constantFrom(...names).map((n) => ({ k: 'ref', n })) }] : []),
    );
    return {
      codec: fc.oneof(
        { maxDepth: 3, depthSize: 'small' },
        leaf,
        fc.tuple(fc.constantFrom('t.array', 't.readonlyArray', 'tt.nonEmptyArray', 'tt.readonlyNonEmptyArray', 'h.optional', 't.exact', 'tt.fromNullable', 't.brand'), sub).map(([f, of]) => ({ k: 'of', f, of })),
        fc.tuple(fc.constantFrom('t.type', 't.partial', 't.strict', 'h.optionalized'), props).map(([f, props]) => ({ k: 'props', f, props })),
        fc.tuple(fc.constantFrom('t.union', 't.intersection'), many).map(([f, of]) => ({ k: 'many', f, of })),
        fc.tuple(sub, fc.constantFrom("'x'", '0', 'false')).map(([of, v]) => ({ k: 'fallback', of, v })),
        fc.tuple(sub, sub, fc.boolean()).map(([dom, of, str]) => ({ k: 'record', dom: str ? { s: 't.string' } : dom, of })),
      ),
    };
  });
  return codec;
}
const key = (n) => (/^[A-Za-z_$][\w$]*$/.test(n) ? n : JSON.stringify(n));
const jsdoc = (c, indent = '') => {
  if (!c || (!c.text && !c.tags.length)) return '';
  const lines = [...(c.text ? c.text.split('\n') : []), ...c.tags];
  if (c.line && lines.length === 1) return `${indent}/** ${lines[0]} */\n`;
  return `${indent}/**\n${lines.map((l) => `${indent} * ${l}\n`).join('')}${indent} */\n`;
};
const print = (c) => {
  if (c.s) return c.s;
  switch (c.k) {
    case 'ref': return c.n;
    case 'keyof': return `t.keyof({${c.keys.map(([n, doc]) => `\n${jsdoc(doc)}${key(n)}: 1,`).join('')}})`;
    case 'of': return c.f === 't.brand' ? `t.brand(${print(c.of)}, (x): x is any => true, 'B')` : `${c.f}(${print(c.of)})`;
    case 'props': return `${c.f}({${c.props.map(([n, x, doc]) => `\n${jsdoc(doc)}${key(n)}: ${print(x)},`).join('')}})`;
    case 'many': return `${c.f}([${c.of.map(print).join(', ')}])`;
    case 'fallback': return `tt.withFallback(${print(c.of)}, ${c.v})`;
    case 'record': return `t.record(${print(c.dom)}, ${print(c.of)})`;
    default: throw new Error(c.k);
  }
};
function specArb(fc) {
  return subset(fc, NAMES, 5).chain((names) => fc.record({
    decls: fc.tuple(...names.map((_, i) => fc.record({ c: codecArb(fc, names.slice(0, i)), doc: commentArb(fc, TAGS), at: fc.nat(2) }))).map((ds) => ds.map((d, i) => ({ n: names[i], ...d }))),
    routes: fc.array(fc.record({
      method: fc.constantFrom(...METHODS),
      vars: subset(fc, ['id', 'the-key'], 2),
      varCodec: fc.oneof({ weight: 2, arbitrary: fc.constant({ s: 't.string' }) }, { weight: 1, arbitrary: codecArb(fc, names) }),
      again: fc.boolean(),
      query: fc.uniqueArray(fc.tuple(fc.constantFrom(...FIELDS), codecArb(fc, names), commentArb(fc, TAGS)), { selector: (x) => x[0], maxLength: 3 }),
      headers: fc.uniqueArray(fc.tuple(fc.constantFrom('x-a', 'authorization'), codecArb(fc, names), commentArb(fc, TAGS)), { selector: (x) => x[0], maxLength: 2 }),
      body: fc.option(codecArb(fc, names)),
      res: fc.uniqueArray(fc.tuple(fc.constantFrom(...CODES), codecArb(fc, names)), { selector: (x) => x[0], minLength: 1, maxLength: 3 }),
      doc: commentArb(fc, ROUTE_TAGS),
      form: fc.constantFrom('http', 'plain', 'both', 'either'),
    }), { minLength: 1, maxLength: 3 }),
    servers: fc.array(fc.constantFrom('@url https://example.com/v1', '@url /api'), { maxLength: 2 }),
    args: subset(fc, ['--name=n', '--version=1', '--description=d'], 3),
  }));
}
// declarations in place 0 stay in index.ts, others are in files of their own
function render({ decls, routes, servers }) {
  const used = [...new Set(decls.map((d) => d.at).filter((a) => a > 0))];
  const libs = "import * as t from 'io-ts';\nimport * as tt from 'io-ts-types';\nimport * as n from 'io-ts-numbers';\nimport * as b from 'io-ts-bigint';\nimport * as h from '@api-ts/io-ts-http';\n";
  const files = {};
  const text = { 0: '', 1: '', 2: '' };
  for (const d of decls) text[d.at] += `${jsdoc(d.doc)}export const ${d.n} = ${print(d.c)};\n`;
  const imports = (at) => [0, ...used].filter((a) => a !== at && decls.some((d) => d.at === a)).map((a) => `import { ${decls.filter((d) => d.at === a).map((d) => d.n).join(', ')} } from '${a ? './f' + a : './index'}';\n`).join('');
  for (const a of used) files[`f${a}.ts`] = libs + imports(a) + text[a];
  const entry = (xs) => xs.map(([name, c, doc]) => `\n${jsdoc(doc)}${key(name)}: ${print(c)},`).join('');
  const path = (r, i) => `/r${i}${r.vars.map((v) => `/{${v}}`).join('/x')}`;
  const request = (r) => {
    const part = (name, xs) => (xs.length ? [`${name}: ${r.form === 'plain' ? 't.type(' : ''}{${entry(xs)}}${r.form === 'plain' ? ')' : ''}`] : []);
    const parts = [...part('params', r.vars.map((v) => [v, r.varCodec])), ...part('query', r.query), ...part('headers', r.headers)];
    const http = `${r.form === 'plain' ? 't.type' : 'h.httpRequest'}({${parts.join(', ')}})`;
    if (r.form === 'plain') return r.body ? `t.type({${[...parts, `body: ${print(r.body)}`].join(', ')}})` : http;
    const params = r.vars.length ? `params: {${r.vars.map((v) => `${key(v)}: t.string`)}}, ` : '';
    // the same parameters may be declared by both parts of an intersection
    const more = (r.again ? params : '') + (r.again && r.query.length ? `query: {${key(r.query[0][0])}: t.string }` : 'query: { more: h.optional(t.string) }');
    const tail = r.body ? `t.type({ body: ${print(r.body)} })` : `h.httpRequest({ ${more} })`;
    if (r.form === 'both') return `t.intersection([${http}, ${tail}])`;
    if (r.form === 'either') return `t.union([${http}, h.httpRequest({ ${params}body: { other: t.number } })])`;
    return r.body ? `t.intersection([${http}, ${tail}])` : http;
  };
  let src = libs + imports(0) + text[0];
  const groups = servers.length ? servers : [undefined];
  groups.forEach((s, g) => {
    const mine = routes.map((r, i) => [r, i]).filter(([, i]) => i % groups.length === g);
    if (!mine.length) return;
    for (const [r, i] of mine) src += `${jsdoc(r.doc)}const route${i} = h.httpRoute({ path: '${path(r, i)}', method: '${r.method}', request: ${request(r)}, response: {${r.res.map(([c, x]) => ` ${c}: ${print(x)},`).join('')} } });\n`;
    src += `${s ? `/**\n * ${s}\n * Some server\n */\n` : ''}export const api${g} = h.apiSpec({${mine.map(([r, i]) => ` a${i}: { ${r.method.toLowerCase()}: route${i} },`).join('')} });\n`;
  });
  files['index.ts'] = src;
  return files;
}
const listing = (files) => Object.entries(files).map(([f, s]) => `// ${f}\n${s}`).join('\n');
// comments of two places may come together in one
const hopeless = /Cannot use both @public and @private/;

function walk(c, f) { f(c); for (const x of [].concat(c.of || [], c.dom || [], (c.props || []).map((p) => p[1]))) walk(x, f); }

module.exports = {
  rule: 'A case is a generated project, given to the command line. Non-trivial: specs - at least 3 schemas deep or one degenerate part (an empty union, nothing but undefined, a name that is no component name, an empty keyof); codecs - every case; meant - the documents of at least one run were checked.',
  assumptions: [
    'The validity rules are those of the OpenAPI Specification 3.0.3, written down by hand in lib/oas.js (nothing is installed that knows them).',
    '{ nullable: true, enum: [] }, this generator\'s way to write null, is let through although JSON Schema asks for a non-empty enum.',
    'Tags are given values of their kind (@minLength takes a number), and every parameter of a path is declared.',
  ],
  props: [
    {
      name: 'specs',
      runs: { quick: 3500, thorough: 40000 },
      arb: (fc) => specArb(fc),
      async check(spec, t, env) {
        const files = render(spec);
        const r = await G.generate(env, files, { args: spec.args });
        if (!r.doc && hopeless.test(r.threw ? r.threw.message : r.stderr)) { t.label('refused'); return; }
        t.assert(r.doc !== undefined, () => `no document: ${r.threw ? r.threw.stack : r.stderr}\n${listing(files).slice(0, 4000)}`);
        const bad = problems(r.doc);
        t.assert(bad.length === 0, () => `not a document of OpenAPI 3.0.3:\n  ${bad.slice(0, 5).join('\n  ')}\n${listing(files).slice(0, 4000)}`);
        t.assert(Object.keys(r.doc.paths).length === spec.routes.length, () => `${Object.keys(r.doc.paths).length} paths for ${spec.routes.length} routes\n${listing(files).slice(0, 4000)}`);
        let n = 0, odd = false;
        for (const c of [...spec.decls.map((d) => d.c), ...spec.routes.flatMap((x) => [...x.query.map((q) => q[1]), ...x.headers.map((q) => q[1]), ...x.res.map((q) => q[1]), ...(x.body ? [x.body] : [])])])
          walk(c, (x) => { n++; if ((x.k === 'many' && x.of.length < 2) || (x.k === 'keyof' && !x.keys.length) || /undefined|void/.test(x.s || '')) odd = true; if (x.k === 'ref') { t.label('ref'); if (!/^[\w.-]+$/.test(x.n)) { t.label('odd name'); odd = true; } } });
        if (odd) t.label('degenerate');
        if (odd || n >= 8) t.nontrivial();
      },
    },
    {
      name: 'codecs',
      enumerate() {
        const leaves = [...IO, ...TT, ...NN, ...BB, ...LITERALS.map((l) => `t.literal(${l})`), 't.keyof({})', 't.keyof({ a: 1 })', 't.keyof({ a: 1, 0: 2 })', 't.union([])', 't.intersection([t.undefined, t.undefined])', 't.type({})', 'One', '$Two'];
        const wraps = ['@', 't.array(@)', 'h.optional(@)', 't.union([@, t.string])', 't.union([@, t.null])', 't.union([@, @])', 't.union([@, t.undefined, t.unknown])', 't.intersection([@, @])', 't.intersection([@, t.type({ z: t.string })])', 't.intersection([@, t.undefined])', 't.type({ a: @ })', 't.partial({ a: @ })', 't.record(t.string, @)', "t.record(t.keyof({ a: 1 }), @)", 't.record(t.keyof({}), @)', 't.record(@, t.string)', 'tt.nonEmptyArray(@)', 'tt.fromNullable(@)', 't.array(h.optional(@))', 't.array(t.array(@))', 'h.optionalized({ a: @ })'];
        return wraps.flatMap((w) => leaves.map((l) => ({ codec: w.split('@').join(l) })));
      },
      async check({ codec }, t, env) {
        const files = { 'index.ts': `import * as t from 'io-ts';\nimport * as tt from 'io-ts-types';\nimport * as n from 'io-ts-numbers';\nimport * as b from 'io-ts-bigint';\nimport * as h from '@api-ts/io-ts-http';\nconst One = t.type({ x: t.string });\nconst $Two = t.undefined;\n/** Doc */\nconst Named = ${codec};\nconst r = h.httpRoute({ path: '/x/{id}', method: 'POST', request: t.intersection([h.httpRequest({ params: { id: t.string }, query: { q: ${codec}, named: Named }, headers: { 'x-h': ${codec} } }), t.type({ body: ${codec} })]), response: { 200: ${codec}, 400: Named, 404: t.array(Named), 500: t.type({ p: ${codec}, /** Other */ q: Named }) } });\nexport const api = h.apiSpec({ x: { post: r } });\n` };
        const r = await G.generate(env, files);
        t.nontrivial();
        t.assert(r.doc !== undefined, () => `no document: ${r.threw ? r.threw.stack : r.stderr}\n${listing(files)}`);
        const bad = problems(r.doc);
        t.assert(bad.length === 0, () => `not a document of OpenAPI 3.0.3:\n  ${bad.slice(0, 5).join('\n  ')}\n${listing(files)}`);
      },
    },
    {
      name: 'meant',
      runs: { quick: 900, thorough: 9000 },
      arb: (fc, env, tier) => fc.oneof(...OTHERS.flatMap((id) => require('./' + id).props.filter((p) => p.arb).map((p) => p.arb(fc, env, tier).map((c) => ({ id, prop: p.name, c }))))),
      async check({ id, prop, c }, t, env) {
        const docs = [];
        const mute = { label() {}, nontrivial() {}, exclude() {}, fail() {}, assert() {} };
        const keep = G.onDoc;
        G.onDoc = (d) => docs.push(JSON.parse(JSON.stringify(d)));
        try { await require('./' + id).props.find((p) => p.name === prop).check(c, mute, env); } catch (e) { t.label('stopped'); } finally { G.onDoc = keep; }
        for (const d of docs) {
          // these projects have the @pattern {2}, and paths with parameters that no request declares, and the other way round
          const bad = problems(d).filter((b) => !/is not in the path|which is no parameter|not a regular expression: \{2\}/.test(b));
          t.assert(bad.length === 0, () => `not a document of OpenAPI 3.0.3:\n  ${bad.slice(0, 5).join('\n  ')}\n${JSON.stringify(d).slice(0, 2000)}`);
        }
        t.label(id);
        if (docs.length) t.nontrivial();
      },
    },
  ],
};
