'use strict';
const G = require('../lib/gen');
const P = require('../lib/projects');
const { show } = require('../lib/ser');

const has = (o, k) => Object.prototype.hasOwnProperty.call(o, k);
const E = (env) => env.req('fp-ts/Either');
const ROUTE = { path: '/thing/{id}', method: 'POST', params: [['id', { k: 'string' }]], query: [], headers: [], action: 'thing', key: 'post' };

// JSON Schema readers disagree about these; the generator documents the decoded type (pinned by its tests)
const noConsolidation = (c) => {
  const leavesOf = (x, out) => { if (x.k === 'union' || x.k === 'optional' || x.k === 'brand' || x.k === 'exact') (Array.isArray(x.of) ? x.of : [x.of]).forEach((y) => leavesOf(y, out)); else out.push(x); return out; };
  const go = (x, swap) => {
    if ((x.k === 'NumberFromString' || x.k === 'IntFromString') && swap) return { k: 'UUID' };
    const y = { ...x };
    const inUnion = x.k === 'union' ? swap || leavesOf(x, []).some((l) => l.k === 'number' || l.k === 'lit' || l.k === 'ref') : (x.k === 'optional' || x.k === 'brand' || x.k === 'exact') && swap;
    if (x.of) y.of = Array.isArray(x.of) ? x.of.map((z) => go(z, inUnion)) : go(x.of, inUnion);
    if (x.dom) y.dom = x.dom;
    if (x.props) y.props = x.props.map(([n, z]) => [n, go(z, false)]);
    return y;
  };
  return go(c, false);
};
// inside an intersection, an object without fields is dropped from the document
const noEmptyInInter = (c) => {
  const go = (x, inside) => {
    const i = inside || x.k === 'inter';
    const y = { ...x };
    if (x.of) y.of = Array.isArray(x.of) ? x.of.map((z) => go(z, i)) : go(x.of, i);
    if (x.props) y.props = inside && x.props.length === 0 ? [['id', { k: 'optional', of: { k: 'boolean' } }]] : x.props.map(([n, z]) => [n, go(z, i)]);
    return y;
  };
  return go(c, false);
};
// the same where the object is a declared codec that an intersection refers to
const refersInInter = (c, inside = false) => c.k === 'ref' ? inside : [].concat(c.of || [], (c.props || []).map((p) => p[1])).some((x) => refersInInter(x, inside || c.k === 'inter'));
const tidyAll = (cs) => (cs.some(([, c]) => refersInInter(c)) ? cs.map(([n, c]) => [n, P.noEmpty(c)]) : cs);
const tidy = (c) => noEmptyInInter(noConsolidation(c));

// the codec with every string- or number-coded leaf replaced by the plain JSON type
const widen = (c) => {
  const L = G.LEAF[c.k];
  if (L && L.js) return { k: L.js };
  const y = { ...c };
  if (c.of) y.of = Array.isArray(c.of) ? c.of.map(widen) : widen(c.of);
  if (c.props) y.props = c.props.map(([n, z]) => [n, widen(z)]);
  return y;
};
// undefined alone stays where an object may lack a field for it: as a property, or in a record that is one
const nothingInFields = (c, field = false) => {
  if (c.k === 'undefined' || c.k === 'void') return field ? c : { k: 'string' };
  const y = { ...c };
  if (c.props) y.props = c.props.map(([n, z]) => [n, nothingInFields(z, true)]);
  if (c.of) y.of = Array.isArray(c.of) ? c.of.map((z, i) => (z.k === 'undefined' && i === c.of.length - 1 && i > 0 ? z : nothingInFields(z))) : nothingInFields(c.of, c.k === 'record' && field);
  return y;
};
const sizeOf = (c) => { let n = 0; G.walk(c, undefined, () => n++); return n; };

async function documentOf(env, model, t) {
  const files = G.renderProject(model);
  const r = await G.generate(env, files);
  t.assert(r.doc !== undefined, () => `no document (exit ${r.exit}): ${r.stderr.slice(0, 600)} ${r.threw ? r.threw.stack : ''}\n${files['index.ts']}`);
  return { doc: r.doc, files };
}
// acceptance by the running code of `decls` and of every probe in `probes` ({name: codec})
function running(env, decls, probes) {
  const P = new G.Printer();
  const lines = [...decls.map((d) => `export const ${d.n} = ${P.codec(d.c)};`), ...Object.entries(probes).map(([n, c]) => `export const ${n} = ${P.codec(c)};`)];
  return G.evaluate(env, { 'index.ts': [...P.importLines(), ...lines].join('\n') });
}
function compare(t, env, doc, schema, codec, wide, vs, what) {
  let yes = 0, no = 0;
  for (const v of vs) {
    const ok = E(env).isRight(codec.decode(v));
    const okWide = E(env).isRight(wide.decode(v));
    const said = G.accepts(doc, schema, v);
    if (ok) t.assert(said, () => `${what}: the codec accepts ${JSON.stringify(v)}, the documented schema does not: ${show(schema)}`);
    t.assert(said === okWide, () => `${what}: ${JSON.stringify(v)} is ${okWide ? 'acceptable' : 'not acceptable'}, the documented schema says ${said}: ${show(schema)}`);
    if (okWide) yes++; else no++;
  }
  return [yes, no];
}

const declsArb = (fc, leaves) =>
  fc.tuple(
    G.codecArb(fc, { depth: 2, leaves, refs: [] }),
    G.codecArb(fc, { depth: 2, leaves, refs: ['Alpha'] }),
    G.codecArb(fc, { depth: 2, leaves, refs: ['Alpha', 'Beta'] }),
    fc.tuple(...[0, 1, 2].map(() => fc.option(fc.constantFrom('optional', 'union'), { freq: 5 }))),
  ).map(([a, b, c, how]) => [a, b, c].map((x, i) => (how[i] === 'optional' ? { k: 'optional', of: x } : how[i] === 'union' ? { k: 'union', of: [{ k: 'undefined' }, x] } : x))).map((cs) => cs.map((c, i) => ({ n: ['Alpha', 'Beta', 'Gamma'][i], c: tidy(c) })));

const schemaOf = (doc) => doc.paths['/thing/{id}'].post;

const ALL = [...G.EXACT, ...G.WIDE];

const SIGN = { Negative: (x) => x < 0, NonNegative: (x) => x >= 0, NonPositive: (x) => x <= 0, Positive: (x) => x > 0 };
const POOL = [null, true, false, 0, 1, -1, 2, -2, 1.5, -1.5, 0.25, -0.25, 1e12, -1e12, '', 'a', '0', '1', '-1', '1.5', [], [1], {}, { a: 1 }];
const isObj = (v) => v !== null && typeof v === 'object' && !Array.isArray(v);
const LIBRARY = [
  ...['Negative', 'NonNegative', 'NonPositive', 'Positive'].flatMap((s) => [
    { m: 'nb', n: s, want: (v) => typeof v === 'number' && SIGN[s](v) },
    ...(s === 'Positive' ? [] : [{ m: 'nb', n: s + 'Int', want: (v) => typeof v === 'number' && SIGN[s](v) }, { m: 'nb', n: s + 'IntFromString', want: (v) => typeof v === 'string' }]),
    { m: 'nb', n: s + 'FromString', want: (v) => typeof v === 'string' },
    { m: 'bi', n: s + 'BigInt', want: (v) => typeof v === 'number' && SIGN[s](v), ints: true, skipRun: true },
    { m: 'bi', n: s + 'BigIntFromString', want: (v) => typeof v === 'string' },
  ]),
  ...['NonZero', 'NonZeroInt', 'Zero'].map((n) => ({ m: 'nb', n, want: (v) => typeof v === 'number' })),
  ...['NonZeroFromString', 'NonZeroIntFromString', 'ZeroFromString', 'NaturalFromString'].map((n) => ({ m: 'nb', n, want: (v) => typeof v === 'string' })),
  ...['NonZeroBigInt', 'ZeroBigInt'].map((n) => ({ m: 'bi', n, want: (v) => typeof v === 'number', ints: true, skipRun: true })),
  ...['BigIntFromString', 'NonZeroBigIntFromString', 'ZeroBigIntFromString'].map((n) => ({ m: 'bi', n, want: (v) => typeof v === 'string' })),
  { m: 'bi', n: 'NonEmptyString', want: (v) => typeof v === 'string' && v !== '' },
  ...['NumberFromString', 'BigIntFromString', 'DateFromISOString', 'IntFromString', 'UUID'].map((n) => ({ m: 'tt', n, want: (v) => typeof v === 'string' })),
  { m: 'tt', n: 'JsonFromString', want: (v) => typeof v === 'string', skipRun: true }, // as built, it also reads anything JSON.parse converts to a string first
  ...['DateFromNumber', 'DateFromUnixTime'].map((n) => ({ m: 'tt', n, want: (v) => typeof v === 'number' })),
  { m: 'tt', n: 'BooleanFromNumber', want: (v) => v === 0 || v === 1, skipRun: true },
  { m: 'tt', n: 'BooleanFromString', want: (v) => typeof v === 'boolean', skipRun: true },
  { m: 'tt', n: 'NonEmptyString', want: (v) => typeof v === 'string' && v !== '' },
  { m: 'tt', n: 'Json', want: () => true },
  { m: 'tt', n: 'JsonRecord', want: isObj },
  { m: 'tt', n: 'date', want: (v) => typeof v === 'string', skipRun: true },
  { m: 't', n: 'bigint', want: (v) => typeof v === 'number', skipRun: true },
  { m: 't', n: 'unknown', want: () => true },
  { m: 't', n: 'any', want: () => true },
  { m: 't', n: 'object', want: isObj, skipRun: true },
  ...['string', 'number', 'boolean'].map((n) => ({ m: 't', n, want: (v) => typeof v === n })),
  ...['null', 'nullType'].map((n) => ({ m: 't', n, want: (v) => v === null })),
  { m: 't', n: 'UnknownRecord', want: isObj },
];
// as the whole schema, inside an array, and as a required field
const WRAPS = {
  alone: { c: (x) => x, v: (v) => v, want: (w) => w },
  array: { c: (x) => ({ k: 'array', of: x }), v: (v) => [v], want: (w) => w },
  field: { c: (x) => ({ k: 'type', props: [['f', x]] }), v: (v) => ({ f: v }), want: (w) => w },
  record: { c: (x) => ({ k: 'record', dom: { k: 'string' }, of: x }), v: (v) => ({ f: v }), want: (w) => w },
  nullable: { c: (x) => ({ k: 'union', of: [x, { k: 'null' }] }), v: (v) => v, want: (w, v) => w || v === null, skip: (n) => n === 'unknown' || n === 'any' || n === 'Json' },
};

module.exports = {
  rule: 'A case is a generated codec (or a small set of codecs referring to each other) rendered as TypeScript, given to the command line, and executed; 12 or more JSON values per schema, built from the codec and then damaged, are judged by both. Non-trivial: the codec has at least three nodes and the values include both acceptable and unacceptable ones. The enumerated part: every library codec the generator knows, in every wrapper.',
  assumptions: [
    'Reading of the document: `oneOf` as "any of", { nullable: true, enum: [] } as null, formats not checked.',
    'Codecs coded as strings or numbers are documented by their JSON type; where the two differ the reference is the same codec with those leaves widened.',
    'Not generated, because the generator documents them differently on purpose and its tests say so: a union of a type and its string-coded form (documented as the decoded type), a union with unknown, an intersection with an object without fields.',
    'io-ts-numbers and io-ts-bigint are not installed here; stand-ins written from the meaning of their names are used.',
  ],
  props: [
    {
      name: 'codec',
      runs: { quick: 2200, thorough: 22000 },
      arb: (fc) => fc.record({ c: fc.oneof(G.codecArb(fc, { leaves: G.EXACT }), G.codecArb(fc, { leaves: ALL })).map(tidy), seed: fc.integer() }),
      async check({ c, seed }, t, env) {
        const model = { decls: [], routes: [{ ...ROUTE, res: [[200, c]] }] };
        const { doc } = await documentOf(env, model, t);
        const r = running(env, [], { plain: c, wide: widen(c) });
        const schema = schemaOf(doc).responses['200'].content['application/json'].schema;
        const [yes, no] = compare(t, env, doc, schema, r.plain, r.wide, G.values(c, [], seed, 16), 'response');
        t.label(c.k);
        if (yes && no && sizeOf(c) >= 3) t.nontrivial();
      },
    },
    {
      name: 'references',
      runs: { quick: 1200, thorough: 12000 },
      arb: (fc) => fc.record({ decls: fc.oneof(declsArb(fc, G.EXACT), declsArb(fc, ALL)), body: G.codecArb(fc, { depth: 1, leaves: G.EXACT, refs: ['Alpha', 'Beta', 'Gamma'] }).map(tidy), seed: fc.integer() }).map((v) => {
        const all = tidyAll([...v.decls.map((d) => [d.n, d.c]), ['', v.body]]);
        return { ...v, decls: v.decls.map((d, i) => ({ ...d, c: all[i][1] })), body: all[v.decls.length][1] };
      }),
      async check({ decls, body, seed }, t, env) {
        const model = { decls, routes: [{ ...ROUTE, body: { c: body }, res: [[200, { k: 'ref', n: 'Gamma' }], [400, { k: 'ref', n: 'Beta' }]] }] };
        // an intersection or union written over references may meet the exclusions above after inlining
        for (const c of [body, ...decls.map((d) => d.c)]) if (mixes(c, decls)) t.exclude('a union or intersection that is consolidated once its references are read');
        const { doc } = await documentOf(env, model, t);
        const wides = decls.map((d) => ({ ...d, c: widen(d.c) }));
        const r = running(env, decls, { body });
        const w = running(env, wides, { body: widen(body) });
        const op = schemaOf(doc);
        let yes = 0, no = 0;
        const one = (schema, c, name) => { const [y, n] = compare(t, env, doc, schema, r[name], w[name], G.values(c, decls, seed, 12), name); yes += y; no += n; };
        one(op.requestBody.content['application/json'].schema, body, 'body');
        one(op.responses['200'].content['application/json'].schema, { k: 'ref', n: 'Gamma' }, 'Gamma');
        one(op.responses['400'].content['application/json'].schema, { k: 'ref', n: 'Beta' }, 'Beta');
        for (const d of decls) if (doc.components.schemas[d.n]) one({ $ref: '#/components/schemas/' + d.n }, d.c, d.n);
        const refs = JSON.stringify(doc.paths).match(/#\/components/g);
        if (refs) t.label('refs');
        if (yes && no && refs) t.nontrivial();
      },
    },
    {
      // with codecs that have no values in JSON anywhere: what is accepted is never ruled out
      name: 'nothing',
      runs: { quick: 800, thorough: 9000 },
      arb: (fc) => fc.record({ c: G.codecArb(fc, { leaves: [...G.EXACT, 'undefined', 'undefined', 'void', 'undefined'] }).map(tidy).map((c) => nothingInFields(c)), seed: fc.integer() }),
      async check({ c, seed }, t, env) {
        const model = { decls: [], routes: [{ ...ROUTE, body: { c }, res: [[200, c]] }] };
        const { doc, files } = await documentOf(env, model, t);
        const r = running(env, [], { plain: c });
        const op = schemaOf(doc);
        let yes = 0, nothing = 0;
        G.walk(c, [], (x) => { if (x.k === 'undefined' || x.k === 'void') nothing++; });
        for (const [what, at] of [['response', op.responses['200']], ['body', op.requestBody]]) {
          const schema = at && at.content['application/json'].schema;
          if (schema === undefined) { t.label('nothing documented'); continue; }
          for (const v of [{}, [], null, ...G.values(c, [], seed, 12)]) {
            if (!E(env).isRight(r.plain.decode(v))) continue;
            yes++;
            t.assert(G.accepts(doc, schema, v), () => `${what}: the codec accepts ${JSON.stringify(v)}, the documented schema does not: ${show(schema)}\n${files['index.ts']}`);
          }
        }
        if (yes && nothing) t.nontrivial();
      },
    },
    {
      name: 'parameters',
      runs: { quick: 1200, thorough: 12000 },
      arb: (fc) => {
        const leaf = fc.constantFrom(...G.WIDE.filter((k) => k !== 'DateFromNumber' && k !== 'DateFromUnixTime'), 'string', 'NonEmptyString').map((k) => ({ k }));
        const lit = fc.oneof(leaf, fc.constantFrom('a', 'b', 'on').map((v) => ({ k: 'lit', v })), fc.uniqueArray(fc.constantFrom(...G.KEYS), { minLength: 1, maxLength: 3 }).map((keys) => ({ k: 'keyof', keys })));
        const one = fc.oneof({ weight: 3, arbitrary: lit }, { weight: 1, arbitrary: lit.map((of) => ({ k: 'array', of })) }, { weight: 2, arbitrary: fc.array(lit, { minLength: 2, maxLength: 3 }).map((of) => ({ k: 'union', of })) }, { weight: 1, arbitrary: lit.map((of) => ({ k: 'union', of: [of, { k: 'array', of }] })) });
        const p = fc.oneof({ weight: 3, arbitrary: one }, { weight: 2, arbitrary: one.map((of) => ({ k: 'optional', of })) }, { weight: 2, arbitrary: fc.tuple(fc.array(one, { minLength: 1, maxLength: 3 }), fc.nat(3)).map(([xs, at]) => { const of = xs.slice(); of.splice(Math.min(at, of.length), 0, { k: 'undefined' }); return { k: 'union', of }; }) });
        const names = ['a', 'b', 'page', 'page-size', 'filter[name]', 'type', 'x', '0', 'é'];
        const ps = (max) => fc.uniqueArray(fc.tuple(fc.constantFrom(...names), p.map(noConsolidation)), { selector: (x) => x[0], maxLength: max });
        return fc.record({ query: ps(4), headers: ps(2), seed: fc.integer() });
      },
      async check({ query, headers, seed }, t, env) {
        const model = { decls: [], routes: [{ ...ROUTE, query, headers, res: [[200, { k: 'string' }]] }] };
        const { doc, files } = await documentOf(env, model, t);
        const route = G.evaluate(env, files).api.thing.post;
        const op = schemaOf(doc);
        let opt = 0;
        const r = G.prng(seed);
        const base = () => {
          const q = {}, h = {};
          for (const [ps, o] of [[query, q], [headers, h]]) for (const [n, c] of ps) o[n] = G.value(c, [], r);
          return { params: { id: 'x' }, query: q, headers: h };
        };
        for (const [ps, key, where] of [[query, 'query', 'query'], [headers, 'headers', 'header']]) {
          const documented = op.parameters.filter((x) => x.in === where);
          t.assert(show(documented.map((x) => x.name).sort()) === show(ps.map((x) => x[0]).sort()), () => `${where} parameters ${show(documented.map((x) => x.name))}, declared ${show(ps.map((x) => x[0]))}`);
          for (const [n, c] of ps) {
            const param = documented.find((x) => x.name === n);
            const req = base();
            for (const [m, x] of [...query, ...headers]) void m, void x;
            const full = { ...req, [key]: { ...req[key] } };
            delete full[key][n];
            const bare = E(env).isRight(route.request.decode(full));
            const ok = E(env).isRight(route.request.decode({ ...full, [key]: { ...full[key], [n]: G.value(c, [], r) } }));
            if (ok) { t.assert((param.required === true) === !bare, () => `${where} parameter ${n}: required is documented as ${param.required}, a request without it is ${bare ? 'accepted' : 'rejected'}`); if (bare) opt++; }
            const rr = running(env, [], { plain: c, wide: widen(c) });
            compare(t, env, doc, param.schema, rr.plain, rr.wide, G.values(c, [], seed, 8), `${where} parameter ${n}`);
          }
        }
        if (opt) t.label('optional');
        if (query.length + headers.length >= 2) t.nontrivial();
      },
    },
    {
      name: 'library',
      enumerate: () => LIBRARY.flatMap((l, i) => Object.keys(WRAPS).map((w) => ({ i, w, n: `${l.m}.${l.n}` }))),
      async check({ i, w }, t, env) {
        const l = LIBRARY[i], W = WRAPS[w];
        if (W.skip && W.skip(l.n)) return;
        t.nontrivial();
        const c = W.c({ k: 'libc', m: l.m, n: l.n });
        const { doc } = await documentOf(env, { decls: [], routes: [{ ...ROUTE, res: [[200, c]] }] }, t);
        const schema = schemaOf(doc).responses['200'].content['application/json'].schema;
        const codec = l.skipRun ? undefined : running(env, [], { it: c }).it;
        for (const v0 of POOL) {
          if (l.ints && typeof v0 === 'number' && !Number.isInteger(v0)) continue;
          const v = W.v(v0);
          const said = G.accepts(doc, schema, v);
          const want = W.want(l.want(v0), v0);
          t.assert(said === want, () => `${l.m}.${l.n} (${w}): ${JSON.stringify(v)} should ${want ? '' : 'not '}be acceptable; schema ${show(schema)}`);
          if (codec && E(env).isRight(codec.decode(v))) t.assert(said, () => `${l.m}.${l.n} (${w}): the codec accepts ${JSON.stringify(v)}; schema ${show(schema)}`);
          // bounds documented on a string-coded number hold for the numbers it stands for
          if (w === 'alone' && codec && typeof v0 === 'string' && schema.type === 'string' && E(env).isRight(codec.decode(v0)) && /Number|BigInt|Int|Negative|Positive|Zero/.test(l.n)) {
            const n = Number(v0);
            const low = schema.minimum === undefined || (schema.exclusiveMinimum ? n > schema.minimum : n >= schema.minimum);
            const high = schema.maximum === undefined || (schema.exclusiveMaximum ? n < schema.maximum : n <= schema.maximum);
            t.assert(low && high, () => `${l.m}.${l.n}: ${v0} is accepted, the documented bounds exclude it: ${show(schema)}`);
          }
        }
      },
    },
  ],
};

// after references are read: a union with a type and its string-coded form, an empty object in an
// intersection
function mixes(c, decls) {
  let bad = false;
  G.walk(c, decls, (x) => {
    if (x.k === 'inter' || x.k === 'union') {
      const ls = [];
      const look = (y, d = 0) => { if (d > 30) return; if (y.k === 'ref') look(decls.find((z) => z.n === y.n).c, d + 1); else if (['union', 'inter', 'optional', 'brand', 'exact'].includes(y.k)) (Array.isArray(y.of) ? y.of : [y.of]).forEach((z) => look(z, d + 1)); else ls.push(y); };
      look(x);
      if (x.k === 'union' && ls.some((l) => l.k === 'number') && ls.some((l) => l.k === 'NumberFromString' || l.k === 'IntFromString')) bad = true;
      if (x.k === 'inter' && ls.some((l) => l.props && l.props.length === 0)) bad = true;
    }
  });
  return bad;
}
void has;
