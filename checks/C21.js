'use strict';
const G = require('../lib/gen');
const { show } = require('../lib/ser');

const has = (o, k) => Object.prototype.hasOwnProperty.call(o, k);
const isObj = (v) => v !== null && typeof v === 'object' && !Array.isArray(v);
const og = (env) => env.pkg('openapi-generator');
const same = (a, b) => JSON.stringify(a) === JSON.stringify(b);

// ---- what a Schema means -----------------------------------------------------------------------------------
// `integer` is documented as a number, and a tuple as anything (both pinned by the tests of the generator).
function means(schemas, s, v) {
  const rec = (x, y) => means(schemas, x, y);
  switch (s.type) {
    case 'any': case 'tuple': return true;
    case 'undefined': return false;
    case 'null': return v === null;
    case 'ref': return rec(schemas[s.location + '#' + s.name], v);
    case 'union': return s.schemas.some((x) => rec(x, v));
    case 'intersection': return s.schemas.every((x) => rec(x, v));
    case 'boolean': case 'string': case 'number': case 'integer':
      if (typeof v !== (s.type === 'integer' ? 'number' : s.type)) return false;
      if (s.enum && !s.enum.includes(v)) return false;
      if (typeof v === 'string') return (s.minLength === undefined || [...v].length >= s.minLength) && (s.maxLength === undefined || [...v].length <= s.maxLength) && (s.pattern === undefined || new RegExp(s.pattern).test(v));
      if (typeof v === 'number')
        return (s.minimum === undefined || (s.exclusiveMinimum ? v > s.minimum : v >= s.minimum)) && (s.maximum === undefined || (s.exclusiveMaximum ? v < s.maximum : v <= s.maximum)) && (s.multipleOf === undefined || Number.isInteger(v / s.multipleOf));
      return true;
    case 'array':
      return Array.isArray(v) && v.every((x) => rec(s.items, x)) && (s.minItems === undefined || v.length >= s.minItems) && (s.maxItems === undefined || v.length <= s.maxItems) && (!s.uniqueItems || new Set(v.map((x) => JSON.stringify(x))).size === v.length);
    case 'object':
    case 'record': {
      if (!isObj(v)) return false;
      const n = Object.keys(v).length;
      if ((s.minProperties !== undefined && n < s.minProperties) || (s.maxProperties !== undefined && n > s.maxProperties)) return false;
      if (s.type === 'object')
        return Object.entries(s.properties).every(([k, x]) => (has(v, k) ? rec(x, v[k]) : !s.required.includes(k) || optional(x))) ;
      if (s.domain === undefined || s.domain.enum === undefined) return Object.values(v).every((x) => rec(s.codomain, x));
      return s.domain.enum.every((k) => (has(v, k) ? rec(s.codomain, v[k]) : optional(s.codomain)));
    }
    default: throw new Error('type ' + s.type);
  }
}
const optional = (s) => s.type === 'undefined' || (s.type === 'union' && s.schemas.some(optional));

// ---- schemas -------------------------------------------------------------------------------------------------
const STR = ['', 'a', 'b', 'ab', 'abc', 'red', 'blue ish', 'é', '1', 'true', 'null', 'x-y', 'toString', '__proto__x', 'A', 'RED', 'True', 'a '];
const NUM = [0, 1, -1, 2, 3, 6, 1.5, -2.5, 100];
const KEYS = ['id', 'a', 'b', 'name', 'x-trace', 'constructor', 'toString', '1', '10', '2', 'a b', 'type', 'properties', 'ID', 'A'];
const LOCS = ['/', '/tmp'];
const NAMES = ['Alpha', 'Beta', 'Gamma', 'ALPHA'];

// Choices are read off a list, all further ones are the first: a shorter list or smaller numbers make simpler schemas.
function reader(choices) {
  let i = 0;
  const next = () => (i < choices.length ? choices[i++] : 0) / 65536;
  return { next, int: (n) => Math.floor(next() * n), pick: (xs) => xs[Math.floor(next() * xs.length)], chance: (p) => next() > 1 - p };
}
function build(choices, size) {
  const r = reader(choices);
  let token = 0;
  const tokens = [];
  let inside = 0; // an intersection
  const word = () => { if (tokens.length && r.chance(0.35)) return r.pick(tokens); const w = `tok${++token}tok`; tokens.push(w); return w; };
  const tag = (name, text) => ({ tag: name, name: text, type: '', optional: false, description: '', problems: [], source: [] });
  const said = (p = 0.25) => (r.chance(p) ? (inside || r.chance(0.5) ? { title: word() } : r.chance(0.4) ? { description: word() } : r.chance(0.4) ? { format: word(), deprecated: true } : { comment: r.chance(0.6) ? { description: word(), tags: [], source: [], problems: [] } : { description: '', tags: [tag('deprecated', '')], source: [], problems: [] } }) : {});
  const about = (e) => ({ ...(r.chance(0.2) ? { enumDescriptions: Object.fromEntries(e.map((x) => [x, word()])) } : {}), ...(r.chance(0.15) ? { enumsDeprecated: [word()] } : {}) });
  const leaf = (refs, pure) => {
    const k = r.int(refs.length && !pure ? 12 : 10);
    const meta = pure ? () => ({}) : said;
    switch (k) {
      case 0: return { type: 'string', ...(r.chance(0.5) ? { primitive: true } : { ...(r.chance(0.4) ? { minLength: 1 + r.int(2) } : {}), ...(r.chance(0.3) ? { maxLength: 2 + r.int(3) } : {}), ...(r.chance(0.2) ? { pattern: r.pick(['^a', 'e', '^[a-z]*$']) } : {}), ...meta() }) };
      case 1: return { type: 'number', ...(r.chance(0.5) ? { primitive: true } : { ...(r.chance(0.4) ? { minimum: r.pick([0, 1, -1]), ...(r.chance(0.4) ? { exclusiveMinimum: true } : {}) } : {}), ...(r.chance(0.3) ? { maximum: r.pick([2, 3, 6]), ...(r.chance(0.4) ? { exclusiveMaximum: true } : {}) } : {}), ...(r.chance(0.2) ? { multipleOf: r.pick([2, 3, 0.5]) } : {}), ...meta() }) };
      case 2: return { type: 'integer', ...meta() };
      case 3: return { type: 'boolean', ...(r.chance(0.5) ? { primitive: true } : {}) };
      case 4: case 5: { const n = 1 + r.int(3); const e = []; for (let i = 0; i < n; i++) { const x = r.pick(STR); if (!e.includes(x)) e.push(x); } return { type: 'string', enum: e, ...about(e), ...meta() }; }
      case 6: { const n = 1 + r.int(3); const e = []; for (let i = 0; i < n; i++) { const x = r.pick(NUM); if (!e.includes(x)) e.push(x); } return { type: r.pick(['number', 'integer']), enum: e, ...about(e), ...meta() }; }
      case 7: return { type: 'boolean', enum: [r.chance(0.5)] };
      case 8: return pure ? { type: 'string' } : r.chance(0.5) ? { type: 'any' } : { type: 'tuple', schemas: [{ type: 'string' }, { type: 'number' }] };
      case 9: return { type: 'null' };
      default: { const [loc, n] = r.pick(refs); return { type: 'ref', name: n, location: loc, ...said(0.2) }; }
    }
  };
  const isBool = (s) => s.type === 'boolean' || (s.type === 'union' && s.schemas.every(isBool));
  const schema = (d, refs, at = '') => {
    // at: '' anywhere, 'field' (may be optional), 'union' or 'inter' (member of one)
    const k = d <= 0 ? 0 : r.int(10);
    switch (k) {
      case 0: case 1: case 2: {
        let s = leaf(refs, false);
        while ((at === 'union' && s.type === 'any') || (at === 'union' && s.type === 'tuple') || (at === 'inter' && s.type === 'undefined')) s = leaf(refs, false);
        return s;
      }
      case 3: return { type: 'array', items: schema(d - 1, refs), ...(r.chance(0.2) ? { minItems: 1 } : {}), ...(r.chance(0.2) ? { maxItems: 2 } : {}), ...(r.chance(0.15) ? { uniqueItems: true } : {}) };
      case 4: case 5: {
        const n = inside ? 1 + r.int(3) : r.int(4);
        const properties = {}, required = [];
        for (let i = 0; i < n; i++) {
          const key = r.pick(KEYS);
          if (!has(properties, key) && r.chance(0.7)) required.push(key);
          properties[key] = schema(d - 1, refs, 'field');
        }
        return { type: 'object', properties, required, ...(r.chance(0.15) ? { minProperties: 1 } : {}), ...(r.chance(0.15) ? { maxProperties: 2 } : {}), ...said() };
      }
      case 6: {
        const n = 1 + r.int(2); const e = []; for (let i = 0; i < n; i++) { const x = r.pick(KEYS); if (!e.includes(x)) e.push(x); }
        const domain = r.chance(0.3) ? undefined : r.chance(0.3) ? { type: 'string', primitive: true } : { type: 'string', enum: e };
        return { type: 'record', ...(domain ? { domain } : {}), codomain: schema(d - 1, refs, domain && domain.enum ? 'field' : ''), ...(r.chance(0.15) ? { minProperties: 1 } : {}), ...said() };
      }
      case 7: {
        const n = 2 + r.int(2);
        inside++;
        const of = Array.from({ length: n }, () => schema(d - 1, refs, 'inter'));
        inside--;
        return { type: 'intersection', schemas: of, ...said(0.2) };
      }
      default: {
        const n = 1 + r.int(4);
        let of = Array.from({ length: n }, () => schema(d - 1, refs, 'union'));
        // all of them booleans, not one literal: documented as any boolean
        if (of.every(isBool) && r.chance(0.5)) of = [{ type: 'boolean', enum: [true] }, { type: 'boolean', enum: [false] }];
        if (at === 'field' && r.chance(0.5)) of.splice(r.int(of.length + 1), 0, { type: 'undefined' });
        return { type: 'union', schemas: of, ...(of.filter((s) => s.type === 'object' || s.type === 'array' || s.type === 'record').length > 1 ? said(0.4) : {}) };
      }
    }
  };
  const schemas = {}, refs = [];
  const mapping = {};
  const nrefs = r.int(4);
  for (let i = 0; i < nrefs; i++) {
    const loc = r.pick(LOCS), n = r.pick(NAMES);
    if (has(schemas, loc + '#' + n)) continue;
    schemas[loc + '#' + n] = schema(2, refs.slice());
    refs.push([loc, n]);
    // two of the same name are told apart by the mapping
    if (refs.filter(([, m]) => m === n).length > 1) { mapping[loc] = { ...(mapping[loc] || {}), [n]: n + '2' }; }
  }
  const main = schema(size, refs);

  return { schemas, refs, main, mapping, tokens };
}
const nameOf = (mapping, loc, n) => (mapping[loc] && mapping[loc][n]) || n;

function value(schemas, s, r, d = 0) {
  const rec = (x) => value(schemas, x, r, d + 1);
  switch (s.type) {
    case 'any': case 'tuple': return G.prng(r.int(1e9)).pick([null, 1, 'a', {}, []]);
    case 'undefined': case 'null': return null;
    case 'ref': return rec(schemas[s.location + '#' + s.name]);
    case 'string': return r.pick(s.enum || STR);
    case 'number': case 'integer': return r.pick(s.enum || NUM);
    case 'boolean': return s.enum ? s.enum[0] : r.chance(0.5);
    case 'array': return Array.from({ length: s.minItems !== undefined ? 1 + r.int(2) : r.int(3) }, () => rec(s.items));
    case 'object': { const o = {}; for (const [k, x] of Object.entries(s.properties)) if ((s.required.includes(k) && !optional(x)) || r.chance(0.6)) o[k] = rec(x); if (r.chance(0.2)) o.zz = 1; return o; }
    case 'record': { const o = {}; const ks = s.domain && s.domain.enum ? s.domain.enum : [r.pick(KEYS), r.pick(KEYS)].slice(0, r.int(3)); for (const k of ks) if (!optional(s.codomain) || r.chance(0.6)) o[k] = rec(s.codomain); return o; }
    case 'union': { const of = s.schemas.filter((x) => x.type !== 'undefined'); return of.length ? rec(r.pick(of)) : null; }
    case 'intersection': { const vs = s.schemas.map(rec); return vs.every(isObj) ? Object.assign({}, ...vs) : r.pick(vs); }
    default: throw new Error('type ' + s.type);
  }
}
const freeze = (x) => { if (x !== null && typeof x === 'object' && !Object.isFrozen(x)) { Object.freeze(x); Object.values(x).forEach(freeze); } return x; };

const INFO = { title: 't', version: '1' };
const route = (over) => ({ path: '/x', method: 'GET', parameters: [], response: {}, ...over });

module.exports = {
  rule: 'a schema of at least 4 nodes, with a value that it accepts and a value that it does not',
  assumptions: [
    'Schemas are generated directly in the form that custom codec definitions and the library functions take (all kinds of types, references, constraints, comments), 0-3 of them shared, and read by an independent evaluator.',
    'As pinned by the tests of the generator: integers are documented as numbers, tuples as anything, unions with an `any` member by the other members (not generated), unions of different booleans as any boolean.',
    'An object without fields inside an intersection, undefined outside of fields, and the metadata of consolidated unions and of `null` are not generated.',
  ],
  props: [
    {
      name: 'schemas',
      runs: { quick: 6000, thorough: 120000 },
      arb: (fc) => fc.record({ choices: fc.array(fc.integer({ min: 0, max: 65535 }), { maxLength: 160, size: 'max' }), size: fc.constantFrom(2, 3, 4, 1), vseed: fc.integer() }),
      sample: (c) => ({ vseed: c.vseed, ...build(c.choices, c.size) }),
      check(c, t, env) {
        const { optimize, convertRoutesToOpenAPI, getRefs } = og(env);
        const m = build(c.choices, c.size);
        const { schemas, main, mapping, refs, tokens } = m;
        let nodes = 0;
        JSON.stringify(main, (k, v) => { if (isObj(v) && v.type) nodes++; return v; });
        const before = JSON.stringify(m);
        freeze(m);

        const components = Object.fromEntries(refs.map(([l, n]) => [nameOf(mapping, l, n), schemas[l + '#' + n]]));
        const routes = [
          route({ path: '/b', method: 'POST', body: main, response: { 200: main, 404: { type: 'string' } } }),
          route({ path: '/b', method: 'GET', response: { 201: main } }),
          route({ path: '/a/{id}', method: 'PUT', parameters: [{ type: 'query', name: 'q', schema: main, required: !optional(main) }, { type: 'path', name: 'id', schema: { type: 'string' }, required: true }], response: { 200: { type: 'any' } } }),
          route({ path: '/c', method: 'DELETE', body: { type: 'object', properties: { deep: main }, required: ['deep'] }, response: { 500: { type: 'array', items: main } } }),
        ];
        freeze(routes);
        const doc = convertRoutesToOpenAPI(INFO, [], routes, components, mapping);
        const again = convertRoutesToOpenAPI(INFO, [], [...routes].reverse(), Object.fromEntries(Object.entries(components).reverse()), mapping);
        t.assert(JSON.stringify(m) === before, 'a schema was changed');
        const canon = (x) => JSON.stringify(x, (k, v) => (isObj(v) ? Object.fromEntries(Object.keys(v).sort().map((q) => [q, v[q]])) : v));
        t.assert(canon(doc) === canon(again), () => `the document depends on the order of routes and schemas\n${canon(doc)}\n${canon(again)}`);
        t.assert(same(Object.keys(doc.paths), ['/a/{id}', '/b', '/c']) && same(Object.keys(doc.paths['/b']), ['get', 'post']), () => `paths ${show(doc.paths)}`);

        const once = optimize(main);
        t.assert(canon(once) === canon(optimize(main)) && JSON.stringify(m) === before, 'optimizing is not repeatable');

        const where = [
          ['the request body', doc.paths['/b'].post.requestBody.content['application/json'].schema, main, (v) => v],
          ['a response', doc.paths['/b'].get.responses[201].content['application/json'].schema, main, (v) => v],
          ['a parameter', doc.paths['/a/{id}'].put.parameters[0].schema, main, (v) => v],
          ['a field', doc.paths['/c'].delete.requestBody.content['application/json'].schema, main, (v) => ({ deep: v })],
          ['a list', doc.paths['/c'].delete.responses[500].content['application/json'].schema, main, (v) => [v]],
          ...refs.map(([l, n]) => [`component ${n}`, doc.components.schemas[nameOf(mapping, l, n)], schemas[l + '#' + n], (v) => v]),
        ];
        const count = (text, w) => text.split(w).length - 1;
        const r = G.prng(c.vseed);
        let yes = 0, no = 0;
        for (const [what, said, s, wrap] of where) {
          const text = JSON.stringify(said);
          if (s === main && what !== 'a parameter') for (const w of tokens.filter((w) => JSON.stringify(main).includes(w))) t.assert(text.includes(w), () => `${what} does not mention ${w}: ${text}\n${JSON.stringify(s)}`);
          // (a record with known keys is documented by a property for each)
          if (s === main && what !== 'a parameter' && !/"domain":\{[^}]*"enum"/.test(JSON.stringify(main))) for (const w of tokens) t.assert(count(text, w) <= count(JSON.stringify(main), w), () => `${what} mentions ${w} more often than it is said: ${text}\n${JSON.stringify(s)}`);
          for (let i = 0; i < 14; i++) {
            let v = value(schemas, s, r);
            if (i % 2) v = G.mutate(v, r);
            const want = means(schemas, s, v);
            t.assert(G.accepts(doc, said, wrap(v)) === want, () => `${what}: ${JSON.stringify(v)} is ${want ? 'acceptable' : 'not acceptable'}, documented: ${text}\n${JSON.stringify(s)}`);
            if (s === main) { t.assert(means(schemas, once, v) === want, () => `optimized: ${JSON.stringify(v)} was ${want}: ${JSON.stringify(once)}\n${JSON.stringify(s)}`); if (want) yes++; else no++; }
          }
        }
        // every reference, in order, from where it can be found
        const found = [];
        const walk = (s) => { if (s.type === 'ref') found.push(s); (s.schemas || []).forEach(walk); if (s.items) walk(s.items); if (s.codomain) walk(s.codomain); if (s.properties) Object.values(s.properties).forEach(walk); };
        walk(main);
        t.assert(same(getRefs(main, {}), found), () => `references ${show(getRefs(main, {}))} of ${JSON.stringify(main)}`);
        const out = (s) => JSON.parse(JSON.stringify(s, (k, v) => (k === 'location' ? 'pkg' : v)));
        t.assert(getRefs(out(main), {}).length === 0, 'references to packages that are not known');
        t.assert(same(getRefs(out(main), { Alpha: '/p/a.ts' }), found.filter((f) => f.name === 'Alpha').map((f) => ({ ...f, location: '/p/a.ts' }))), 'references to packages that are known');
        t.label(main.type);
        if (nodes >= 4 && yes && no) t.nontrivial();
      },
    },
  ],
};
