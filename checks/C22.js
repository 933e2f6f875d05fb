'use strict';
const http = require('http');
const G = require('../lib/gen');
const P = require('../lib/projects');
const { show } = require('../lib/ser');

const JSON_TYPE = 'application/json';
const PARTS = ['params', 'query', 'headers'];
const WHERE = { params: 'path', query: 'query', headers: 'header' };
// how: 0-2 are ways to write a number; 3 (the status by name) is a listed finding and is not generated
const NAME_OF = { 200: 'ok', 400: 'invalidRequest', 404: 'notFound' };
const typed = (props) => ({ k: 'type', props });

// ---- requests: { k:'http', params, query, headers, body } | { k:'body', c } | { k:'inter'|'union', of, named } ----
function requestArb(fc) {
  const leaf = fc.oneof(fc.constantFrom('string', 'NonEmptyString').map((k) => ({ k })), fc.constantFrom('a', 'b', 'on').map((v) => ({ k: 'lit', v })), fc.uniqueArray(fc.constantFrom(...G.KEYS), { minLength: 1, maxLength: 3 }).map((keys) => ({ k: 'keyof', keys })));
  const p = fc.oneof({ weight: 3, arbitrary: leaf }, { weight: 2, arbitrary: leaf.map((of) => ({ k: 'optional', of })) }, { weight: 1, arbitrary: leaf.map((of) => ({ k: 'array', of })) });
  const ps = (names, max, c = p) => fc.uniqueArray(fc.tuple(fc.constantFrom(...names), c), { selector: (x) => x[0], maxLength: max });
  const prop = G.codecArb(fc, { depth: 1, leaves: G.EXACT }).map(P.noEmpty);
  const size = (f, names, ...maxs) => fc.oneof({ weight: 7, arbitrary: f(names, maxs[0]) }, { weight: 1, arbitrary: f(names, maxs[1]) });
  const few = (x) => fc.oneof({ weight: 6, arbitrary: fc.array(x, { minLength: 2, maxLength: 3 }) }, { weight: 1, arbitrary: fc.array(x, { minLength: 4, maxLength: 6 }) });
  const part = fc.record({ k: fc.constant('http'), params: ps(['id', 'key', 'a', 'ID', 'i'], 2, leaf), query: size(ps, ['a', 'A', 'ab', 'b', 'id', 'page', 'page-size', 'filter[x]', 'é', '0', 'union'], 3, 7), headers: size(ps, ['x-a', 'x-ab', 'y', 'X-Upper', 'a', 'id', 'union', 'x', 'b'], 2, 6), body: fc.option(ps(['a', 'b', 'data', 'x y'], 3, prop).filter((x) => x.length > 0), { nil: undefined }) });
  const body = prop.map((c) => ({ k: 'body', c }));
  const named = fc.boolean();
  return fc.oneof(
    { weight: 3, arbitrary: part },
    { weight: 1, arbitrary: part.map((x) => ({ ...x, k: 'plain' })) },
    { weight: 2, arbitrary: fc.tuple(part, body, named).map(([a, b, named]) => ({ k: 'inter', of: [{ ...a, body: undefined }, b], named })) },
    { weight: 2, arbitrary: fc.tuple(few(part), named).map(([of, named]) => ({ k: 'inter', of: of.map((x, i) => apart(x, i)), named })) },
    { weight: 2, arbitrary: fc.tuple(few(part), named).map(([of, named]) => ({ k: 'inter', of, named })) },
    { weight: 2, arbitrary: fc.tuple(few(part), named).map(([of, named]) => ({ k: 'union', of: of.map((x) => ({ ...x, params: of[0].params })), named })) },
    { weight: 1, arbitrary: fc.tuple(fc.array(part, { minLength: 2, maxLength: 2 }), part, named).map(([of, more, named]) => ({ k: 'inter', of: [{ k: 'union', of: of.map((x) => ({ ...x, params: [] })), named }, apart(more, 7)], named })) },
  );
}
// distinct names in every member of an intersection
const apart = (x, i) => ({ ...x, ...Object.fromEntries(PARTS.map((k) => [k, x[k].map(([n, c]) => [n + i, c])])) });
const partsOf = (r) => (r.k === 'inter' || r.k === 'union' ? r.of.flatMap(partsOf) : [r]);

// a parameter that several members declare has to satisfy them all
function merged(ps) {
  const out = [];
  for (const p of ps) {
    const same = out.find((q) => q.in === p.in && q.name === p.name);
    if (same) { same.c = { k: 'inter', of: [...(same.c.many ? same.c.of : [same.c]), p.c], many: true }; same.required = same.required || p.required; } else out.push({ ...p });
  }
  return out;
}

// what the request has to be documented as
function expectedOf(r) {
  if (r.k === 'body') return { parameters: [], bodies: r.c };
  if (r.k === 'http' || r.k === 'plain') return { parameters: PARTS.flatMap((k) => r[k].map(([name, c]) => ({ in: WHERE[k], name, c, required: !G.acceptsUndefined(c, []) }))), bodies: r.body && typed(r.body) };
  const each = r.of.map(expectedOf);
  const bodies = each.map((e) => e.bodies).filter(Boolean);
  if (r.k === 'inter') return { parameters: merged(each.flatMap((e) => e.parameters)), bodies: bodies.length > 1 ? { k: 'inter', of: bodies } : bodies[0] };
  const parameters = [];
  if (r.of.some((x) => x.query.length || x.written)) parameters.push({ in: 'query', name: 'union' });
  const headers = new Set();
  for (const x of r.of) for (const [n, c] of x.headers) if (!headers.has(n)) { headers.add(n); parameters.push({ in: 'header', name: n, c }); }
  const from = r.of.find((x) => x.params.length);
  if (from) for (const [name, c] of from.params) parameters.push({ in: 'path', name, c, required: true });
  return { parameters, bodies: bodies.length > 1 ? { k: 'union', of: bodies } : bodies[0] };
}
function source(model) {
  const pr = new G.Printer({ imports: { h: model.h } });
  const lines = [];
  let n = 0;
  const named = (r, text) => { const k = `Part${n++}`; lines.push(`const ${k} = ${text};`); return k; };
  const obj = (r) => [...PARTS.filter((k) => r[k].length).map((k) => [k, r[k]]), ...(r.body ? [['body', r.body]] : [])];
  const req = (r, ref) => {
    let text;
    if (r.k === 'http') text = `${pr.lib('h', 'httpRequest')}({ ${obj(r).map(([k, ps]) => `${k}: ${pr.props(ps, '    ')}`).join(', ')} })`;
    else if (r.k === 'plain') text = `${pr.lib('t', 'type')}({ ${obj(r).map(([k, ps]) => `${k}: ${pr.codec(typed(ps), '    ')}`).join(', ')} })`;
    else if (r.k === 'body') text = `${pr.lib('t', 'type')}({ body: ${pr.codec(r.c, '    ')} })`;
    else text = `${pr.lib('t', r.k === 'inter' ? 'intersection' : 'union')}([${r.of.map((x) => req(x, r.named)).join(', ')}])`;
    return ref ? named(r, text) : text;
  };
  const keyed = (code, how) => (how === 3 ? NAME_OF[code] : how === 1 ? `'${code}'` : how === 2 ? `[${code}]` : `${code}`);
  const routes = model.routes.map((r, i) => {
    const text = `${pr.lib('h', 'httpRoute')}({\n  path: '${r.path}',\n  method: '${r.method}',\n  request: ${req(r.request, r.named)},\n  response: { ${r.res.map(([code, c]) => `${keyed(code, r.keys)}: ${pr.codec(c)}`).join(', ')} },\n})`;
    lines.push(`const Route${i} = ${text};`);
    return `Route${i}`;
  });
  const specs = [...new Set(model.routes.map((r) => r.spec))].sort();
  for (const s of specs) {
    const url = model.urls[s];
    if (url) lines.push(`/**\n * ${url[0]}\n *\n * @url ${url[1]}\n */`);
    const groups = new Map();
    model.routes.forEach((r, i) => { if (r.spec === s) { if (!groups.has(r.action)) groups.set(r.action, []); groups.get(r.action).push(`k${i}: ${routes[i]}`); } });
    lines.push(`export const api${s} = ${pr.lib('h', 'apiSpec')}({\n${[...groups].map(([a, rs]) => `  ${JSON.stringify(a)}: { ${rs.join(', ')} },\n`).join('')}});`);
  }
  // things that are no specs
  const none = `({ no: { get: ${pr.lib('h', 'httpRoute')}({ path: '/decoy', method: 'GET', request: ${pr.lib('h', 'httpRequest')}({}), response: { 200: ${pr.lib('t', 'string')} } }) } })`;
  const before = [];
  if (model.decoy === 1) { before.push("import { apiSpec as foreignSpec } from 'some-lib';"); lines.push(`export const decoy = foreignSpec${none};`); }
  if (model.decoy === 2) { before.push("import * as some from 'some-lib';"); lines.push(`export const decoy = some.apiSpec${none};`); }
  if (model.decoy === 3) lines.push(`const own = { apiSpec: (x: any) => x };`, `export const decoy = own.apiSpec${none};`);
  if (model.decoy === 4) lines.push(`function makeSpec(x: any) { return x; }`, `export const decoy = makeSpec${none};`, `export const decoy2 = makeSpec();`, `export let decoy3;`);
  if (model.decoy === 5) { before.push("import * as h2 from '@api-ts/io-ts-http';"); lines.push(`export const decoy = h2.httpRoute${none};`); }
  // routes that no spec uses
  lines.push(`export const unused = ${pr.lib('h', 'httpRoute')}({ path: '/unused', method: 'GET', request: ${pr.lib('h', 'httpRequest')}({}), response: { 200: ${pr.lib('t', 'string')} } });`);
  return { 'index.ts': [...pr.importLines(), ...before, ...lines].join('\n') };
}
function accepting(env, codecs) {
  const pr = new G.Printer();
  const lines = Object.entries(codecs).map(([n, c]) => `export const ${n} = ${pr.codec(c)};`);
  return G.evaluate(env, { 'index.ts': [...pr.importLines(), ...lines].join('\n') });
}

const PATHS = ['/', '/a', '/a/', '/a/b', '/A', '/ab', '/users/{id}', '/a/{id}/b/{key}', '/{id}', '/{name}', '/users/{key}', '/a/{key}/b/{id}', '/api/v2/x.json', '/a-b/c_d', '/é'];
const METHODS = ['GET', 'POST', 'PUT', 'DELETE', 'PATCH', 'OPTIONS', 'HEAD', 'get', 'post'];

module.exports = {
  rule: 'A case is a generated set of 1-8 routes in one or two API specs, with requests given as httpRequest, as intersections and unions of requests (written in place or as constants) or as a plain type; the documented operations are compared with the description they were rendered from. Non-trivial: at least two parameters or a body in some route, and two routes or a combined request.',
  assumptions: [
    'A union of requests is documented by the generator\'s convention: one exploded query parameter named "union", the headers of all members, the path parameters of the first member that has any. Whether such headers are required is not checked.',
    'Schemas are compared with the codecs by judging 8 JSON values each; C20 examines schemas in depth.',
  ],
  props: [
    {
      name: 'routes',
      runs: { quick: 1500, thorough: 15000 },
      arb: (fc) => {
        const inner = G.codecArb(fc, { depth: 1, leaves: G.EXACT }).map(P.noEmpty);
        const routeArb = (big) => fc.record({
          path: fc.constantFrom(...PATHS),
          method: fc.constantFrom(...METHODS),
          request: requestArb(fc),
          named: fc.boolean(),
          res: fc.uniqueArray(fc.tuple(fc.constantFrom(...Object.keys(http.STATUS_CODES).map(Number)), inner), { selector: (x) => x[0], minLength: 1, ...(big ? { maxLength: 9 } : { maxLength: 3 }) }),
          keys: fc.nat(2),
          spec: fc.nat(1),
          action: fc.constantFrom('api.v1.thing', 'other', 'x y'),
        });
        const routesArb = (big, minLength, maxLength) => fc.uniqueArray(routeArb(big), { minLength, maxLength, selector: (r) => r.method.toLowerCase() + ' ' + r.path });
        return fc.record({
          routes: fc.oneof({ weight: 8, arbitrary: routesArb(false, 1, 4) }, { weight: 1, arbitrary: routesArb(true, 1, 3) }, { weight: 1, arbitrary: routesArb(false, 5, 8) }),
          urls: fc.tuple(...[0, 1].map(() => fc.option(fc.tuple(fc.constantFrom('Main server', 'Other one'), fc.constantFrom('https://a.example/v1', '/api')), { nil: undefined }))),
          seed: fc.integer(),
          h: fc.constantFrom('star', 'named', 'alias'),
          decoy: fc.nat(8),
        });
      },
      async check(model, t, env) {
        const files = source(model);
        const { doc } = await P.docOf(env, files, t);
        const src = () => '\n' + files['index.ts'].slice(0, 4000);
        const E = env.req('fp-ts/Either');
        const want = model.routes.map((r) => r.method.toLowerCase() + ' ' + r.path).sort();
        const got = Object.entries(doc.paths).flatMap(([p, ops]) => Object.keys(ops).map((m) => m + ' ' + p)).sort();
        t.assert(show(got) === show(want), () => `documented operations ${show(got)}, declared ${show(want)}${src()}`);
        const servers = model.urls.map((u, s) => model.routes.some((r) => r.spec === s) && u && { description: u[0], url: u[1] }).filter(Boolean);
        t.assert(show((doc.servers || []).map((s) => [s.url, s.description])) === show(servers.map((s) => [s.url, s.description])), () => `servers ${show(doc.servers)}, declared ${show(servers)}${src()}`);
        let busy = false;
        for (const r of model.routes) {
          const op = doc.paths[r.path][r.method.toLowerCase()];
          const name = `${r.method} ${r.path}`;
          const e = expectedOf(r.request);
          const key = (p) => `${p.in} ${p.name}`;
          t.assert(show(op.parameters.map(key).sort()) === show(e.parameters.map(key).sort()), () => `${name}: documented parameters ${show(op.parameters.map(key))}, declared ${show(e.parameters.map(key))}${src()}`);
          const codecs = {};
          const judge = (schema, c, id, what) => {
            const codec = codecs[id];
            for (const v of G.values(c, [], model.seed, 8)) {
              const x = E.isRight(codec.decode(v)), y = G.accepts(doc, schema, v);
              t.assert(x === y, () => `${name} ${what}: ${JSON.stringify(v)} is ${x ? '' : 'not '}acceptable; schema ${show(schema)}${src()}`);
            }
          };
          const list = {};
          e.parameters.forEach((p, i) => { if (p.c) list['p' + i] = p.c; });
          r.res.forEach(([, c], i) => (list['r' + i] = c));
          if (e.bodies) list.body = e.bodies;
          Object.assign(codecs, accepting(env, list));
          e.parameters.forEach((p, i) => {
            const d = op.parameters.find((q) => key(q) === key(p));
            if (p.required !== undefined) t.assert((d.required === true) === p.required, () => `${name}: ${key(p)} is documented as ${d.required ? '' : 'not '}required${src()}`);
            if (p.c) judge(d.schema, p.c, 'p' + i, key(p));
            else t.assert(d.style === 'form' && d.explode === true, () => `${name}: the query of a union is documented as ${show(d)}${src()}`);
          });
          t.assert((op.requestBody !== undefined) === (e.bodies !== undefined), () => `${name}: a body is ${op.requestBody ? '' : 'not '}documented${src()}`);
          if (e.bodies) {
            t.assert(show(Object.keys(op.requestBody.content)) === show([JSON_TYPE]), () => `${name}: body content ${show(Object.keys(op.requestBody.content))}`);
            judge(op.requestBody.content[JSON_TYPE].schema, e.bodies, 'body', 'body');
          }
          t.assert(show(Object.keys(op.responses).sort()) === show(r.res.map(([c]) => String(c)).sort()), () => `${name}: documented responses ${show(Object.keys(op.responses))}, declared ${show(r.res.map((x) => x[0]))}${src()}`);
          r.res.forEach(([code, c], i) => {
            const res = op.responses[code];
            t.assert(typeof res.description === 'string' && res.content && res.content[JSON_TYPE], () => `${name}: response ${code} is documented as ${show(res)}`);
            t.assert(res.description === http.STATUS_CODES[code], () => `${name}: response ${code} is described as ${show(res.description)}`);
            judge(res.content[JSON_TYPE].schema, c, 'r' + i, 'response ' + code);
          });
          t.label('request ' + r.request.k);
          if (e.parameters.length >= 2 || e.bodies) busy = busy || model.routes.length > 1 || ['inter', 'union'].includes(r.request.k);
        }
        if (model.decoy >= 1 && model.decoy <= 5) t.label('calls that are no specs');
        if (busy) t.nontrivial();
      },
    },
  ],
};
