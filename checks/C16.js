'use strict';
// The static types of codecs, requests, responses, clients and handlers, decided by the compiler: generated
// codecs, requests and routes with their types written out independently.
const T = require('../lib/tycodec');
const { judge } = require('../lib/types');

const FIELDS = ['a', 'b', 'id', 'x-y', 'q1', 'from', 'default', '0'];
// what JSON can say
const JSON_LEAVES = Object.keys(T.LEAVES).filter((n) => !['date', 'unknown'].includes(n));
const STATUSES = ['200', '201', '204', '400', '404', '500', '418'];
const opts = (fc, arb) => fc.oneof({ weight: 3, arbitrary: arb }, { weight: 2, arbitrary: fc.record({ k: fc.constant('opt'), of: arb, how: fc.nat(2) }) });
function requestArb(fc) {
  const stringy = fc.record({ k: fc.constant('leaf'), n: fc.constantFrom(...T.STRINGY) });
  const many = fc.oneof({ weight: 4, arbitrary: stringy }, { weight: 1, arbitrary: fc.record({ k: fc.constant('array'), of: stringy }) });
  const fields = (arb, min = 0) => fc.uniqueArray(fc.tuple(fc.constantFrom(...FIELDS), opts(fc, arb)), { minLength: min, maxLength: 4, selector: (f) => f[0] });
  const part = (arb) => fc.option(fields(arb), { nil: undefined });
  return fc.record({ params: part(stringy), query: part(many), headers: part(stringy), body: part(T.codecArb(fc, { depth: 2, leaves: JSON_LEAVES, json: true })) }).map((r) => agree([r])[0]);
}
// parts that declare the same name must agree on its type, or there is no such request; only optionality may differ
function agree(all) {
  const seen = new Map(), core = (c) => (c.k === 'opt' ? c.of : c);
  const out = all.map(() => ({}));
  for (const p of ['params', 'headers', 'query', 'body'])
    all.forEach((parts, i) => { out[i][p] = parts[p] && parts[p].map(([n, c]) => { if (!seen.has(n)) seen.set(n, core(c)); return [n, c.k === 'opt' ? { ...c, of: seen.get(n) } : seen.get(n)]; }); });
  return out;
}
const routeArb = (fc) => fc.record({
  request: fc.oneof(
    { weight: 6, arbitrary: fc.record({ k: fc.constant('http'), parts: requestArb(fc) }) },
    { weight: 1, arbitrary: fc.record({ k: fc.constantFrom('both', 'either'), of: fc.tuple(requestArb(fc), requestArb(fc)) }).map((r) => (r.k === 'both' ? { ...r, of: agree(r.of) } : r)) },
  ),
  method: fc.constantFrom('get', 'post', 'put', 'delete', 'patch'),
  response: fc.uniqueArray(fc.tuple(fc.constantFrom(...STATUSES), T.codecArb(fc, { depth: 2 })), { minLength: 1, maxLength: 3, selector: (r) => r[0] }),
});
const PARTS = ['params', 'query', 'headers', 'body'];
// the types of a request, from the declared fields; a name that several parts declare has all their types
function request(parts) {
  const given = PARTS.filter((p) => parts[p] !== undefined);
  const x = `h.httpRequest({ ${given.map((p) => `${p}: { ${parts[p].map(([n, c]) => `${JSON.stringify(n)}: ${T.info(c).x}`).join(', ')} }`).join(', ')} })`;
  const types = (p, kind) => `{ ${parts[p].map(([n, c]) => { const i = T.info(c), o = kind === 'a' ? i.u : i.uo; return `${JSON.stringify(n)}${o ? '?' : ''}: ${o ? `Exclude<${i[kind]}, undefined>` : i[kind]}`; }).join('; ')} }`;
  return { x, a: given.map((p) => types(p, 'a')).join(' & ') || '{}', o: `{ ${['query', 'params'].filter((p) => !given.includes(p)).map((p) => `${p}: {}`).concat(given.map((p) => `${p}: ${types(p, 'o')}`)).join('; ')} }` };
}
function requestOf(r) {
  if (r.k === 'http') return request(r.parts);
  const [a, b] = r.of.map(request);
  return r.k === 'both' ? { x: `t.intersection([${a.x}, ${b.x}])`, a: `(${a.a}) & (${b.a})`, o: `(${a.o}) & (${b.o})` } : { x: `t.union([${a.x}, ${b.x}])`, a: `(${a.a}) | (${b.a})`, o: `(${a.o}) | (${b.o})` };
}
const routeText = (route) => `${route.method}: h.httpRoute({ path: '/x', method: '${route.method.toUpperCase()}', request: ${requestOf(route.request).x}, response: { ${route.response.map(([s, c]) => `${s}: ${T.info(c).x}`).join(', ')} } })`;
// routes beside the one in question, of the same operation and of another one
const siblings = ({ route, same }) => same.filter((r) => r.method !== route.method);
const spec = (c) => `const api = h.apiSpec({ 'op.one': { ${[c.route, ...siblings(c)].map(routeText).join(', ')} }${c.other ? `, two: { ${routeText(c.other)} }` : ''} });`;
// intersections are compared as the object they amount to
const flat = (a) => `h.Simplify<${a}>`.replace(/h\.Simplify</, 'Flat<');
const FLAT = 'type Flat<X> = X extends unknown ? { [K in keyof X]: X[K] } : never;';

module.exports = {
  rule: 'A case is a codec or a route of an API spec, whose types are compared with types written out from its description. It is non-trivial if it has a field.',
  assumptions: ['Types are equal if the compiler of the repository, with its settings, takes each for the other, including optional keys, and none of them is any.', 'The types of single codecs of io-ts and io-ts-types are those of the libraries.'],
  props: [
    {
      name: 'codecs',
      runs: { quick: 300, thorough: 4000 },
      arb: (fc) => fc.array(fc.record({ codec: T.codecArb(fc, { depth: 2 }), props: fc.uniqueArray(fc.tuple(fc.constantFrom(...FIELDS), opts(fc, T.codecArb(fc, { depth: 1 }))), { maxLength: 4, selector: (f) => f[0] }), how: fc.nat(2) }), { minLength: 1, maxLength: 6 }),
      check(cases, t) {
        const out = [{ code: FLAT }];
        cases.forEach(({ codec, props, how }, n) => {
          const o = T.info({ k: 'optionalized', props }), q = T.info({ k: 'opt', of: codec, how: 0 });
          out.push({ code: `const o${n} = ${o.x};` });
          out.push({ code: `same<Flat<t.TypeOf<typeof o${n}>>, ${o.a}>(true);` });
          const output = `{ ${props.map(([m, c]) => { const i = T.info(c); return `${JSON.stringify(m)}${i.u ? '?' : ''}: ${i.u ? i.o + ' | undefined' : i.o}`; }).join('; ')} }`;
          out.push({ code: `same<Flat<t.OutputOf<typeof o${n}>>, ${output}>(true);` });
          out.push({ code: `const p${n} = h.optional(${T.info(codec).x});` });
          out.push({ code: `same<t.TypeOf<typeof p${n}>, ${q.a}>(true); same<t.OutputOf<typeof p${n}>, ${q.o}>(true);` });
          for (const v of o.good) out.push({ code: `{ const v: t.TypeOf<typeof o${n}> = ${v}; }` });
          for (const v of o.bad) out.push({ code: `{ const v: t.TypeOf<typeof o${n}> = ${v}; }`, bad: 'the value is not of the type' });
          if (props.length) t.nontrivial();
        });
        judge(out, t);
      },
    },
    {
      name: 'routes',
      runs: { quick: 500, thorough: 7000 },
      arb: (fc) => fc.record({ route: routeArb(fc), same: fc.uniqueArray(routeArb(fc), { maxLength: 2, selector: (r) => r.method }), other: fc.option(routeArb(fc), { nil: undefined }) }),
      check(c, t) {
        const route = c.route, r = requestOf(route.request), m = route.method;
        const R = `typeof api['op.one']['${m}']`;
        const out = [{ code: FLAT }, { code: spec(c) }];
        const good = (code) => out.push({ code });
        good(`same<Flat<h.RequestType<${R}>>, Flat<${r.a}>>(true);`);
        const nested = (o) => `{ [K in keyof (${o})]: Flat<(${o})[K]> }`;
        if (route.request.k === 'http') good(`same<${nested(`t.OutputOf<${R}['request']>`)}, ${nested(r.o)}>(true);`);
        const res = route.response.map(([s, c]) => [s, T.info(c)]);
        good(`same<h.ResponseType<${R}>, ${res.map(([s, i]) => `{ type: ${s}; payload: ${i.a} }`).join(' | ')}>(true);`);
        for (const [s, i] of res) good(`same<h.ResponseTypeForStatus<${R}['response'], ${s}>, ${i.a}>(true);`);
        good('const client = buildApiClient(superagentRequestFactory(superagent, "http://localhost"), api);');
        good(`same<keyof typeof client, 'op.one'${c.other ? " | 'two'" : ''}>(true); same<keyof typeof client['op.one'], ${[route, ...siblings(c)].map((s) => `'${s.method}'`).join(' | ')}>(true);`);
        good(`same<Flat<Parameters<typeof client['op.one']['${m}']>[0]>, Flat<${r.a}>>(true);`);
        good(`same<Awaited<ReturnType<ReturnType<typeof client['op.one']['${m}']>['decode']>>['body'], ${[...res.map(([, i]) => `(${i.a})`), 'unknown'].join(' | ')}>(true);`);
        good(`async (d: DecodedResponse<${R}>) => { if (d.status === 'decodeError') { same<typeof d.body, unknown>(true); same<typeof d.error, string>(true); } ${res.map(([s, i]) => `else if (d.status === ${s}) { same<typeof d.body, ${i.a}>(true); }`).join(' ')} else { const n: never = d; } };`);
        good(`async (d: DecodedResponse<${R}>) => { if (d.error === undefined) { same<typeof d.status, ${res.map(([s]) => s).join(' | ')}>(true); } else { same<typeof d.status, 'decodeError'>(true); same<typeof d.error, string>(true); } };`);
        for (const [s, i] of res) good(`async (q: ReturnType<typeof client['op.one']['${m}']>) => { const d = await q.decodeExpecting(${s}); same<typeof d.body, ${i.a}>(true); };`);
        good('const router = createRouter(api);');
        good(`router.${m}('op.one', [(req, res, next) => { same<Flat<typeof req.decoded>, Flat<${r.a}>>(true); same<Parameters<typeof res.sendEncoded>[0], ${res.map(([s]) => s).join(' | ')}>(true); }]);`);
        good(`router.${m}Unchecked('op.one', [(req, res) => { type D = typeof req.decoded; same<D extends E.Either<t.Errors, infer X> ? Flat<X> : 'other', Flat<${r.a}>>(true); same<Extract<D, { _tag: 'Left' }>['left'], t.Errors>(true); }]);`);
        good(`same<Flat<Parameters<Extract<ServiceFunction<${R}>, (x: any) => any>>[0]>, Flat<${r.a}>>(true);`);
        good(`same<Parameters<TypedRequestHandler<typeof api, 'op.one', '${m}'>>[0]['decoded'], h.RequestType<${R}>>(true);`);
        t.label(route.request.k);
        if (route.request.k !== 'http' || PARTS.some((p) => (route.request.parts[p] || []).length)) t.nontrivial();
        judge(out, t);
      },
    },
  ],
};
