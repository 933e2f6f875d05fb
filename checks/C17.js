'use strict';
// What the compiler lets through: right uses of an API spec compile, each wrong use does not. Generated specs, and
// generated uses of them, most with exactly one mistake.
const T = require('../lib/tycodec');
const { judge } = require('../lib/types');

const METHODS = ['get', 'post', 'put', 'delete', 'patch'];
const NAMES = { 200: 'ok', 201: 'created', 204: 'noContent', 400: 'invalidRequest', 404: 'notFound', 418: 'imATeapot', 500: 'internalError' };
const STATUSES = Object.keys(NAMES);
const JSON_LEAVES = Object.keys(T.LEAVES).filter((n) => !['date', 'unknown'].includes(n));
const FIELDS = ['a', 'b', 'id', 'x-y', 'q1'];
const opts = (fc, arb) => fc.oneof({ weight: 3, arbitrary: arb }, { weight: 2, arbitrary: fc.record({ k: fc.constant('opt'), of: arb, how: fc.nat(2) }) });
function routeArb(fc) {
  const stringy = opts(fc, fc.record({ k: fc.constant('leaf'), n: fc.constantFrom(...T.STRINGY) }));
  const part = fc.constantFrom('params', 'query', 'headers', 'body');
  const body = opts(fc, T.codecArb(fc, { depth: 1, leaves: JSON_LEAVES, json: true }));
  return fc.record({
    // every field with a codec for a string and one for a body
    fields: fc.uniqueArray(fc.tuple(fc.constantFrom(...FIELDS), part, stringy, body), { maxLength: 4, selector: (f) => f[0] }),
    response: fc.uniqueArray(fc.tuple(fc.constantFrom(...STATUSES), T.codecArb(fc, { depth: 1, leaves: JSON_LEAVES })), { minLength: 1, maxLength: 3, selector: (r) => r[0] }),
    keyed: fc.boolean(),
  });
}
const specArb = (fc) => fc.uniqueArray(fc.tuple(fc.constantFrom('x', 'op.one', 'op-two'), fc.uniqueArray(fc.tuple(fc.constantFrom(...METHODS), routeArb(fc)), { minLength: 1, maxLength: 2, selector: (m) => m[0] })), { minLength: 1, maxLength: 2, selector: (o) => o[0] });

const q = JSON.stringify;
const fieldsOf = (r) => r.fields.map(([n, p, s, b]) => ({ n, p, i: T.info(p === 'body' ? b : s) }));
const routeText = (r, m, change = {}) => {
  const by = {};
  for (const f of fieldsOf(r)) (by[f.p] = by[f.p] || []).push(`${q(f.n)}: ${f.i.x}`);
  return `h.httpRoute({ path: '/x', method: '${(change.method || m).toUpperCase()}', request: h.httpRequest({ ${Object.entries(by).map(([p, xs]) => `${p}: { ${xs.join(', ')} }`).join(', ')} }), response: { ${r.response.map(([s, c]) => `${s}: ${T.info(c).x}`).join(', ')} } })`;
};
const specText = (spec, more = '') => `h.apiSpec({ ${spec.map(([o, ms]) => `${q(o)}: { ${ms.map(([m, r]) => `${m}: ${routeText(r, m)}`).join(', ')} }`).join(', ')}${more} })`;

module.exports = {
  rule: 'A case is an API spec with right and wrong uses of it. It is non-trivial if it has at least one wrong use and one right use.',
  assumptions: ['Right and wrong are judged by the compiler of the repository with its settings; a wrong use is wrong in one place.', 'Excess properties are wrong only in object literals, as everywhere in TypeScript.'],
  props: [
    {
      name: 'uses',
      runs: { quick: 420, thorough: 6000 },
      arb: (fc) => fc.record({ spec: specArb(fc), pick: fc.array(fc.nat(1000), { minLength: 12, maxLength: 12 }), chain: fc.array(fc.record({ n: fc.constantFrom('a', 'm1', 'm2', 'm3'), c: fc.constantFrom('string', 'number', 'boolean'), plain: fc.boolean() }), { maxLength: 7 }) }),
      check({ spec, pick, chain }, t) {
        const out = [], good = (code) => out.push({ code }), bad = (code, why) => out.push({ code, bad: why });
        let k = 0;
        const choose = (xs) => xs[pick[k++ % pick.length] % xs.length];
        good(`const api = ${specText(spec)};`);
        good('const client = buildApiClient(superagentRequestFactory(superagent, "http://localhost"), api); const router = createRouter(api);');
        const types = { string: "'x'", number: '1', boolean: 'true' };
        chain.forEach((c, j) => good(`const mw${j} = ${c.plain ? '(_req: express.Request, _res: express.Response, next: express.NextFunction) => next()' : `middlewareFn(async () => ({ ${c.n}: ${types[c.c]} as ${c.c} }))`};`));
        // handlers of all routes, which never return
        const never = (o, m) => `(async (x: h.RequestType<typeof api[${q(o)}]['${m}']>) => { throw new Error(); })`;
        const handlers = (change = {}) => `{ ${spec.filter(([o]) => o !== change.withoutOp).map(([o, ms]) => `${q(o)}: { ${ms.filter(([m]) => !(change.without && change.without[0] === o && change.without[1] === m)).map(([m]) => `${m}: ${change.as && change.as[0] === o && change.as[1] === m ? change.as[2] : never(o, m)}`).join(', ')} }`).join(', ')} }`;
        const server = choose([(x) => `createServer(api, () => (${x}));`, (x) => `createServer(api, (app) => { app.use(express.json()); return ${x}; });`, (x) => `routerForApiSpec({ spec: api, routeHandlers: ${x} });`]);
        good(server(handlers()));
        bad(server(handlers({ withoutOp: choose(spec)[0] })), 'an operation has no handler');
        { const [o, ms] = choose(spec); bad(server(handlers({ without: [o, choose(ms)[0]] })), 'a method has no handler'); }
        bad(`client[${q('op.three')}];`, 'there is no such operation');
        bad(`router.${choose(METHODS)}('op.three', []);`, 'there is no such operation');
        for (const [o, ms] of spec) {
          const absent = choose(METHODS.filter((m) => !ms.some(([n]) => n === m)));
          bad(`client[${q(o)}].${absent}({} as any);`, 'there is no such method');
          bad(`router.${absent}(${q(o)}, []);`, 'there is no such method');
          bad(`router.${absent}Unchecked(${q(o)}, []);`, 'there is no such method');
          for (const [m, r] of ms) {
            const R = `typeof api[${q(o)}]['${m}']`, C = `client[${q(o)}].${m}`;
            const fs = fieldsOf(r), usable = fs.filter((f) => f.i.good.length);
            const whole = fs.every((f) => f.i.u || f.i.good.length);
            const args = (change = (f, v) => v) => `{ ${usable.map((f) => { const v = change(f, choose(f.i.good)); return v === undefined || (v === 'undefined' && f.i.u) ? undefined : `${q(f.n)}: ${v}`; }).filter(Boolean).join(', ')} }`;
            if (whole) {
              good(`${C}(${args()});`);
if (fs.length) { const given = args(); bad(`${C}({ ${given.slice(2, -2)}${given.trim() === '{  }' ? '' : ', '}'not there': 1 });`, 'there is no such field'); }
              for (const f of usable) {
                if (!f.i.u) bad(`${C}(${args((g, v) => (g === f ? undefined : v === 'undefined' ? undefined : v))});`, `${f.n} is missing`);
                const b = f.i.bad.filter((v) => v !== 'undefined' || !f.i.u);
                if (b.length) { const v0 = choose(b); bad(`${C}(${args((g, v) => (g === f ? v0 : v))});`, `${f.n} is wrong`); }
              }
            }
            // handlers of typed-express-router
            const un = choose(['', 'Unchecked']);
            const add = (body, u = '') => `router.${m}${u}(${q(o)}, [(req, res, next) => { ${body} }]);`;
            for (const f of fs.filter((g) => /^\w+$/.test(g.n))) {
              good(add(`const v: ${f.i.u ? `Exclude<${f.i.a}, undefined> | undefined` : f.i.a} = req.decoded.${f.n};`));
              bad(add(`const v: symbol = req.decoded.${f.n};`), 'the field is no symbol');
            }
            bad(add('req.decoded.notThere;'), 'there is no such field');
            bad(add('req.decoded.right;', 'Unchecked'), 'the request may have failed to decode');
            good(add(`if (req.decoded._tag === 'Right') { const v: h.RequestType<${R}> = req.decoded.right; } else { const e: t.Errors = req.decoded.left; }`, 'Unchecked'));
            for (const [s, c] of r.response) {
              const i = T.info(c);
              if (i.good.length) {
                good(add(`res.sendEncoded(${s}, ${choose(i.good)});`, un));
                bad(add(`res.sendEncoded(${s});`.replace(');', i.a === 'unknown' ? ', 1, 2);' : ');'), un), 'the payload is missing');
              }
              if (i.bad.length) bad(add(`res.sendEncoded(${s}, ${choose(i.bad)});`, un), 'the payload is wrong');
              // responses of express-wrapper
              const handler = (ret, param = '') => choose([`async (${param}) => (${ret})`, `(${param}) => (${ret})`]);
              const asHandler = (x) => server(handlers({ as: [o, m, choose([x, `{ middleware: [], handler: ${x} }`, `routeHandler<${R}>({ handler: ${x} })`])] }));
              if (i.good.length) {
                const v = `typeOf<${i.a}>(${choose(i.good)})`;
                good(asHandler(handler(`{ type: ${s} as const, payload: ${v} }`)));
                good(`{ const f: ServiceFunction<${R}> = async () => h.Response.${NAMES[s]}(${v}); }`);
                good(`{ const f: ServiceFunction<${R}> = () => Response.${NAMES[s]}(${v}); }`);
                good(`{ const f: ServiceFunction<${R}> = async () => KeyedResponse.${NAMES[s]}(${v}); }`);
                good(`{ const x: KeyedResponseType<${R}> = { type: '${NAMES[s]}', payload: ${v} }; }`);
              }
              const wrong = i.bad.filter((v) => !v.includes('not there'));
              if (wrong.length) {
                const v = choose(wrong);
                bad(asHandler(handler(`{ type: ${s} as const, payload: ${v} }`)), 'the payload is wrong');
                bad(`{ const f: ServiceFunction<${R}> = async () => h.Response.${NAMES[s]}(${v}); }`, 'the payload is wrong');
                bad(`{ const f: ServiceFunction<${R}> = async () => KeyedResponse.${NAMES[s]}(${v}); }`, 'the payload is wrong');
              }
              good(`async () => { const d = await ${C}({} as any).decode(); if (d.status === ${s}) { const v: ${i.a} = d.body; } };`);
              good(`async () => { const v: ${i.a} = (await ${C}({} as any).decodeExpecting(${s})).body; };`);
              bad(`async () => { const v: ${i.a === 'unknown' ? '1' : i.a} = (await ${C}({} as any).decode()).body; };`, 'the response is not known to be the expected one');
            }
            const other = choose(STATUSES.filter((s) => !r.response.some(([x]) => x === s)));
            bad(add(`res.sendEncoded(${other}, 1 as any);`, un), 'there is no such status');
            bad(add(`res.sendEncoded('${NAMES[other]}', 1 as any);`, un), 'there is no such status');
            bad(`async () => { await ${C}({} as any).decodeExpecting(${other}); };`, 'there is no such status');
            bad(`async () => { const d = await ${C}({} as any).decode(); if (d.status === ${other}) {} };`, 'there is no such status');
            bad(`{ const f: ServiceFunction<${R}> = async () => h.Response.${NAMES[other]}(1 as any); }`, 'there is no such status');
            bad(`{ const f: ServiceFunction<${R}> = async () => KeyedResponse.${NAMES[other]}(1 as any); }`, 'there is no such status');
            bad(server(handlers({ as: [o, m, `async () => ({ type: ${other} as const, payload: 1 as any })`] })), 'there is no such status');
            bad(server(handlers({ as: [o, m, 'async (x: { notThere: string }) => { throw new Error(); }'] })), 'the handler wants a field that the request does not have');
            // middleware
            const now = {};
            for (const c of chain) if (!c.plain) now[c.n] = c.c;
            const mws = chain.map((c, j) => `mw${j}`).join(', ');
            const overlaid = `Omit<h.RequestType<${R}>, ${Object.keys(now).map(q).join(' | ') || 'never'}> & { ${Object.entries(now).map(([n, c]) => `${n}: ${c}`).join('; ')} }`;
            const typeArgs = server('').startsWith('createServer') && chain.length ? choose(['', `<${R}, [${chain.map((c, j) => `typeof mw${j}`).join(', ')}]>`]) : `<${R}, [${chain.map((c, j) => `typeof mw${j}`).join(', ')}]>`;
            const chained = (param) => server(handlers({ as: [o, m, `routeHandler${typeArgs}({ middleware: [${mws}], handler: async (x: ${param}) => { throw new Error(); } })`] }));
            good(chained(overlaid));
            bad(chained(`${overlaid} & { notThere: string }`), 'the handler wants a property that neither the request nor the middleware has');
            for (const [n, c] of Object.entries(now)) bad(chained(`{ ${n}: ${c === 'string' ? 'number' : 'string'} }`), `the middleware gives another ${n}`);
            const added = Object.keys(now).filter((n) => !fs.some((f) => f.n === n));
            if (added.length) bad(server(handlers({ as: [o, m, `{ middleware: [${mws}], handler: async (x: { ${added[0]}: ${now[added[0]]} }) => { throw new Error(); } }`] })), 'without routeHandler, the handler does not get what the middleware adds');
            // mistakes in the spec
            const wrongMethod = choose(METHODS.filter((n) => n !== m));
            bad(`h.apiSpec({ one: { ${m}: ${routeText(r, m, { method: wrongMethod })} } });`, 'the method is not that of the route');
          }
        }
        bad(`h.apiSpec({ one: { ${choose(['head', 'options', 'GET', 'all'])}: h.httpRoute({ path: '/x', method: 'GET', request: h.httpRequest({}), response: { 200: t.string } }) } });`, 'there is no such method');
        {
          const r = "h.httpRoute({ path: '/x', method: 'GET', request: h.httpRequest({}), response: { 200: t.string } })", more = choose(['head', 'options', 'GET', 'all', 'getUnchecked']);
          bad(`h.apiSpec({ ${choose(['', `two: { get: ${r} }, `])}one: { get: ${r}, ${more}: ${r} } });`, 'there is no such method beside others');
        }
        for (const p of ['params', 'query', 'headers']) {
          const leaf = choose(T.NOT_STRINGY), how = choose([(x) => x, (x) => `h.optional(${x})`]);
          bad(`h.httpRequest({ ${p}: { a: t.string, b: ${how(T.LEAVES[leaf].x)} } });`, 'it is not encoded as a string');
          if (p !== 'query') bad(`h.httpRequest({ ${p}: { b: t.array(t.string) } });`, 'it is not encoded as a string');
          else good(`h.httpRequest({ ${p}: { b: ${how('t.array(tt.NumberFromString)')} } });`);
          good(`h.httpRequest({ ${p}: { a: t.string, b: ${how(T.LEAVES[choose(T.STRINGY)].x)} } });`);
        }
        bad(`h.httpRoute({ path: '/x', method: '${choose(['HEAD', 'get', 'OPTIONS'])}', request: h.httpRequest({}), response: { 200: t.string } });`, 'there is no such method');
        bad(`{ const s: Status = ${choose(['299', '0', '600', "'ok'"])}; }`, 'there is no such status');
        bad(`{ const s: KeyedStatus = ${choose(["'fine'", "'OK'", '200'])}; }`, 'there is no such status');
        t.nontrivial();
        judge(out, t);
      },
    },
    {
      name: 'chains',
      enumerate() {
        const out = [];
        for (let n = 0; n <= 7; n++) for (let i = -1; i < n; i++) { out.push({ n, i, j: -1 }); for (let j = i + 1; i >= 0 && j < n; j++) out.push({ n, i, j }); }
        return out;
      },
      // chains of n middleware: i adds v as a string, j then as a number (or none does); each of the others adds something
      // of its own or is a plain one
      check({ n, i, j }, t) {
        const out = [{ code: "const R = h.httpRoute({ path: '/x', method: 'GET', request: h.httpRequest({ query: { v: tt.BooleanFromString, w: t.string, m6: t.string } }), response: { 200: t.string } });" }];
        for (const plain of [false, true]) {
          const own = [];
          const v = i < 0 ? 'boolean' : j < 0 ? 'string' : 'number';
          for (let k = 0; k < n; k++) {
            let text;
            if (k === i) text = "middlewareFn(async () => ({ v: 'x' as string }))";
            else if (k === j) text = 'middlewareFn(async () => ({ v: 1 as number, more: null }))';
            else if (plain && k % 2) text = '(_req: express.Request, _res: express.Response, next: express.NextFunction) => next()';
            else { text = `middlewareFn(async () => ({ m${k}: ${k} as ${k} }))`; own.push(k); }
            out.push({ code: `const m${k}${plain} = ${text};` });
          }
          const fields = { v, w: 'string', m6: 'string' };
          if (j >= 0) fields.more = 'null';
          for (const k of own) fields[`m${k}`] = String(k);
          const names = [...Array(n)].map((_, k) => `m${k}${plain}`), chain = `[${names.map((x) => `typeof ${x}`).join(', ')}]`;
          const type = `{ ${Object.entries(fields).map(([k, x]) => `${k}: ${x}`).join('; ')} }`;
          out.push({ code: `routeHandler<typeof R, ${chain}>({ middleware: [${names.join(', ')}], handler: async (x: ${type}) => h.Response.ok('x') });` });
          out.push({ code: `routeHandler<typeof R, ${chain}>({ middleware: [${names.join(', ')}], handler: async (x) => { same<{ [K in keyof typeof x]: (typeof x)[K] }, ${type}>(true); return h.Response.ok('x'); } });` });
          for (const k of Object.keys(fields)) out.push({ code: `routeHandler<typeof R, ${chain}>({ middleware: [${names.join(', ')}], handler: async (x: { ${k}: Date }) => h.Response.ok('x') });`, bad: `${k} has another type` });
        }
        t.nontrivial();
        judge(out, t);
      },
    },
    {
      name: 'statuses',
      enumerate() {
        return Object.entries(require('../lib/statuses')).map(([name, code]) => ({ name, code }));
      },
      check({ name, code }, t) {
        const payloads = [['string', "'x' as string"], ['{ a: number }', '{ a: 1 }'], ['undefined', 'undefined'], ['Date[]', '[new Date(0)]']];
        const out = [];
        for (const [type, v] of payloads) {
          out.push({ code: `{ const r = h.Response.${name}(${v}); same<typeof r, { type: ${code}; payload: ${type} }>(true); }` });
          out.push({ code: `{ const r = Response.${name}(${v}); same<typeof r, { type: ${code}; payload: ${type} }>(true); }` });
          out.push({ code: `{ const r = KeyedResponse.${name}(${v}); same<typeof r, { type: '${name}'; payload: ${type} }>(true); }` });
        }
        out.push({ code: `same<h.KeyToHttpStatus['${name}'], ${code}>(true); same<h.HttpToKeyStatus[${code}], '${name}'>(true);` });
        out.push({ code: `{ const s: Status = ${code}; const n: KeyedStatus = '${name}'; }` });
        out.push({ code: `{ const f: ServiceFunction<h.HttpRoute & { response: { ${code}: t.StringC } }> = () => h.Response.${name}(1 as never); }` });
        out.push({ code: `{ const s: Status = '${name}'; }`, bad: 'it is no status code' });
        out.push({ code: `{ const n: KeyedStatus = ${code}; }`, bad: 'it is no status name' });
        out.push({ code: `h.Response.${name}();`, bad: 'the payload is missing' });
        out.push({ code: `Response.${name}();`, bad: 'the payload is missing' });
        out.push({ code: `KeyedResponse.${name}();`, bad: 'the payload is missing' });
        t.nontrivial();
        judge(out, t);
      },
    },
  ],
};
