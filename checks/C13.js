'use strict';
const C = require('../lib/codec');
const R = require('../lib/request');
const P = require('../lib/routes');
const H = require('../lib/http');
const K = require('../lib/client');
const { eq, show } = require('../lib/ser');

const STATUS = [200, 200, 200, 201, 202, 206, 400, 401, 404, 409, 422, 500, 503];
const noUndef = (o) => (o === null || typeof o !== 'object' || o instanceof Date ? o : Array.isArray(o) ? o.map(noUndef) : C.obj(Object.entries(o).filter(([, v]) => v !== undefined).map(([k, v]) => [k, noUndef(v)])));
const own = (o, k) => Object.prototype.hasOwnProperty.call(o, k);
const group = (ops, f) => {
  const out = {};
  for (const o of ops) (own(out, o.api) ? out[o.api] : (out[o.api] = {}))[o.method] = f(o);
  return out;
};

module.exports = {
  rule:
    'A route (path with 0-3 parameters, method, request codec over path, query, headers and JSON body, 1-2 response statuses with generated codecs) in a spec with up to 6 other operations, served by typed-express-router or express-wrapper under a base path, and 1-3 concurrent calls with generated values through an API client made with the superagent or the supertest factory. Non-trivial: the call carries at least two values, or a value that needs escaping, and the response has a body that constrains its codec.',
  assumptions: ['Express, body-parser, qs and superagent are trusted.', 'Header names are lower case, header values are visible ASCII, query arrays have at least two elements, path parameters are not empty, "." or "..": HTTP cannot carry the others unchanged.'],
  props: [
    {
      name: 'end-to-end',
      runs: { quick: 7000, thorough: 150000 },
      arb: (fc) =>
        fc.tuple(K.routeArb(), fc.uniqueArray(fc.tuple(fc.constantFrom(...STATUS), C.bodyDesc(2)), { selector: (x) => x[0], minLength: 1, maxLength: 2 })).chain(([r, resp]) =>
          fc.record({
            r: fc.constant(r),
            resp: fc.constant(resp),
            // other operations of the spec, on other methods of the same path or on other paths: none may run
            others: fc.array(fc.record({ api: fc.constantFrom('gen.op', 'gen.op', 'gen', 'Gen.op', 'gen.op2', 'constructor', '7'), method: fc.constantFrom('get', 'post', 'put', 'delete', 'patch'), same: fc.boolean() }), { maxLength: 6 }),
            at: fc.nat(6),
            server: fc.constantFrom('typed', 'wrapper'),
            factory: fc.constantFrom('superagent', 'superagent', 'superagent', 'supertestUrl', 'supertestApp'),
            base: fc.constantFrom('', '/', '/base', '/base/', '/b/v1', '/b ase/'),
            calls: fc.array(
              fc.constantFrom(...resp).chain(([s, d]) => fc.record({ a: K.valuesArb(r.d), s: fc.constant(s), payload: C.arbA(d), expecting: fc.constantFrom(undefined, 'same', 'other') })),
              { minLength: 1, maxLength: 3 },
            ),
          }),
        ),
      async check(c, t, env) {
        const L = R.libs(env);
        const express = env.req('express');
        const superagent = env.req('superagent');
        const supertest = env.req('supertest');
        const SA = env.pkg('superagent-wrapper');
        const response = {};
        for (const [s, d] of c.resp) response[s] = C.build(L, d);
        const route = L.h.httpRoute({ path: P.pathString(c.r.segs), method: c.r.method.toUpperCase(), request: R.buildRequest(L, c.r.d), response });
        const ops = [];
        for (const o of c.others) {
          if (ops.some((x) => x.api === o.api && x.method === o.method) || (o.api === 'gen.op' && o.method === c.r.method)) continue;
          const same = o.same && o.method !== c.r.method;
          ops.push({ ...o, route: L.h.httpRoute({ path: same ? route.path : `/zz-other/${ops.length}/zz`, method: o.method.toUpperCase(), request: L.h.httpRequest({}), response: { 200: L.t.string } }) });
        }
        ops.splice(Math.min(c.at, ops.length), 0, { api: 'gen.op', method: c.r.method, route, real: true });
        const shape = group(ops, (o) => o.route);
        const spec = L.h.apiSpec(shape);
        const strays = [];

        const calls = c.calls.map((x) => ({ ...x, a: K.adapt(L, c.r.d, x.a) }));
        const seen = [];
        // calls run concurrently: each is recognised by a header that is not part of the spec
        let app = express();
        app.use(express.json({ strict: false }));
        const of = (req) => Number(req.headers['x-call']);
        if (c.server === 'typed') {
          const router = env.pkg('typed-express-router').createRouter(spec);
          for (const o of ops) if (!o.real) router[o.method](o.api, [(req, res) => { strays.push(`${o.api} ${o.method}`); res.sendEncoded(200, 'stray'); }]); else router[c.r.method]('gen.op', [(req, res) => { seen.push([of(req), req.decoded]); res.sendEncoded(calls[of(req)].s, calls[of(req)].payload); }]);
          app.use(router);
        } else {
          const W = env.pkg('express-wrapper');
          const which = (req, res, next) => next();
          const h = W.routeHandler({ middleware: [W.middlewareFn(async (req) => ({ ' call': of(req) }))], handler: async (input) => { const { ' call': i, ...rest } = input; seen.push([i, rest]); return { type: calls[i].s, payload: calls[i].payload }; } });
          const warn = console.warn;
          const handlers = group(ops, (o) => (o.real ? h : () => { strays.push(`${o.api} ${o.method}`); return { type: 200, payload: 'stray' }; }));
          app.use(W.routerForApiSpec({ spec, routeHandlers: handlers, getEncodeErrorStatusCode: () => 500 }));
        }
        const isSuper = c.factory === 'superagent';
        if (isSuper && c.base.replace(/\/$/, '')) { const outer = express(); outer.use(encodeURI(c.base.replace(/\/$/, '')), app); app = outer; }
        const { port } = await H.use(app);
        const origin = `http://127.0.0.1:${port}`;
        const f = isSuper ? SA.superagentRequestFactory(superagent, origin + c.base) : SA.supertestRequestFactory(supertest(c.factory === 'supertestApp' ? app : origin));
        const client = SA.buildApiClient(f, spec);

        const run = async (x, i) => {
          if (!K.sendable(L, c.r.d, x.a)) return { skip: true };
          const want = {};
          for (const fl of R.fieldsOf(c.r.d)) {
            if (x.a[fl.name] === undefined) { if (fl.part === 'params') return { skip: true }; continue; }
            const codec = C.build(L, fl.codec);
            let wire = codec.encode(x.a[fl.name]);
            try { if (fl.part === 'body') wire = JSON.parse(JSON.stringify(wire)); } catch { return { skip: true }; }
            if (wire === undefined) continue;
            let back;
            try { back = codec.decode(wire); } catch { return { skip: true }; }
            if (back._tag === 'Left') return { skip: true };
            if (back.right !== undefined) want[fl.name] = back.right;
          }
          // a required field that admits no value at all cannot be sent
          if (R.fieldsOf(c.r.d).some((fl) => x.a[fl.name] === undefined && fl.codec.k !== 'optional' && !C.build(L, fl.codec).is(undefined))) return { skip: true };
          const rc = response[x.s];
          let wire, back;
          try { if (!rc.is(x.payload)) return { skip: true }; wire = JSON.stringify(rc.encode(x.payload)); if (wire === undefined) return { skip: true }; back = rc.decode(JSON.parse(wire)); } catch { return { skip: true }; }
          let call = client['gen.op'][c.r.method](x.a).set('x-call', String(i));
          let res, error;
          const other = x.s === 200 ? 404 : 200;
          try {
            res = x.expecting === undefined ? await call.decode() : await call.decodeExpecting(x.expecting === 'same' ? x.s : other);
          } catch (e) { error = e; }
          return { want, res, error, back, wire, other };
        };
        const results = await Promise.all(calls.map(run));
        t.assert(!strays.length, () => `calls of gen.op ${c.r.method} ${route.path} ran ${show(strays)}; the spec has ${show(ops.map((o) => `${o.api} ${o.method} ${o.route.path}`))}`);
        results.forEach((r, i) => {
          const x = calls[i];
          if (r.skip) return t.label('not sendable');
          const mine = seen.filter(([k]) => k === i);
          const where = () => `${c.r.method} ${route.path} with ${show(x.a)}`;
          t.assert(mine.length === 1, () => `${where()}: the handler ran ${mine.length} times; the client got ${show(r.res && { status: r.res.status, body: r.res.body, text: r.res.original && r.res.original.text })} ${r.error && r.error.stack}`);
          t.assert(eq(noUndef(mine[0][1]), noUndef(r.want)), () => `${where()}: the handler saw ${show(mine[0][1])}, the caller sent ${show(r.want)}`);
          t.label(c.factory, c.server, `values:${Math.min(Object.keys(r.want).length, 4)}`);
          if (Object.keys(r.want).length >= 2 || Object.values(r.want).some((v) => typeof v === 'string' && encodeURIComponent(v) !== v)) t.nontrivial();
          if (x.expecting === 'other') {
            t.assert(r.error instanceof SA.DecodeError, () => `${where()}: decodeExpecting(${r.other}) of a ${x.s} response gave ${show(r.res)} ${r.error}`);
            return;
          }
          if (r.back._tag === 'Left') { t.label('payload does not decode'); return; }
          t.assert(!r.error, () => `${where()}: the call failed with ${r.error && r.error.stack}`);
          t.assert(r.res.status === x.s && eq(noUndef(r.res.body), noUndef(r.back.right)), () => `${where()}: the client got ${show({ status: r.res.status, body: r.res.body, error: r.res.error })}, the handler sent ${x.s} ${r.wire}`);
        });
      },
    },
  ],
};
