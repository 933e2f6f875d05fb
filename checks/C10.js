'use strict';
const C = require('../lib/codec');
const R = require('../lib/request');
const H = require('../lib/http');
const STATUSES = require('../lib/statuses');
const { eq, show } = require('../lib/ser');

const CODES = [...new Set(Object.values(STATUSES))].filter((c) => c >= 200);
const NAME = Object.fromEntries(Object.entries(STATUSES).map(([k, v]) => [v, k]));
const METHODS = ['get', 'post', 'put', 'delete', 'patch'];
const own = (o, k) => Object.prototype.hasOwnProperty.call(o, k);

const hook = (fc) => fc.record({ status: fc.option(fc.constantFrom(422, 503, 418), { nil: undefined, freq: 2 }), body: fc.option(fc.oneof(fc.constantFrom(null, 0, [], {}, 'bad é'), C.json(1)), { nil: undefined, freq: 2 }) }, { noNullPrototype: true });

module.exports = {
  rule:
    'An API spec of 1-9 api names and methods with generated request and response codecs (1-3 numeric statuses), served by createServer or routerForApiSpec with default or own decode-error hooks and response encoder, and 1-3 requests whose handler (synchronous or not, with or without routeHandler) returns a generated status (number or name) and payload; some requests do not decode. Non-trivial: a handler ran and returned a payload for a declared status, or the request did not decode.',
  assumptions: ['Response codecs of io-ts are trusted.', 'Status codes 1xx are not returned: they are not final responses.'],
  props: [
    {
      name: 'responses',
      runs: { quick: 12000, thorough: 300000 },
      arb: (fc) =>
        fc
          .oneof({ weight: 6, arbitrary: fc.constant([1, 3, 3]) }, { weight: 1, arbitrary: fc.constant([5, 9, 7]) }, { weight: 1, arbitrary: fc.constant([4, 7, 1]) })
          .chain(([minLength, maxLength, names]) => fc.uniqueArray(
            fc.record({
              name: fc.constantFrom(...['api.one', 'two', 'x', 'api.four', '5', 'six', 'constructor'].slice(0, names)), method: fc.constantFrom(...METHODS), path: fc.constantFrom('/p', '/p/q', '/r', ...(names === 3 ? [] : ['/s', '/p/q/r'])), n: fc.boolean(), body: fc.boolean(),
              resp: fc.uniqueArray(fc.tuple(fc.constantFrom(200, 200, 201, 204, 400, 404, 500, ...CODES), C.bodyDesc(1)), { selector: (x) => x[0], minLength: 1, maxLength: 3 }),
              form: fc.constantFrom('fn', 'object', 'routeHandler', 'routeHandlerOnly'), async: fc.boolean(),
            }),
            { selector: (r) => r.method + (names === 1 ? '' : r.path), minLength: Math.min(minLength, names === 1 ? METHODS.length : 9), maxLength },
          ))
          .map((rs) => rs.filter((r, i) => rs.findIndex((q) => q.name === r.name && q.method === r.method) === i))
          .chain((routes) =>
            fc.record({
              routes: fc.constant(routes),
              server: fc.constantFrom('createServer', 'router', 'router'),
              decode: hook(fc),
              encoder: fc.constantFrom(undefined, undefined, undefined, 'own'),
              parser: fc.constant(true),
              requests: fc.array(
                fc.constantFrom(...routes.map((r, i) => i)).chain((i) =>
                  fc.constantFrom(...routes[i].resp).chain(([s, d]) =>
                    fc.record({
                      i: fc.constant(i),
                      n: fc.constantFrom('1', '2', '-3.5', '1', '2', 'x', undefined),
                      type: fc.oneof({ weight: 5, arbitrary: fc.constant(s) }, { weight: 5, arbitrary: NAME[s] ? fc.constant(NAME[s]) : fc.constant(s) }, { weight: 1, arbitrary: fc.constantFrom(299, 418, 'nope', 'OK', '', undefined, 'ok') }),
                      payload: fc.oneof({ weight: 9, arbitrary: C.arbA(d) }, { weight: 1, arbitrary: fc.oneof(C.json(1), fc.bigInt(), fc.constant(undefined)) }),
                    }),
                  ),
                ),
                { minLength: 1, maxLength: 3 },
              ),
            }),
          ),
      async check(c, t, env) {
        const L = R.libs(env);
        const express = env.req('express');
        const W = env.pkg('express-wrapper');
        const shape = {}, handlers = {}, ran = [], encoded = [];
        let current;
        const warn = console.warn;
        console.warn = () => {};
        try {
          c.routes.forEach((r, i) => {
            const response = {};
            for (const [s, d] of r.resp) response[s] = C.build(L, d);
            const route = L.h.httpRoute({ path: r.path, method: r.method.toUpperCase(), request: L.h.httpRequest({ query: r.n ? { n: L.tt.NumberFromString } : {}, ...(r.body && { body: { b: L.h.optional(L.t.string) } }) }), response });
            r.route = route;
            (own(shape, r.name) ? shape[r.name] : (shape[r.name] = {}))[r.method] = route;
            const fn = r.async
              ? async (input) => { ran.push({ i, input }); await null; return { type: current.type, payload: current.payload }; }
              : (input) => { ran.push({ i, input }); return { type: current.type, payload: current.payload }; };
            (own(handlers, r.name) ? handlers[r.name] : (handlers[r.name] = {}))[r.method] = r.form === 'fn' ? fn : r.form === 'object' ? { middleware: [], handler: fn } : r.form === 'routeHandler' ? W.routeHandler({ middleware: [], handler: fn }) : W.routeHandler({ handler: fn });
          });
          const spec = L.h.apiSpec(shape);
          const encoder = (route, response) => (req, res) => { encoded.push({ route, response }); res.status(234).json({ own: true }); };
          let app;
          if (c.server === 'createServer') {
            app = W.createServer(spec, (a) => { a.use(express.json()); return handlers; });
          } else {
            app = express();
            app.use(express.json());
            app.use(
              W.routerForApiSpec({
                spec, routeHandlers: handlers,
                ...(c.encoder && { encoder }),
                ...(c.decode.status !== undefined && { getDecodeErrorStatusCode: () => c.decode.status }),
                ...(c.decode.body !== undefined && { decodeErrorFormatter: () => c.decode.body }),
              }),
            );
          }
          app.use((req, res) => res.status(404).json({ end: 'not found' }));
          await H.use(app);

          for (const q of c.requests) {
            const r = c.routes[q.i];
            ran.length = encoded.length = 0;
            current = q;
            const res = await H.send({ method: r.method.toUpperCase(), path: r.path + (q.n !== undefined ? `?n=${q.n}` : '') });
            t.assert(!res.error, () => `no response: ${res.error}`);
            const n = q.n === undefined ? NaN : Number(q.n);
            if (r.n && Number.isNaN(n)) {
              t.label('not decoded');
              t.nontrivial();
              t.assert(ran.length === 0, 'the handler ran for a request that does not decode');
              const own = c.server === 'router';
              const status = own && c.decode.status !== undefined ? c.decode.status : 400;
              t.assert(res.status === status, () => `a request that does not decode was answered with ${res.status}, expected ${status}`);
              const b = JSON.parse(res.text);
              if (own && c.decode.body !== undefined) t.assert(eq(b, JSON.parse(JSON.stringify(c.decode.body))), () => `error body ${res.text}, the hook gives ${show(c.decode.body)}`);
              else t.assert(b && typeof b.error === 'string' && b.error.length > 0 && Object.keys(b).length === 1, () => `default error body is ${res.text}`);
              continue;
            }
            t.assert(ran.length === 1 && ran[0].i === q.i, () => `handlers ${show(ran.map((x) => x.i))} ran, expected ${q.i}`);
            t.assert(eq(ran[0].input, r.n ? { n } : {}), () => `the handler got ${show(ran[0].input)}`);
            if (c.server === 'router' && c.encoder) {
              t.label('own encoder');
              t.assert(res.status === 234 && eq(JSON.parse(res.text), { own: true }), () => `the encoder's response was replaced by ${res.status} ${res.text}`);
              t.assert(encoded.length === 1 && encoded[0].route === r.route && eq(encoded[0].response, { type: q.type, payload: q.payload }), 'the encoder did not get the route and the response');
              continue;
            }
            const status = typeof q.type === 'number' ? q.type : typeof q.type === 'string' && own(STATUSES, q.type) ? STATUSES[q.type] : undefined;
            const d = r.resp.find(([s]) => s === status);
            let want = { status: 500 };
            if (d) {
              try { want = { status, text: JSON.stringify(r.route.response[status].encode(q.payload)) }; } catch {}
            }
            if (want.text !== undefined) t.nontrivial();
            t.label(want.text === undefined ? 'error' : typeof q.type === 'number' ? 'by number' : 'by name');
            t.assert(res.status === want.status, () => `returned ${show({ type: q.type, payload: q.payload })}: responded ${res.status} ${res.text}, expected ${want.status} ${want.text}`);
            if (want.text === undefined || [204, 304, 205].includes(want.status)) continue;
            t.assert(eq(JSON.parse(res.text), JSON.parse(want.text)), () => `body ${res.text}, the payload encodes to ${want.text}`);
            t.assert(/^application\/json/.test(res.headers['content-type'] || ''), () => `content-type ${res.headers['content-type']}`);
          }
        } finally {
          console.warn = warn;
        }
      },
    },
  ],
};
