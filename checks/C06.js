'use strict';
const C = require('../lib/codec');
const R = require('../lib/request');
const P = require('../lib/routes');
const H = require('../lib/http');
const { eq, show } = require('../lib/ser');

const METHODS = ['get', 'post', 'put', 'delete', 'patch'];
const HEADER_NAMES = ['x-a', 'x-trace-id', 'accept', 'authorization', 'x-n'];
const QUERY_NAMES = ['q', 'page', 'ids', 'from', 'x_y', 'sort'];
const BODY_NAMES = ['content', 'when', 'amount', 'data', 'flag', 'kind'];

const hooksArb = (fc) =>
  fc.record({
    status: fc.option(fc.constantFrom(400, 401, 404, 409, 422, 418, 500), { nil: undefined, freq: 2 }),
    body: fc.option(fc.oneof(C.json(1), fc.constantFrom([], {}, null, 0, "", false)), { nil: undefined, freq: 2 }),
    explicit: fc.boolean(),
  }, { noNullPrototype: true });
const opts = (h, log, where) => ({
  // an unset hook may be given as an explicit undefined
  ...(h.explicit && { getDecodeErrorStatusCode: undefined, decodeErrorFormatter: undefined, afterEncodedResponseSent: undefined, routeAliases: undefined }),
  ...(h.status !== undefined && { getDecodeErrorStatusCode: (errs, req) => { log.push({ where, hook: 'status', errs, url: req.originalUrl }); return h.status; } }),
  ...(h.body !== undefined && { decodeErrorFormatter: (errs, req) => { log.push({ where, hook: 'body', errs, url: req.originalUrl }); return h.body; } }),
});

function caseArb(fc) {
  return P.pathDesc().chain((segs) => {
    const pnames = P.paramsOf(segs);
    const params = fc.tuple(...pnames.map((n) => fc.tuple(C.paramDesc(), fc.boolean()))).map((xs) => xs.map(([codec, o], i) => ({ name: pnames[i], codec: o ? { k: 'optional', of: codec } : codec })));
    const part = (names, d, max) => fc.option(C.props(names, d, { max }), { nil: undefined });
    return fc
      .record({ params, undeclareParams: fc.boolean(), query: part(QUERY_NAMES, C.queryDesc(), 3), headers: part(HEADER_NAMES, C.paramDesc(), 2), body: part(BODY_NAMES, C.bodyDesc(1), 3) })
      .chain((p) => {
        const d = {};
        if (p.params.length && !p.undeclareParams) d.params = p.params;
        for (const k of ['query', 'headers', 'body']) if (p[k]) d[k] = p[k];
        return fc.record({
          segs: fc.constant(segs),
          d: fc.constant(d),
          method: fc.constantFrom(...METHODS),
          mk: fc.constantFrom('create', 'wrap'),
          parser: fc.constantFrom('json', 'json', 'json', 'json', 'json', 'none'),
          nHandlers: fc.integer({ min: 1, max: 3 }),
          asyncHandlers: fc.boolean(),
          // another router in front: an unchecked route for the same requests that changes them and passes them on
          front: fc.option(fc.record({ api: fc.constantFrom('gen.api', 'other'), request: fc.constantFrom('none', 'same', 'never'), same: fc.boolean(), body: fc.option(C.json(1), { nil: undefined }), addQuery: fc.option(C.str(), { nil: undefined }) }), { freq: 3, nil: undefined }),
          router: hooksArb(fc),
          route: hooksArb(fc),
          requests: fc.array(
            fc.record({
              params: fc.tuple(...pnames.map((n, i) => (d.params ? C.arbI(d.params[i].codec.of && d.params[i].codec.k === 'optional' ? d.params[i].codec.of : d.params[i].codec, 0) : C.str()))).map((vs) => C.obj(pnames.map((n, i) => [n, vs[i]]))),
              corruptParam: fc.integer({ min: 0, max: 9 }),
              query: d.query ? C.withExtra(C.recordOf(d.query, (c) => C.arbI(c, 0))) : fc.dictionary(fc.constantFrom('zz', 'q'), C.str(), { maxKeys: 1, noNullPrototype: true }),
              headers: d.headers ? C.recordOf(d.headers, (c) => C.arbI(c, 0)) : fc.constant({}),
              body: d.body ? fc.oneof({ weight: 8, arbitrary: C.withExtra(C.recordOf(d.body, (c) => C.arbI(c, 1))) }, { weight: 1, arbitrary: fc.oneof(C.json(1), fc.constant(C.ABSENT)) }) : fc.oneof(fc.constant(C.ABSENT), C.json(1)),
              drop: fc.constantFrom(...Array(12).fill(undefined), 'query', 'headers', 'body'),
              mangle: fc.oneof({ weight: 3, arbitrary: fc.constant(undefined) }, { weight: 1, arbitrary: fc.record({ part: fc.constantFrom('query', 'headers', 'body'), key: fc.nat(3), value: fc.oneof(C.str(), C.json(1)) }) }),
            }),
            { minLength: 1, maxLength: 3 },
          ),
        });
      });
  });
}

// what is put on the wire for a generated request
function wire(r, segs) {
  const params = { ...r.params };
  for (const k of Object.keys(params)) {
    const v = params[k];
    params[k] = typeof v === 'string' && v !== '' ? v : String(v === '' || v === undefined ? 'x' : typeof v === 'object' ? JSON.stringify(v) : v);
  }
  const names = Object.keys(params);
  if (r.corruptParam === 0 && names.length) params[names[0]] = 'not%valid/é';
  const query = {}, headers = {};
  const parts = { query: { ...r.query }, headers: { ...r.headers }, body: r.body };
  if (r.drop) parts[r.drop] = r.drop === 'body' ? {} : {};
  if (r.mangle && parts[r.mangle.part] && typeof parts[r.mangle.part] === 'object') {
    const ks = Object.keys(parts[r.mangle.part]);
    if (ks.length && !Array.isArray(parts[r.mangle.part])) parts[r.mangle.part] = { ...parts[r.mangle.part], [ks[r.mangle.key % ks.length]]: r.mangle.value };
  }
  const str = (v) => (typeof v === 'string' ? v : v === undefined ? undefined : String(typeof v === 'object' ? JSON.stringify(v) : v));
  for (const [k, v] of Object.entries(parts.query)) {
    const x = Array.isArray(v) ? v.map(str) : str(v);
    if (x !== undefined && !k.startsWith('__')) query[k] = x;
  }
  for (const [k, v] of Object.entries(parts.headers)) { const x = str(v); if (x !== undefined && P.headerValue(x)) headers[k] = x; }
  return { params, query, headers, body: parts.body };
}

module.exports = {
  caseArb, wire, METHODS,
  rule:
    'A route (generated path with 0-3 parameters, method, request codec over path, query, headers and body), decode-error hooks set or not at router and at route level, and 1-3 real HTTP requests to it that are mostly valid but may miss or corrupt values. Non-trivial: the request codec declares at least one field and the request reaches the route.',
  assumptions: ['Express and body-parser parse requests correctly: the oracle decodes what they deliver (captured before the router) field by field.', 'Declared names are not names of Object.prototype members.'],
  props: [
    {
      name: 'gate',
      runs: { quick: 8000, thorough: 160000 },
      arb: caseArb,
      async check(c, t, env) {
        const L = R.libs(env);
        const express = env.req('express');
        const { createRouter, wrapRouter } = env.pkg('typed-express-router');
        const codec = R.buildRequest(L, c.d);
        const route = L.h.httpRoute({ path: P.pathString(c.segs), method: c.method.toUpperCase(), request: codec, response: { 200: L.t.unknown } });
        const spec = L.h.apiSpec({ 'gen.api': { [c.method]: route } });
        const hookLog = [], calls = [];
        let captured;
        const router = c.mk === 'create' ? createRouter(spec, opts(c.router, hookLog, 'router')) : wrapRouter(express.Router(), spec, opts(c.router, hookLog, 'router'));
        const handlers = Array.from({ length: c.nHandlers }, (_, i) => {
          const h = (req, res, next) => {
            calls.push({ i, decoded: req.decoded, apiName: req.apiName, httpRoute: req.httpRoute });
            if (i < c.nHandlers - 1) return next();
            res.status(200).json({ handled: true });
          };
          return c.asyncHandlers ? async (req, res, next) => { await null; h(req, res, next); } : h;
        });
        router[c.method]('gen.api', handlers, opts(c.route, hookLog, 'route'));
        const app = express();
        if (c.parser === 'json') app.use(express.json({ strict: false }));
        if (c.front) {
          const f = c.front;
          const request = f.request === 'same' ? codec : L.h.httpRequest(f.request === 'none' ? {} : { query: { 'never there': L.t.number } });
          const before = createRouter(L.h.apiSpec({ [f.api]: { [c.method]: f.same ? (f.request === 'same' ? route : { ...route, request }) : L.h.httpRoute({ path: P.pathString(c.segs), method: c.method.toUpperCase(), request, response: {} }) } }));
          before[c.method + 'Unchecked'](f.api, [(req, res, next) => { if (f.body !== undefined) req.body = f.body; if (f.addQuery !== undefined) req.query = { ...req.query, q: f.addQuery }; next(); }]);
          app.use(before);
        }
        app.use((req, res, next) => { captured = { body: req.body, headers: { ...req.headers }, query: req.query }; next(); });
        app.use(router);
        let passed = 0;
        app.use((req, res) => { passed++; res.status(299).json({ unrouted: true }); });
        await H.use(app);

        for (const r of c.requests) {
          const w = wire(r, c.segs);
          hookLog.length = calls.length = passed = 0;
          captured = undefined;
          const hasBody = w.body !== C.ABSENT && w.body !== undefined;
          const body = hasBody ? JSON.stringify(w.body) : undefined;
          const res = await H.send({ method: c.method.toUpperCase(), path: P.fill(c.segs, w.params) + P.queryString(w.query), headers: { ...w.headers, ...(hasBody ? { 'content-type': 'application/json', 'content-length': Buffer.byteLength(body) } : {}) }, body });
          if (!captured) { t.exclude('the request was refused by the body parser'); }
          t.assert(!res.error, () => `no response: ${res.error}`);
          const input = { body: captured.body, headers: captured.headers, query: captured.query, params: w.params };
          const want = R.modelDecode(L, c.d, input);
          if (R.fieldsOf(c.d).length) t.nontrivial();
          t.label(want.ok ? 'accepted' : 'rejected', want.ok ? '' : `rejected: hooks ${c.route.status !== undefined ? 'route' : c.router.status !== undefined ? 'router' : 'default'}`);
          t.assert(passed === 0, 'the request fell through the router');
          if (want.ok) {
            t.assert(calls.length === c.nHandlers && calls.every((x, i) => x.i === i), () => `valid request: handlers called were ${calls.map((x) => x.i)}, response ${res.status} ${res.text.slice(0, 300)}; request ${show(input, 600)}`);
            for (const x of calls) {
              t.assert(eq(x.decoded, want.value), () => `the handler got ${show(x.decoded)}, the request decodes to ${show(want.value)}`);
              t.assert(x.apiName === 'gen.api' && x.httpRoute === route, 'route metadata on the request is wrong');
            }
            t.assert(res.status === 200 && res.text === '{"handled":true}', () => `response ${res.status} ${res.text}`);
            t.assert(hookLog.length === 0, 'a decode-error hook was called for a valid request');
          } else {
            t.assert(calls.length === 0, () => `a handler ran for an invalid request (${want.why})`);
            const status = c.route.status ?? c.router.status ?? 400;
            t.assert(res.status === status, () => `status ${res.status}, configured is ${status}`);
            const parsed = res.text === '' ? undefined : JSON.parse(res.text);
            const wantBody = c.route.body !== undefined ? c.route.body : c.router.body;
            if (wantBody !== undefined) t.assert(eq(parsed, JSON.parse(JSON.stringify(wantBody))), () => `error body ${res.text}, configured is ${show(wantBody)}`);
            else t.assert(Array.isArray(parsed) && parsed.length > 0 && parsed.every((x) => typeof x === 'string'), () => `default error body is ${res.text}`);
            for (const x of hookLog) {
              t.assert(Array.isArray(x.errs) && x.errs.length > 0 && x.errs.every((e) => Array.isArray(e.context)), 'a decode-error hook did not get the validation errors');
              t.assert(x.where === 'route' || (x.hook === 'status' ? c.route.status : c.route.body) === undefined, 'a router-level hook was used although the route has its own');
            }
          }
        }
      },
    },
  ],
};
