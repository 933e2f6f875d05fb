'use strict';
const C = require('../lib/codec');
const R = require('../lib/request');
const P = require('../lib/routes');
const H = require('../lib/http');
const K = require('../lib/client');
const { eq, show } = require('../lib/ser');

module.exports = {
  rule:
    'requests: a route (path with 0-3 parameters, method, request codec: httpRequest, a union of two, or one with a non-object JSON body), a base URL, and 1-3 concurrent calls with generated values, recorded by a raw HTTP server. operations: an API spec object with inherited, undefined and unknown entries. Non-trivial: the request carries at least two values or one that needs escaping; the spec has at least two operations or an irregular entry.',
  assumptions: ['The oracle parses the raw request line with its own splitting and decodeURIComponent.', 'Path parameters are not empty, "." or "..": no URL can carry those.'],
  props: [
    {
      name: 'requests',
      runs: { quick: 8000, thorough: 200000 },
      arb: (fc) =>
        K.routeArb().chain((r) =>
          fc.record({
            r: fc.constant(r),
            shape: fc.constantFrom('plain', 'plain', 'plain', 'jsonBody', 'union'),
            json: C.json(2),
            bigs: fc.option(fc.record({ big: fc.bigInt(), at: fc.constantFrom('alone', 'field', 'list') }), { nil: undefined, freq: 2 }),
            factory: fc.constantFrom('superagent', 'superagent', 'supertest'),
            base: fc.constantFrom('', '/', '/base', '/base/', '/b/v1/', '/b%20ase'),
            calls: fc.array(fc.record({ a: K.valuesArb(r.d), second: fc.boolean() }), { minLength: 1, maxLength: 3 }),
          }),
        ),
      async check(c, t, env) {
        const L = R.libs(env);
        const SA = env.pkg('superagent-wrapper');
        const d = c.r.d;
        let request = R.buildRequest(L, d);
        const jsonBody = c.shape === 'jsonBody' && !d.body;
        const big = c.bigs && c.bigs.big;
        const json = c.bigs === undefined ? c.json : c.bigs.at === 'alone' ? big : c.bigs.at === 'list' ? [c.json, big, -big] : { rest: c.json, n: big };
        if (jsonBody) request = L.t.intersection([L.h.httpRequest({ ...(d.query && { query: C.toProps(L, d.query) }), ...(d.params && { params: C.toProps(L, d.params) }), ...(d.headers && { headers: C.toProps(L, d.headers) }) }), L.t.type({ body: L.t.unknown })]);
        if (jsonBody && R.fieldsOf(d).some((f) => f.name === 'body')) t.exclude('a field named body beside a body');
        const union = c.shape === 'union' && !R.fieldsOf(d).some((f) => f.name === 'kind');
        if (union) request = L.t.union([request, L.h.httpRequest({ query: { kind: L.t.literal('other') }, params: d.params ? C.toProps(L, d.params) : {} })]);
        const route = L.h.httpRoute({ path: P.pathString(c.r.segs), method: c.r.method.toUpperCase(), request, response: { 200: L.t.unknown } });
        const spec = L.h.apiSpec({ op: { [c.r.method]: route } });
        const got = {};
        const { port } = await H.use((req, res) => {
          const chunks = [];
          req.on('data', (x) => chunks.push(x));
          req.on('end', () => {
            const i = req.headers['x-call'];
            (got[i] = got[i] || []).push({ method: req.method, url: req.url, headers: req.headers, body: Buffer.concat(chunks).toString('utf8') });
            res.writeHead(200, { 'content-type': 'application/json' });
            res.end('{}');
          });
        });
        const origin = `http://127.0.0.1:${port}`;
        const isSuper = c.factory === 'superagent';
        const f = isSuper ? SA.superagentRequestFactory(env.req('superagent'), origin + c.base) : SA.supertestRequestFactory(env.req('supertest')(origin));
        const client = SA.buildApiClient(f, spec);
        await Promise.all(
          c.calls.map(async (call, i) => {
            const a = K.adapt(L, d, call.a);
            if (!K.sendable(L, d, a) || (d.params || []).some((x) => a[x.name] === undefined)) return t.label('not sendable');
            const second = union && call.second;
            const fields = second ? (d.params || []).map((x) => ({ ...x, part: 'params' })) : R.fieldsOf(d);
            // a union encodes with the first member that recognises the value
            if (union && !second && !R.buildRequest(L, d).is(a)) return t.label('not sendable');
            const arg = second ? { ...C.obj(fields.map((x) => [x.name, a[x.name]])), kind: 'other' } : { ...a };
            if (jsonBody) arg.body = json;
            if (second && R.buildRequest(L, d).is(arg)) return t.label('ambiguous union');
            const want = { params: {}, query: {}, headers: {}, body: d.body && !second ? {} : jsonBody ? json : undefined };
            if (second) want.query.kind = 'other';
            let bad = false;
            for (const x of fields) {
              if (a[x.name] === undefined) continue;
              const enc = C.build(L, x.codec).encode(a[x.name]);
              if (enc === undefined) continue;
              Object.defineProperty(want[x.part], x.name, { value: enc, enumerable: true });
            }
            let text;
            try { text = want.body === undefined ? undefined : JSON.stringify(want.body, (_, v) => (typeof v === 'bigint' ? `${v}` : v)); } catch { return t.label('not sendable'); }
            if (Object.keys(arg).length >= 2 || Object.values(want.params).some((v) => encodeURIComponent(v) !== v)) t.nontrivial();
            const n = { p: Object.keys(want.params).length, q: Object.keys(want.query).length, h: Object.keys(want.headers).length };
            t.label(c.factory, second ? 'second member' : jsonBody ? (c.bigs ? 'JSON body with bigints' : 'JSON body') : d.body ? 'object body' : 'no body', ...Object.keys(n).filter((k) => n[k]).map((k) => ({ p: 'path parameters', q: 'query', h: 'headers' })[k]));
            await client.op[c.r.method](arg).set('x-call', String(i));
            const where = () => `${c.factory} ${c.base} ${c.r.method} ${route.path} with ${show(arg)}`;
            const g = got[i];
            t.assert(g && g.length === 1, () => `${where()}: ${g ? g.length : 0} requests were sent`);
            const r = g[0];
            t.assert(r.method === c.r.method.toUpperCase(), () => `${where()}: method ${r.method}`);
            // path
            const [rawPath, rawQuery = ''] = r.url.split('?');
            const base = isSuper ? c.base.replace(/\/$/, '') : '';
            t.assert(rawPath.startsWith(base + '/') || (rawPath === base), () => `${where()}: path ${rawPath} is not under the base URL`);
            const segs = rawPath.slice(base.length).split('/').slice(1).map(decodeURIComponent);
            const wantSegs = c.r.segs.length ? c.r.segs.map((s) => P.segmentText(s, want.params)) : [''];
            t.assert(eq(segs, wantSegs), () => `${where()}: path ${rawPath}, expected the segments ${show(wantSegs)}`);
            // query: exactly the encoded values
            const q = {};
            for (const kv of rawQuery === '' ? [] : rawQuery.split('&')) {
              const j = kv.indexOf('=');
              const dec = (s) => decodeURIComponent(s.replace(/\+/g, ' '));
              const k = dec(j < 0 ? kv : kv.slice(0, j)), v = j < 0 ? '' : dec(kv.slice(j + 1));
              q[k] = k in q ? [].concat(q[k], v) : v;
            }
            t.assert(eq(q, want.query), () => `${where()}: query ${rawQuery} is ${show(q)}, expected ${show(want.query)}`);
            for (const k of Object.keys(want.headers)) t.assert(r.headers[k] === want.headers[k], () => `${where()}: header ${k} is ${show(r.headers[k])}, expected ${show(want.headers[k])}`);
            for (const k of K.HEADER_NAMES) if (!(k in want.headers)) t.assert(!(k in r.headers), () => `${where()}: header ${k} was sent`);
            if (text === undefined) t.assert(r.body === '', () => `${where()}: a body was sent: ${r.body}`);
            else {
              t.assert(/^application\/json/.test(r.headers['content-type'] || ''), () => `${where()}: content-type ${r.headers['content-type']}`);
              let parsed;
              try { parsed = JSON.parse(r.body); } catch { t.fail(`${where()}: body ${r.body} is not JSON`); }
              t.assert(eq(parsed, JSON.parse(text)), () => `${where()}: body ${r.body}, expected ${text}`);
            }
          }),
        );
      },
    },
    {
      name: 'operations',
      runs: { quick: 2000, thorough: 20000 },
      arb: (fc) =>
        fc.record({
          own: fc.uniqueArray(fc.tuple(fc.constantFrom('a', 'api.v1.user', 'b c', 'then', 'length', '0', 'constructor', 'hasOwn'), fc.uniqueArray(fc.tuple(fc.constantFrom(...K.METHODS, 'get', 'post', 'head', 'options', 'GET', 'toString'), fc.constantFrom('/x', '/y')), { selector: (x) => x[0], maxLength: 4 })), { selector: (x) => x[0], maxLength: 4 }),
          undef: fc.oneof({ weight: 5, arbitrary: fc.constant(undefined) }, { weight: 1, arbitrary: fc.constantFrom(...K.METHODS) }),
          inherited: fc.boolean(),
        }),
      check(c, t, env) {
        const L = R.libs(env);
        const SA = env.pkg('superagent-wrapper');
        const route = (method, path) => L.h.httpRoute({ path, method: method.toUpperCase(), request: L.h.httpRequest({}), response: { 200: L.t.string } });
        const spec = c.inherited ? Object.create({ inheritedOp: { get: route('get', '/inherited') } }) : {};
        for (const [name, ms] of c.own) {
          spec[name] = c.inherited ? Object.create({ patch: route('patch', '/inherited') }) : {};
          for (const [m, p] of ms) spec[name][m] = route(m, p);
        }
        let undef = false;
        if (c.undef && c.own.length) { spec[c.own[0][0]][c.undef] = undefined; undef = true; }
        const calls = [];
        const fake = (r, params) => {
          const req = { query: () => req, set: () => req, send: () => req, ok: (f) => { req.okFn = f; return req; }, then: undefined };
          calls.push({ r, params });
          return req;
        };
        let client, threw;
        try { client = SA.buildApiClient(fake, spec); } catch (e) { threw = e; }
        if (c.own.length >= 2 || undef || c.inherited) t.nontrivial();
        t.label(undef ? 'undefined route' : 'regular', c.inherited ? 'inherited entries' : '');
        if (undef) return t.assert(threw, 'a spec with an undefined route was accepted');
        t.assert(!threw, () => `buildApiClient threw ${threw && threw.stack}`);
        t.assert(eq(Object.keys(client).sort(), c.own.map(([n]) => n).sort()), () => `the client has ${Object.keys(client)}, the spec ${c.own.map(([n]) => n)}`);
        for (const [name, ms] of c.own) {
          const want = ms.map(([m]) => m).filter((m) => K.METHODS.includes(m));
          t.assert(eq(Object.keys(client[name]).sort(), want.sort()), () => `operation ${name} has ${Object.keys(client[name])}, expected ${want}`);
          for (const m of want) {
            calls.length = 0;
            const req = client[name][m]({});
            t.assert(calls.length === 1 && calls[0].r === spec[name][m], () => `${name}.${m} requested another route`);
            t.assert(typeof req.decode === 'function' && typeof req.decodeExpecting === 'function', 'no decode functions');
            t.assert(req.okFn({ status: 500 }) === true, 'error statuses would be thrown');
          }
        }
      },
    },
  ],
};
