'use strict';
const Module = require('module');
const R = require('../lib/request');
const H = require('../lib/http');
const { eq, show } = require('../lib/ser');

const METHODS = ['get', 'post', 'put', 'delete', 'patch'];
const NAMES = ['api.one', 'two', 'x y', ''].slice(0, 3);

// Two instances of the router: spans recorded, and the OpenTelemetry API absent.
let inst;
function instances(env) {
  if (inst) return inst;
  const otel = env.req('@opentelemetry/api');
  const base = env.req('@opentelemetry/sdk-trace-base');
  const rec = { started: [], ended: [], diag: [], sampled: true, out: [] };
  const provider = new base.BasicTracerProvider({
    spanProcessors: [{ onStart: (s) => rec.started.push(s), onEnd: (s) => rec.ended.push(s), forceFlush: async () => {}, shutdown: async () => {} }],
  });
  // the same tracer, or one that samples everything out: spans that record nothing, and still have to be ended
  const wrapped = {
    getTracer: (...a) => {
      const real = provider.getTracer(...a);
      const start = (name) => {
        const s = { name, ends: 0, late: 0 };
        rec.out.push(s);
        const use = () => { if (s.ends) s.late++; return span; };
        const span = { isRecording: () => false, spanContext: () => ({ traceId: '0'.repeat(32), spanId: '0'.repeat(16), traceFlags: 0 }), end: () => { s.ends++; } };
        for (const m of ['setAttribute', 'setAttributes', 'addEvent', 'addLink', 'addLinks', 'setStatus', 'updateName', 'recordException']) span[m] = use;
        return span;
      };
      return {
        startSpan: (...x) => (rec.sampled ? real.startSpan(...x) : start(x[0])),
        startActiveSpan: (...x) => (rec.sampled ? real.startActiveSpan(...x) : x[x.length - 1](start(x[0]))),
      };
    },
  };
  const say = (...a) => rec.diag.push(a.join(' '));
  otel.diag.setLogger({ error: say, warn: say, info() {}, debug() {}, verbose() {} }, { suppressOverrideMessage: true });
  const load = (absent) => {
    const dir = env.pkgDir('typed-express-router');
    for (const k of Object.keys(require.cache)) if (k.startsWith(dir)) delete require.cache[k];
    const resolve = Module._resolveFilename;
    if (absent)
      Module._resolveFilename = function (r, ...rest) {
        if (r === '@opentelemetry/api') { const e = new Error("Cannot find module '@opentelemetry/api'"); e.code = 'MODULE_NOT_FOUND'; throw e; }
        return resolve.call(this, r, ...rest);
      };
    try { return env.pkg('typed-express-router'); } finally { Module._resolveFilename = resolve; }
  };
  const absent = load(true);
  const present = load(false);
  otel.trace.setGlobalTracerProvider(wrapped);
  inst = { rec, absent, present, off: () => otel.trace.disable(), on: () => { otel.trace.disable(); otel.trace.setGlobalTracerProvider(wrapped); } };
  return inst;
}

const hook = (fc) => fc.record({ status: fc.option(fc.constantFrom(422, 503, 418), { nil: undefined, freq: 2 }), body: fc.option(fc.oneof(fc.constantFrom(null, '', 0, [], 'bad é'), fc.dictionary(fc.constantFrom('m', 'n'), fc.string({ maxLength: 3 }), { maxKeys: 2, noNullPrototype: true })), { nil: undefined, freq: 2 }) }, { noNullPrototype: true });

module.exports = {
  rule:
    'A spec of 1-3 api names with routes on a shared or own path, router middleware that may defer, a list of routes (checked or not, whose handlers send a right or wrong payload, defer, fall through, or end without sendEncoded), error hooks, and 1-5 concurrent requests that decode or not. The same requests go to a router with recorded spans and to one that cannot load the OpenTelemetry API. Non-trivial: at least two spans are expected.',
  assumptions: ['The OpenTelemetry SDK is trusted to report started and ended spans.', 'A handler calls sendEncoded at most once per request.'],
  props: [
    {
      name: 'spans',
      runs: { quick: 4000, thorough: 100000 },
      setup: (env) => { instances(env); },
      arb: (fc) =>
        fc.record({
          routes: fc.array(
            fc.record({
              name: fc.nat(2), method: fc.constantFrom('get', 'get', 'post', 'delete', 'put', 'patch'), own: fc.boolean(), checked: fc.boolean(),
              ticks: fc.constantFrom(0, 0, 1, 2), mid: fc.boolean(),
              act: fc.constantFrom('send', 'send', 'sendByName', 'wrong', 'unknown', 'undeclared', 'throws', 'next', 'plain', 'error'),
              thrown: fc.constantFrom('text', '', undefined, null, 0, 'Error'), decode: hook(fc), encode: hook(fc), alias: fc.boolean(),
            }),
            { minLength: 1, maxLength: 4 },
          ),
          // router middleware, added before one of the routes
          uses: fc.array(fc.record({ before: fc.nat(3), ticks: fc.constantFrom(0, 1, 2) }), { maxLength: 2 }),
          explicit: fc.boolean(),
          sampled: fc.constantFrom(true, true, true, true, false),
          decode: hook(fc), encode: hook(fc),
          requests: fc.array(fc.record({ r: fc.nat(5), id: fc.constantFrom('1', '2', '7.5', 'zz', '12'), head: fc.boolean(), alias: fc.boolean() }), { minLength: 1, maxLength: 5 }),
        }),
      async check(c, t, env) {
        const L = R.libs(env);
        const express = env.req('express');
        const I = instances(env);
        const shape = {};
        // a codec that recognises everything and encodes nothing, but throws what it is given
        const throwing = new L.t.Type('throwing', () => true, L.t.success, (x) => { throw x === 'Error' ? new Error('encode') : x; });
        const rs = [];
        for (const r of c.routes) {
          const name = NAMES[r.name];
          const s = (shape[name] = shape[name] || {});
          const path = s[r.method] ? s[r.method].path : r.own ? `/own${r.name}/{id}` : '/shared/{id}';
          if (!s[r.method])
            s[r.method] = L.h.httpRoute({ path, method: r.method.toUpperCase(), request: L.h.httpRequest({ params: { id: L.tt.NumberFromString } }), response: { 200: L.t.number, ok: L.t.number, created: L.tt.DateFromISOString, 404: L.t.type({ message: L.t.string }), 299: undefined, 202: throwing } });
          rs.push({ ...r, name, path, status: r.encode.status ?? c.encode.status ?? 500, alias: r.alias ? `/alias${r.name}/:id` : undefined });
        }
        const spec = L.h.apiSpec(shape);
        const hooks = (d, e) => ({
          ...(c.explicit && { getDecodeErrorStatusCode: undefined, decodeErrorFormatter: undefined, getEncodeErrorStatusCode: undefined, encodeErrorFormatter: undefined }),
          ...(d.status !== undefined && { getDecodeErrorStatusCode: () => d.status }),
          ...(d.body !== undefined && { decodeErrorFormatter: () => d.body }),
          ...(e.status !== undefined && { getEncodeErrorStatusCode: () => e.status }),
          ...(e.body !== undefined && { encodeErrorFormatter: () => e.body }),
        });
        const pick = (m, i) => rs[i % rs.length];
        const reqs = c.requests.map((q) => { const r = pick(rs, q.r); return { method: q.head && r.method === 'get' ? 'HEAD' : r.method.toUpperCase(), path: (q.alias && r.alias ? r.alias.replace(':id', q.id) : r.path.replace('{id}', q.id)), id: q.id }; });

        const run = async (mod) => {
          const router = mod.createRouter(spec, hooks(c.decode, c.encode));
          for (const [i, r] of rs.entries()) {
            for (const u of c.uses) if (u.before === i) router.use(async (req, res, next) => { for (let k = 0; k < u.ticks; k++) await new Promise((f) => setImmediate(f)); next(); });
            const handlers = [];
            if (r.mid) handlers.push((req, res, next) => setImmediate(next));
            handlers.push(async (req, res, next) => {
              for (let i = 0; i < r.ticks; i++) await new Promise((f) => setImmediate(f));
              if (r.act === 'send') res.sendEncoded(200, 5);
              else if (r.act === 'sendByName') res.sendEncoded('created', new Date(0));
              else if (r.act === 'wrong') res.sendEncoded(404, { message: 5 });
              else if (r.act === 'unknown') res.sendEncoded('nope', 5);
              else if (r.act === 'undeclared') res.sendEncoded(299, 5);
              else if (r.act === 'throws') res.sendEncoded(202, r.thrown);
              else if (r.act === 'plain') res.status(201).json({ plain: true });
              else if (r.act === 'error') next(new Error('handler'));
              else next();
            });
            router[r.checked ? r.method : r.method + 'Unchecked'](r.name, handlers, { ...hooks(r.decode, r.encode), ...(r.alias && { routeAliases: [r.alias] }) });
          }
          const app = express();
          app.use(router);
          app.use((err, req, res, next) => res.status(500).json({ err: err.message }));
          await H.use(app);
          return Promise.all(reqs.map((q) => H.send(q)));
        };

        I.on();
        I.rec.started.length = I.rec.ended.length = I.rec.diag.length = I.rec.out.length = 0;
        I.rec.sampled = c.sampled;
        const withSpans = await run(I.present);
        const started = [...I.rec.started], ended = [...I.rec.ended], diag = [...I.rec.diag];

        // ---- expected spans
        const want = [], statuses = [];
        const A = (r, extra) => ({ 'api_ts.operation_id': r.name, 'api_ts.method': r.method.toUpperCase(), 'api_ts.path': r.path, ...extra });
        for (const q of reqs) {
          const ok = q.id !== 'zz';
          let status = 404;
          for (const r of rs) {
            if (r.method !== (q.method === 'HEAD' ? 'get' : q.method.toLowerCase())) continue;
            const at = [r.path.replace('{id}', q.id), r.alias && r.alias.replace(':id', q.id)];
            // the main path and the alias are separate routes of the same chain
            if (!at.includes(q.path)) continue;
            const dStatus = r.decode.status ?? c.decode.status ?? 400;
            want.push({ name: 'typed-express-router.decode', attributes: A(r, ok ? {} : { 'api_ts.status_code': dStatus }), error: !ok, body: ok ? undefined : r.decode.body !== undefined ? r.decode.body : c.decode.body });
            if (!ok && r.checked) { status = dStatus; break; }
            if (r.act === 'next') continue;
            if (r.act === 'plain') status = 201;
            else if (r.act === 'error') status = 500;
            else {
              const good = { send: 200, sendByName: 201 }[r.act];
              status = good || r.status;
              want.push({ name: 'typed-express-router.encode', attributes: A(r, { 'api_ts.status_code': status }), error: !good });
            }
            break;
          }
          statuses.push(status);
        }
        if (want.length >= 2) t.nontrivial();
        t.label(`spans:${Math.min(want.length, 6)}`, ...new Set(want.map((w) => w.name + (w.error ? ' error' : ''))));
        const key = (x) => JSON.stringify([x.name, Object.entries(x.attributes).sort(), x.error]);
        const got = ended.map((s) => ({ name: s.name, attributes: s.attributes, error: s.status.code === 2, span: s }));
        withSpans.forEach((r, i) => t.assert(!r.error && r.status === statuses[i], () => `${show(reqs[i])} responded ${show(r)}, expected status ${statuses[i]}`));
        t.assert(diag.length === 0, () => `a span was used wrongly: ${diag.join('; ')}`);
        if (!c.sampled) {
          t.label('sampled out');
          const out = [...I.rec.out];
          t.assert(eq(out.map((s) => s.name).sort(), want.map((w) => w.name).sort()), () => `spans ${show(out)} were started, expected ${show(want.map((w) => w.name))}`);
          t.assert(out.every((s) => s.ends === 1 && s.late === 0), () => `spans that record nothing were not ended exactly once, or used afterwards: ${show(out)}`);
          return;
        }
        t.assert(started.length === want.length && ended.length === want.length && new Set(ended).size === ended.length, () => `${started.length} spans started and ${ended.length} ended, expected ${want.length}: ${show(got.map((g) => key(g)))} expected ${show(want.map(key))}`);
        t.assert(eq(got.map(key).sort(), want.map(key).sort()), () => `spans ${show(got.map(key).sort())}, expected ${show(want.map(key).sort())}`);
        for (const g of got) {
          const ex = g.span.events.filter((e) => e.name === 'exception');
          t.assert(g.error ? ex.length >= 1 : ex.length === 0, () => `span ${key(g)} has ${ex.length} exceptions recorded`);
          t.assert(g.span.ended && g.span.duration, 'a reported span has not ended');
        }
        // decode errors are recorded with the formatted error
        const bodies = want.filter((w) => w.body !== undefined).map((w) => key(w) + JSON.stringify(w.body)).sort();
        const gotBodies = got.filter((g) => g.error && /decode/.test(g.name)).map((g) => { try { return key(g) + JSON.stringify(JSON.parse(g.span.events[0].attributes['exception.message'])); } catch { return key(g) + String(g.span.events[0].attributes['exception.message']); } });
        for (const b of bodies) t.assert(gotBodies.includes(b), () => `no decode span records ${b}; recorded are ${show(gotBodies)}`);

        // ---- the same without a provider and without the API
        I.off();
        I.rec.started.length = 0;
        const strip = (r) => ({ status: r.status, text: r.text, type: r.headers && r.headers['content-type'], error: r.error });
        const plain = withSpans.map(strip);
        const off = (await run(I.absent)).map(strip);
        t.assert(eq(off, plain), () => `without @opentelemetry/api the responses are ${show(off)}, with it ${show(plain)}`);
        t.assert(I.rec.started.length === 0, 'spans were started without the API');
      },
    },
  ],
};
