'use strict';
const R = require('../lib/request');
const H = require('../lib/http');
const { eq, show } = require('../lib/ser');

const METHODS = ['get', 'post', 'put', 'delete', 'patch'];
// overlapping on purpose; every parameter is a NumberFromString when `num`, else a string
const PATHS = ['/', '/a', '/a/{id}', '/{id}', '/{x}/{id}', '/a/b', '/A/b', '/b/{x}/c', '/b'];
const ALIASES = ['/old', '/old/:id', '/a/:id', '/:x/:id', '/', '/alias/:x'];
const REQ_PATHS = ['/', '/a', '/a/', '/a/1', '/a/b', '/A/b', '/1', '/b', '/b/2/c', '/b/x/c', '/old', '/old/3', '/old/z', '/alias/q', '/none/of/these', '/A', '/a/%31', '/a/b%2Fc', '/2/4'];

const behaviour = (fc, end) =>
  fc.oneof(
    { weight: 5, arbitrary: fc.constant('next') },
    { weight: end, arbitrary: fc.constant('end') },
    { weight: 1, arbitrary: fc.constantFrom('error', 'route', 'router', 'throw') },
  );
const step = (fc, end) => fc.record({ do: behaviour(fc, end), ticks: fc.constantFrom(0, 0, 1, 3) });

// ---- model of Express path matching for the paths above ------------------------------------------
const parse = (p) => p.split('/').filter((s) => s !== '').map((s) => (s[0] === ':' ? { param: s.slice(1) } : s[0] === '{' ? { param: s.slice(1, -1) } : { lit: s }));
function match(pattern, path, { strict, caseSensitive }) {
  const want = parse(pattern), raw = path.split('/').slice(1);
  let got = raw;
  const trailing = got.length > 0 && got[got.length - 1] === '';
  if (trailing) got = got.slice(0, -1);
  if (pattern === '/') return path === '/' ? {} : undefined;
  if (trailing && strict) return undefined;
  if (got.length !== want.length) return undefined;
  const params = {};
  for (let i = 0; i < want.length; i++) {
    if (got[i] === '') return undefined;
    if (want[i].lit !== undefined) {
      if (caseSensitive ? want[i].lit !== got[i] : want[i].lit.toLowerCase() !== got[i].toLowerCase()) return undefined;
    } else params[want[i].param] = decodeURIComponent(got[i]);
  }
  return params;
}

module.exports = {
  rule:
    'A generated API spec (1-4 api names with 1-3 methods over overlapping paths), a history of router operations (use, checked and unchecked routes with 0-3 handlers and aliases, routes that do not exist, native all()), router options and a mount path, then 1-4 concurrent requests. Non-trivial: some request enters at least two generated handlers or middleware.',
  assumptions: ['The model of Express 4 routing in this check (paths of literal segments and parameters) is right.'],
  props: [
    {
      name: 'histories',
      runs: { quick: 7000, thorough: 200000 },
      arb: (fc) => {
        const names = ['api.one', 'api.two', 'three', '4'];
        const api = fc.record({
          path: fc.constantFrom(...PATHS), num: fc.boolean(), query: fc.boolean(),
        });
        return fc.record({
          spec: fc.uniqueArray(fc.tuple(fc.constantFrom(...names), fc.uniqueArray(fc.tuple(fc.constantFrom('get', 'get', ...METHODS), api), { selector: (x) => x[0], minLength: 1, maxLength: 3 })), { selector: (x) => x[0], minLength: 1, maxLength: 4 }),
          opts: fc.record({ strict: fc.boolean(), caseSensitive: fc.boolean(), mergeParams: fc.boolean() }),
          mk: fc.constantFrom('create', 'wrap'),
          mount: fc.constantFrom(undefined, '/', '/m', '/m/:x'),
          ops: fc.array(
            fc.oneof(
              { weight: 2, arbitrary: fc.record({ op: fc.constant('use'), step: step(fc, 1) }) },
              { weight: 6, arbitrary: fc.record({ op: fc.constant('add'), i: fc.nat(20), j: fc.nat(5), checked: fc.boolean(), steps: fc.oneof({ weight: 8, arbitrary: fc.array(step(fc, 4), { maxLength: 3 }) }, { weight: 1, arbitrary: fc.array(step(fc, 4), { minLength: 4, maxLength: 7 }) }), aliases: fc.oneof({ weight: 2, arbitrary: fc.constant(undefined) }, { weight: 1, arbitrary: fc.oneof({ weight: 4, arbitrary: fc.array(fc.constantFrom(...ALIASES), { maxLength: 2 }) }, { weight: 1, arbitrary: fc.array(fc.constantFrom(...ALIASES), { minLength: 3, maxLength: 7 }) }) }) }) },
              { weight: 1, arbitrary: fc.record({ op: fc.constant('missing'), i: fc.nat(5), m: fc.constantFrom(...METHODS), checked: fc.boolean() }) },
              { weight: 1, arbitrary: fc.record({ op: fc.constant('all'), path: fc.constantFrom('/a', '/a/:id', '/:x', '/:x/:id'), step: step(fc, 1) }) },
            ),
            { minLength: 1, maxLength: 8 },
          ),
          requests: fc.array(
            fc.oneof(
              // aimed at one of the added routes
              { weight: 3, arbitrary: fc.record({ aim: fc.nat(20), alias: fc.nat(3), head: fc.constantFrom(false, false, false, false, true), seg: fc.constantFrom('1', '2.5', 'zz', 'B', '7'), n: fc.constantFrom(undefined, '1', 'x', '2') }) },
              { weight: 2, arbitrary: fc.record({ method: fc.constantFrom('get', 'get', 'head', ...METHODS), path: fc.constantFrom(...REQ_PATHS), n: fc.constantFrom(undefined, '1', 'x') }) },
            ),
            { minLength: 1, maxLength: 4 },
          ),
        });
      },
      async check(c, t, env) {
        const L = R.libs(env);
        const express = env.req('express');
        const { createRouter, wrapRouter } = env.pkg('typed-express-router');
        const specShape = {};
        const routes = {};
        for (const [name, ms] of c.spec) {
          specShape[name] = {};
          for (const [m, a] of ms) {
            const params = {};
            for (const s of parse(a.path)) if (s.param) params[s.param] = a.num ? L.tt.NumberFromString : L.t.string;
            const r = L.h.httpRoute({
              path: a.path,
              method: m.toUpperCase(),
              request: L.h.httpRequest({ params, ...(a.query && { query: { n: L.h.optional(L.tt.NumberFromString) } }) }),
              response: { 200: L.t.type({ by: L.t.string, at: L.t.literal(`${name}.${m}`) }) },
            });
            specShape[name][m] = r;
            routes[`${name}.${m}`] = { a, r, name, m };
          }
        }
        const spec = L.h.apiSpec(specShape);
        const router = c.mk === 'create' ? createRouter(spec, c.opts) : wrapRouter(express.Router(c.opts), spec, {});

        const logs = {};
        const seen = (req) => ({ apiName: req.apiName, same: req.httpRoute, decoded: req.decoded });
        const act = (id, s) => async (req, res, next) => {
          const log = logs[req.headers['x-req']];
          for (let i = 0; i < s.ticks; i++) await new Promise((r) => setImmediate(r));
          log.push({ id, ...seen(req) });
          if (s.do === 'next') return next();
          if (s.do === 'end') {
            if (id.startsWith('all')) return res.status(202).json({ by: id });
            return res.sendEncoded(200, { by: id, at: `${req.apiName}.${Object.keys(specShape[req.apiName]).find((m) => specShape[req.apiName][m] === req.httpRoute)}` });
          }
          if (s.do === 'error') return next(new Error(id));
          if (s.do === 'throw') return next(new Error(id));
          return next(s.do);
        };
        // a synchronous handler may throw; an asynchronous one must call next(err) in Express 4
        const handler = (id, s) => (s.do === 'throw' && !s.ticks ? (req) => { logs[req.headers['x-req']].push({ id, ...seen(req) }); throw new Error(id); } : act(id, s));

        // ---- perform the operations, building the model alongside
        const layers = [];
        let mws = [];
        c.ops.forEach((o, k) => {
          if (o.op === 'use') {
            const id = `use${k}`;
            router.use(handler(id, o.step));
            mws = [...mws, { id, do: o.step.do, kind: 'mw' }];
          } else if (o.op === 'all') {
            router.all(o.path, handler(`all${k}`, o.step));
            layers.push({ path: o.path, method: undefined, chain: [{ id: `all${k}`, do: o.step.do, kind: 'native' }] });
          } else if (o.op === 'missing') {
            const [name] = c.spec[o.i % c.spec.length];
            if (specShape[name][o.m]) return;
            let threw;
            try { router[o.checked ? o.m : o.m + 'Unchecked'](name, []); } catch (e) { threw = e; }
            t.assert(threw !== undefined, () => `adding ${o.m} of ${name}, which the spec does not have, did not throw`);
            t.label('undeclared route');
          } else {
            const [name, ms] = c.spec[o.i % c.spec.length];
            const [m, a] = ms[o.j % ms.length];
            const steps = o.steps.map((s, q) => ({ id: `h${k}.${q}`, do: s.do, kind: o.checked ? 'checked' : 'unchecked' }));
            router[o.checked ? m : m + 'Unchecked'](name, o.steps.map((s, q) => handler(`h${k}.${q}`, s)), o.aliases && { routeAliases: o.aliases });
            for (const path of [a.path, ...(o.aliases || [])]) layers.push({ path, method: m, key: `${name}.${m}`, chain: [...mws, ...(o.checked ? [{ kind: 'validate' }] : []), ...steps] });
            t.label(o.checked ? 'checked' : 'unchecked', o.aliases && o.aliases.length ? 'aliases' : '');
          }
        });
        const added = layers.filter((l) => l.method);

        const app = express();
        const mountParams = c.mount === '/m/:x';
        if (c.mount === undefined) app.use(router);
        else app.use(c.mount, router);
        app.use((req, res) => res.status(404).json({ end: 'not found' }));
        app.use((err, req, res, next) => res.status(500).json({ end: 'error', by: err.message }));
        await H.use(app);

        const reqs = c.requests.map((r) => {
          if (r.aim === undefined) return r;
          if (!added.length) return { method: 'get', path: '/', n: r.n };
          const l = added[r.aim % added.length];
          return { method: r.head && l.method === 'get' ? 'head' : l.method, path: '/' + parse(l.path).map((s) => s.lit || r.seg).join('/'), n: r.n };
        });
        const prefix = c.mount === undefined || c.mount === '/' ? '' : mountParams ? '/m/9' : '/m';
        reqs.forEach((r, i) => { logs[i] = []; });
        const results = await Promise.all(
          reqs.map((r, i) => H.send({ method: r.method.toUpperCase(), path: prefix + (prefix && r.path === '/' ? '/' : r.path) + (r.n !== undefined ? `?n=${r.n}` : ''), headers: { 'x-req': String(i) } })),
        );

        // ---- what must have happened
        reqs.forEach((r, i) => {
          const want = [];
          let end;
          outer: for (const l of layers) {
            const effective = r.method === 'head' ? 'get' : r.method;
            if (l.method && l.method !== effective) continue;
            let params = match(l.path, r.path, c.opts);
            if (!params) continue;
            if (c.opts.mergeParams && mountParams) params = { x: '9', ...params };
            let decoded, rt, ok;
            if (l.key) {
              rt = routes[l.key];
              const q = {};
              if (r.n !== undefined) q.n = r.n;
              const d = {
                params: parse(rt.a.path).filter((s) => s.param).map((s) => ({ name: s.param, codec: { k: rt.a.num ? 'NumberFromString' : 'string' } })),
                ...(rt.a.query && { query: [{ name: 'n', codec: { k: 'optional', of: { k: 'NumberFromString' } } }] }),
              };
              ok = R.modelDecode(L, d, { params, query: q });
              decoded = { either: ok };
            }
            for (const s of l.chain) {
              if (s.kind === 'validate') {
                if (!ok.ok) { end = { status: 400 }; break outer; }
                decoded = { value: ok.value };
                continue;
              }
              want.push({ id: s.id, key: l.key, decoded });
              if (s.do === 'end') { end = l.key ? { status: 200, body: { by: s.id, at: l.key } } : { status: 202, body: { by: s.id } }; break outer; }
              if (s.do === 'error' || s.do === 'throw') { end = { status: 500, body: { end: 'error', by: s.id } }; break outer; }
              if (s.do === 'route') break;
              if (s.do === 'router') break outer;
            }
          }
          if (!end) end = { status: 404, body: { end: 'not found' } };
          const got = logs[i];
          const where = () => `${r.method} ${r.path} n=${r.n} of ${show(c.ops)}`;
          t.label(`end ${end.status}`, `steps:${Math.min(want.length, 4)}`);
          if (want.length >= 2) t.nontrivial();
          t.assert(!results[i].error, () => `${where()}: ${results[i].error}`);
          t.assert(eq(got.map((g) => g.id), want.map((w) => w.id)), () => `${where()}: ran ${got.map((g) => g.id)}, expected ${want.map((w) => w.id)}`);
          got.forEach((g, k) => {
            const w = want[k];
            if (!w.key) return;
            const rt = routes[w.key];
            t.assert(g.apiName === rt.name && g.same === spec[rt.name][rt.m], () => `${where()}: ${g.id} saw api name ${g.apiName}, expected ${w.key}`);
            if (w.decoded.value !== undefined) t.assert(eq(g.decoded, w.decoded.value), () => `${where()}: ${g.id} saw decoded ${show(g.decoded)}, expected ${show(w.decoded.value)}`);
            else if (w.decoded.either.ok) t.assert(g.decoded && g.decoded._tag === 'Right' && eq(g.decoded.right, w.decoded.either.value), () => `${where()}: ${g.id} saw ${show(g.decoded)}, expected Right ${show(w.decoded.either.value)}`);
            else t.assert(g.decoded && g.decoded._tag === 'Left' && Array.isArray(g.decoded.left) && g.decoded.left.length > 0, () => `${where()}: ${g.id} saw ${show(g.decoded)}, expected Left`);
          });
          t.assert(results[i].status === end.status, () => `${where()}: status ${results[i].status}, expected ${end.status} ${show(end.body)}; body ${results[i].text}`);
          if (end.body && r.method !== 'head') t.assert(eq(JSON.parse(results[i].text), end.body), () => `${where()}: body ${results[i].text}, expected ${show(end.body)}`);
        });
      },
    },
  ],
};
