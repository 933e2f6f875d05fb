'use strict';
const C = require('../lib/codec');
const R = require('../lib/request');
const H = require('../lib/http');
const STATUSES = require('../lib/statuses');
const { eq, show } = require('../lib/ser');

// 1xx responses are not final and cannot be sent by a handler
const KEYS = Object.keys(STATUSES).filter((k) => STATUSES[k] >= 200);
const CODES = KEYS.map((k) => STATUSES[k]);
const NO_BODY = [204, 304];

const statusArb = (fc) => fc.oneof({ weight: 4, arbitrary: fc.constantFrom(200, 201, 204, 205, 304, 400, 404, 500, ...CODES) }, { weight: 3, arbitrary: fc.constantFrom('ok', 'created', 'invalidRequest', 'notFound', 'internalError', ...KEYS) }, { weight: 1, arbitrary: fc.constantFrom('nope', 'OK', 'toString', 'constructor', '200', 299, 600, 'default') });
const codecArb = (fc) => fc.oneof({ weight: 12, arbitrary: C.bodyDesc(2) }, { weight: 1, arbitrary: fc.constantFrom({ k: 'unknown' }, { k: 'undefined' }, { k: 'optional', of: { k: 'string' } }) });
const hooksArb = (fc) =>
  fc.record({
    status: fc.option(fc.constantFrom(500, 503, 418, 400, 200), { nil: undefined, freq: 2 }),
    body: fc.option(fc.oneof(C.json(1), fc.constantFrom([], {}, null, 0, '', false)), { nil: undefined, freq: 2 }),
    after: fc.boolean(),
    explicit: fc.boolean(),
  }, { noNullPrototype: true });

const opts = (h, log, where) => ({
  // an unset hook may be given as an explicit undefined
  ...(h.explicit && { getEncodeErrorStatusCode: undefined, encodeErrorFormatter: undefined, afterEncodedResponseSent: undefined, routeAliases: undefined }),
  ...(h.status !== undefined && { getEncodeErrorStatusCode: (err, req) => { log.push({ where, hook: 'status', err, req }); return h.status; } }),
  ...(h.body !== undefined && { encodeErrorFormatter: (err, req) => { log.push({ where, hook: 'body', err, req }); return h.body; } }),
  ...(h.after && { afterEncodedResponseSent: (status, payload, req, res) => { log.push({ where, hook: 'after', status, payload, req, res, ended: res.writableEnded }); } }),
});
const own = (o, k) => Object.prototype.hasOwnProperty.call(o, k);
const stringify = (v) => { try { return { s: JSON.stringify(v) }; } catch (e) { return { threw: true }; } };

// What sending `payload` under `status` must do.
function model(L, response, status, payload) {
  if (!own(response, status) || response[status] === undefined) return { error: 'undeclared status' };
  const code = typeof status === 'number' ? status : own(STATUSES, status) ? STATUSES[status] : undefined;
  if (code === undefined) return { error: 'unknown status name' };
  const codec = response[status];
  let is = false, enc;
  try { is = codec.is(payload); } catch { return { error: 'is throws' }; }
  if (!is) return { error: 'payload of another type' };
  try { enc = codec.encode(payload); } catch { return { error: 'encode throws' }; }
  const s = stringify(enc);
  return s.threw ? { error: 'encodes to something that is not JSON' } : { code, text: s.s };
}

module.exports = {
  rule:
    'A response specification (1-4 statuses, numeric or by name, with generated codecs), encode-error and post-response hooks set or not at router and at route level, and 1-3 requests whose handler sends a generated status and payload: usually declared and of the right type, sometimes of another type, undeclared, unknown or not encodable. Non-trivial: the codec changes or constrains the payload (anything but unknown), or sending must fail.',
  assumptions: ['Response codecs of io-ts are trusted (is and encode).', 'Status codes 1xx are not sent: they are not final responses.', 'Hooks do not throw.'],
  props: [
    {
      name: 'send',
      runs: { quick: 10000, thorough: 200000 },
      arb: (fc) =>
        fc.oneof({ weight: 7, arbitrary: fc.constant([1, 4]) }, { weight: 1, arbitrary: fc.constant([5, 9]) }).chain(([minLength, maxLength]) => fc.uniqueArray(fc.tuple(statusArb(fc), codecArb(fc)), { selector: (x) => String(x[0]), minLength, maxLength })).chain((resp) =>
          fc.record({
            resp: fc.constant(resp),
            mk: fc.constantFrom('create', 'wrap'),
            variant: fc.constantFrom('checked', 'checked', 'unchecked'),
            method: fc.constantFrom('get', 'post', 'put', 'delete', 'patch'),
            late: fc.boolean(),
            router: hooksArb(fc),
            route: hooksArb(fc),
            sends: fc.array(
              fc.constantFrom(...resp).chain(([s, d]) =>
                fc.record({
                  status: fc.oneof({ weight: 8, arbitrary: fc.constant(s) }, { weight: 1, arbitrary: statusArb(fc) }),
                  payload: fc.oneof({ weight: 8, arbitrary: C.arbA(d) }, { weight: 1, arbitrary: C.arbI(d) }, { weight: 1, arbitrary: fc.oneof(C.json(1), fc.bigInt(), fc.constant(undefined)) }),
                }),
              ),
              { minLength: 1, maxLength: 3 },
            ),
          }),
        ),
      async check(c, t, env) {
        const L = R.libs(env);
        const express = env.req('express');
        const { createRouter, wrapRouter } = env.pkg('typed-express-router');
        const response = {};
        for (const [s, d] of c.resp) response[s] = C.build(L, d);
        const spec = L.h.apiSpec({ 'gen.send': { [c.method]: L.h.httpRoute({ path: '/send', method: c.method.toUpperCase(), request: L.h.httpRequest({}), response }) } });
        const log = [];
        let current, thrown;
        const router = c.mk === 'create' ? createRouter(spec, opts(c.router, log, 'router')) : wrapRouter(express.Router(), spec, opts(c.router, log, 'router'));
        const handler = (req, res) => {
          current.req = req;
          try { res.sendEncoded(current.status, current.payload); } catch (e) { thrown = e; res.destroy ? res.destroy() : res.socket.destroy(); }
        };
        router[c.variant === 'checked' ? c.method : c.method + 'Unchecked']('gen.send', [c.late ? async (req, res) => { await null; handler(req, res); } : handler], opts(c.route, log, 'route'));
        const app = express();
        app.use(router);
        await H.use(app);

        for (const s of c.sends) {
          const numeric = typeof s.status === 'number' || !/^\d+$/.test(s.status);
          const want = model(L, response, s.status, s.payload);
          if (!numeric) continue; // '200' as a string: numeric strings are not in the typed domain
          log.length = 0;
          thrown = undefined;
          current = s;
          const res = await H.send({ method: c.method.toUpperCase(), path: '/send' });
          const d = c.resp.find(([x]) => x === s.status);
          if (want.error || (d && d[1].k !== 'unknown')) t.nontrivial();
          t.label(want.error ? `error: ${want.error}` : 'sent', typeof s.status === 'string' ? 'by name' : 'by number');
          t.assert(!thrown, () => `sendEncoded threw ${thrown && thrown.stack}`);
          t.assert(!res.error, () => `no response: ${res.error}`);
          const errHooks = log.filter((x) => x.hook !== 'after'), after = log.filter((x) => x.hook === 'after');
          if (want.error) {
            const status = c.route.status ?? c.router.status ?? 500;
            const body = c.route.body !== undefined ? c.route.body : c.router.body !== undefined ? c.router.body : {};
            t.assert(res.status === status, () => `${want.error}: responded ${res.status} ${res.text}, configured status is ${status}`);
            t.assert(eq(JSON.parse(res.text), JSON.parse(JSON.stringify(body))), () => `${want.error}: error body ${res.text}, configured is ${show(body)}`);
            t.assert(after.length === 0, () => `${want.error}: the post-response hook was called`);
            for (const x of errHooks) {
              t.assert(x.err !== undefined && x.req.apiName === 'gen.send', 'an encode-error hook did not get the error and the request');
              t.assert(x.where === 'route' || c.route[x.hook] === undefined, 'a router-level hook was used although the route has its own');
            }
          } else {
            t.assert(res.status === want.code, () => `responded ${res.status} ${res.text.slice(0, 300)}, expected ${want.code} ${want.text}`);
            if (NO_BODY.includes(want.code) || want.code === 205) t.assert(res.text === '', () => `a ${want.code} response has body ${res.text}`);
            else {
              t.assert(want.text === undefined ? res.text === '' : eq(JSON.parse(res.text), JSON.parse(want.text)), () => `body ${res.text}, the payload encodes to ${want.text}`);
              if (want.text !== undefined) t.assert(/^application\/json/.test(res.headers['content-type'] || ''), () => `content-type ${res.headers['content-type']}`);
            }
            t.assert(errHooks.length === 0, 'an encode-error hook was called for a payload that was sent');
            const hooked = c.route.after ? 'route' : c.router.after ? 'router' : undefined;
            t.assert(after.length === (hooked ? 1 : 0), () => `the post-response hook was called ${after.length} times`);
            if (hooked) {
              const a = after[0];
              t.assert(a.where === hooked, () => `the ${a.where}-level post-response hook was called instead of the ${hooked}-level one`);
              t.assert(a.status === want.code && Object.is(a.payload, s.payload), () => `the post-response hook got ${show([a.status, a.payload])}`);
              t.assert(a.ended, 'the response was not ended when the post-response hook ran');
              t.assert(a.req.apiName === 'gen.send' && typeof a.res.sendEncoded === 'function', 'the post-response hook did not get the request and response');
            }
          }
        }
      },
    },
  ],
};
