'use strict';
const C = require('../lib/codec');
const R = require('../lib/request');
const H = require('../lib/http');
const { eq, show } = require('../lib/ser');

// statuses that superagent does not treat specially: redirects are followed, 1xx are not final, and
// 204, 205 and 304 have no body
const STATUS = [200, 201, 202, 203, 206, 207, 226, 300, 400, 401, 402, 403, 404, 405, 406, 409, 410, 412, 415, 418, 422, 423, 429, 451, 500, 501, 502, 503, 504, 511, 299, 499, 599, 600, 799, 999];

module.exports = {
  rule:
    'A route with 1-4 declared numeric statuses and generated codecs, and 1-4 concurrent calls through superagent or supertest to a server that answers each with a generated status and JSON body: the encoding of a value of the declared type, a corrupted one, arbitrary JSON (also null, false, 0 and ""), or an undeclared status. decode, decodeExpecting with every kind of status, both, or awaiting the request itself. Non-trivial: the status is declared with a codec that can fail.',
  assumptions: ['Superagent parses JSON bodies correctly.', 'Statuses that superagent or HTTP treats specially (1xx, 204, 205, 304, redirects) and non-JSON bodies are not sent.'],
  props: [
    {
      name: 'responses',
      runs: { quick: 8000, thorough: 200000 },
      arb: (fc) =>
        fc.oneof({ weight: 7, arbitrary: fc.constant([1, 4]) }, { weight: 1, arbitrary: fc.constant([5, 9]) }).chain(([minLength, maxLength]) => fc.uniqueArray(fc.tuple(fc.constantFrom(200, 200, 400, 404, 500, ...STATUS), C.bodyDesc(2)), { selector: (x) => x[0], minLength, maxLength })).chain((resp) =>
          fc.record({
            resp: fc.constant(resp),
            factory: fc.constantFrom('superagent', 'superagent', 'supertest'),
            charset: fc.boolean(),
            calls: fc.array(
              fc.constantFrom(...resp).chain(([s, d]) =>
                fc.record({
                  status: fc.oneof({ weight: 5, arbitrary: fc.constant(s) }, { weight: 1, arbitrary: fc.constantFrom(...STATUS) }),
                  body: fc.oneof({ weight: 4, arbitrary: C.arbA(d).map((a) => ({ a })) }, { weight: 3, arbitrary: C.arbI(d).map((i) => ({ i })) }, { weight: 1, arbitrary: fc.oneof(C.json(1), fc.constantFrom(null, false, 0, '', [], {})).map((j) => ({ i: j })) }),
                  of: fc.constant(s),
                  how: fc.constantFrom('decode', 'decode', 'expectSame', 'expectDeclared', 'expectOther', 'both', 'await'),
                  other: fc.constantFrom(...STATUS),
                }),
              ),
              { minLength: 1, maxLength: 4 },
            ),
          }),
        ),
      async check(c, t, env) {
        const L = R.libs(env);
        const SA = env.pkg('superagent-wrapper');
        const response = {};
        for (const [s, d] of c.resp) response[s] = C.build(L, d);
        const route = L.h.httpRoute({ path: '/x', method: 'GET', request: L.h.httpRequest({ query: { i: L.t.string } }), response });
        const spec = L.h.apiSpec({ op: { get: route } });
        const texts = c.calls.map((x) => {
          try {
            if ('a' in x.body) return response[x.of].is(x.body.a) ? JSON.stringify(response[x.of].encode(x.body.a)) : undefined;
            return JSON.stringify(x.body.i);
          } catch { return undefined; }
        });
        let hits = [];
        const { port } = await H.use((req, res) => {
          const i = Number(new URL(req.url, 'http://x').searchParams.get('i'));
          hits[i] = (hits[i] || 0) + 1;
          res.writeHead(c.calls[i].status, { 'content-type': c.charset ? 'application/json; charset=utf-8' : 'application/json' });
          res.end(texts[i]);
        });
        const origin = `http://127.0.0.1:${port}`;
        const f = c.factory === 'superagent' ? SA.superagentRequestFactory(env.req('superagent'), origin) : SA.supertestRequestFactory(env.req('supertest')(origin));
        const client = SA.buildApiClient(f, spec);
        const settle = (p) => p.then((v) => ({ v }), (e) => ({ e }));

        await Promise.all(
          c.calls.map(async (x, i) => {
            const text = texts[i];
            if (text === undefined) return t.label('no JSON body');
            const raw = JSON.parse(text);
            const codec = Object.prototype.hasOwnProperty.call(response, x.status) ? response[x.status] : undefined;
            let dec;
            try { dec = codec && codec.decode(raw); } catch { return t.label('a codec that throws'); }
            const ok = !!dec && dec._tag === 'Right';
            if (codec) t.nontrivial();
            t.label(!codec ? 'undeclared status' : ok ? 'decodes' : 'does not decode', x.how, !raw ? `body ${JSON.stringify(raw)}` : '');
            const where = () => `${x.status} ${text} (declared ${c.resp.map(([s, d]) => s + ':' + show(d))}) ${x.how}`;

            const req = client.op.get({ i: String(i) });
            const checkDecoded = (r) => {
              t.assert(!r.e, () => `${where()}: decode() failed with ${r.e && r.e.stack}`);
              const v = r.v;
              t.assert(v.original && v.original.status === x.status && eq(v.original.body, raw), () => `${where()}: the original response is ${show(v.original && { status: v.original.status, body: v.original.body })}`);
              if (ok) t.assert(v.status === x.status && eq(v.body, dec.right) && v.error === undefined, () => `${where()}: decode() gave ${show({ status: v.status, body: v.body, error: v.error })}, expected ${show(dec.right)}`);
              else {
                t.assert(v.status === 'decodeError' && eq(v.body, raw), () => `${where()}: decode() gave ${show({ status: v.status, body: v.body })}, expected a decodeError with the raw body`);
                t.assert(typeof v.error === 'string' && v.error.length > 0, () => `${where()}: decodeError without a message`);
                if (!codec) t.assert(v.error.includes(String(x.status)), () => `${where()}: the error does not name the status: ${v.error}`);
              }
            };
            const checkExpecting = (r, want) => {
              if (ok && want === x.status) {
                t.assert(!r.e, () => `${where()}: decodeExpecting(${want}) failed with ${r.e && r.e.stack}`);
                t.assert(r.v.status === want && eq(r.v.body, dec.right), () => `${where()}: decodeExpecting(${want}) gave ${show({ status: r.v.status, body: r.v.body })}`);
              } else {
                t.assert(r.e instanceof SA.DecodeError, () => `${where()}: decodeExpecting(${want}) ${r.e ? 'failed with ' + r.e.stack : 'resolved to ' + show({ status: r.v.status, body: r.v.body })}`);
                checkDecoded({ v: r.e.decodedResponse });
                // another status than the expected one comes first
                t.assert(want === x.status ? /^Could not decode/.test(r.e.message) : /^Unexpected response/.test(r.e.message), () => `${where()}: decodeExpecting(${want}) says ${r.e.message}`);
                t.assert(r.e.message.includes(String(x.status)), () => `${where()}: the error does not name the status: ${r.e.message}`);
              }
            };
            const declared = c.resp[x.other % c.resp.length][0];
            if (x.how === 'decode') checkDecoded(await settle(req.decode()));
            else if (x.how === 'expectSame') checkExpecting(await settle(req.decodeExpecting(x.status)), x.status);
            else if (x.how === 'expectDeclared') checkExpecting(await settle(req.decodeExpecting(declared)), declared);
            else if (x.how === 'expectOther') checkExpecting(await settle(req.decodeExpecting(x.other)), x.other);
            else if (x.how === 'await') {
              const r = await settle(req.then((v) => v));
              t.assert(!r.e && r.v.status === x.status, () => `${where()}: awaiting the request gave ${r.e || show(r.v.status)}`);
            } else {
              const first = await settle(req.decode());
              checkDecoded(first);
              checkExpecting(await settle(req.decodeExpecting(x.status)), x.status);
            }
            t.assert(hits[i] === 1, () => `${where()}: the request was sent ${hits[i]} times`);
          }),
        );
      },
    },
  ],
};
