'use strict';
// express-wrapper routes with generated middleware chains and handlers, and a model of what they must do.
const R = require('./request');
const H = require('./http');
const { fc } = require('./harness');
const { eq, show } = require('./ser');

const FIELDS = ['id', 'q', 'x', 'y', 'z'];
const addArb = fc.dictionary(fc.constantFrom(...FIELDS, 'user', 'constructor'), fc.oneof(fc.integer({ min: 0, max: 9 }), fc.constantFrom('s', null, undefined, false)), { maxKeys: 3, noNullPrototype: true });
// what a middleware does
const GOOD = ['next', 'nextLate', 'nextNull', 'add', 'addLate', 'touch', 'addNothing', 'status'];
const BAD = ['nextErr', 'nextErrLate', 'nextString', 'throw', 'reject', 'rejectLate', 'rejectUndefined', 'fnThrow', 'statusThenErr', 'statusThenReject', 'respondThenErr'];
const STOP = ['respond', 'respondLate'];
const mwArb = (bad, stop) =>
  fc.record({
    do: fc.oneof({ weight: 20, arbitrary: fc.constantFrom(...GOOD) }, ...(bad ? [{ weight: bad, arbitrary: fc.constantFrom(...BAD) }] : []), ...(stop ? [{ weight: stop, arbitrary: fc.constantFrom(...STOP) }] : [])),
    add: addArb,
    status: fc.constantFrom(400, 403, 404, 500, 503, 599, 201, 302, 399),
  });
const H_GOOD = ['return', 'returnLate'];
const H_BAD = ['throw', 'throwUndefined', 'reject', 'rejectLate', 'rejectString', 'undefined', 'null', 'number', 'empty', 'badType', 'noType', 'throwInPayload', 'proxy', 'undeclared', 'undeclaredName', 'inherited'];

const tick = () => new Promise((r) => setImmediate(r));
function middleware(W, m, k, log) {
  const plain = (f) => (req, res, next) => { log(req, k, req.decoded); return f(req, res, next); };
  const fn = (f) => W.middlewareFn((req, res) => { log(req, k, req.decoded); return f(req, res); });
  switch (m.do) {
    case 'next': return plain((q, s, n) => n());
    case 'nextLate': return plain((q, s, n) => { setImmediate(() => n()); });
    case 'nextNull': return plain((q, s, n) => n(null));
    case 'touch': return plain((q, s, n) => { q.touched = (q.touched || 0) + 1; s.set('x-touched', String(q.touched)); n(); });
    case 'add': return fn(async () => ({ ...m.add }));
    case 'addLate': return fn(async () => { await tick(); return { ...m.add }; });
    case 'addNothing': return fn(async () => ({}));
    case 'nextErr': return plain((q, s, n) => n(new Error('mw')));
    case 'nextErrLate': return plain((q, s, n) => { setImmediate(() => n(new Error('mw'))); });
    case 'nextString': return plain((q, s, n) => n('some error'));
    case 'throw': return plain(() => { throw new Error('mw'); });
    case 'reject': return fn(async () => { throw new Error('mw'); });
    case 'rejectLate': return fn(async () => { await tick(); throw new Error('mw'); });
    case 'rejectUndefined': return fn(() => Promise.reject());
    case 'fnThrow': return fn(() => { throw new Error('mw'); });
    case 'statusThenErr': return plain((q, s, n) => { s.status(m.status); n(new Error('mw')); });
    case 'statusThenReject': return fn(async (q, s) => { s.status(m.status); await tick(); throw new Error('mw'); });
    case 'status': return plain((q, s, n) => { s.status(m.status); n(); });
    case 'respondThenErr': return plain((q, s, n) => { s.status(401).json({ mw: k }); n(new Error('mw')); });
    case 'respond': return plain((q, s) => { s.status(207).json({ mw: k }); });
    case 'respondLate': return plain((q, s) => { setImmediate(() => s.status(207).json({ mw: k })); });
  }
  throw new Error(m.do);
}
// the outcome of a chain: {stop} (it answered), {status} (it failed), or {added, touched}
function modelChain(chain) {
  const ran = [];
  let added = {}, touched = 0, set;
  const failed = () => (set >= 400 ? set : 500);
  for (const [k, m] of chain.entries()) {
    ran.push(k);
    if (STOP.includes(m.do)) return { ran, end: { status: 207, body: { mw: k } } };
    if (/^status/.test(m.do)) set = m.status;
    if (m.do === 'respondThenErr') return { ran, end: { status: 401, body: { mw: k } } };
    if (BAD.includes(m.do)) return { ran, end: { status: failed() } };
    if (m.do === 'add' || m.do === 'addLate') added = { ...added, ...m.add };
    if (m.do === 'touch') touched++;
  }
  return { ran, added, touched, failed: failed() };
}

const handlerOf = (d, log) => {
  const answer = (x) => ({ type: 200, payload: { ok: x } });
  const f = {
    return: (i) => answer(1), returnLate: async (i) => { await tick(); return answer(1); },
    throw: () => { throw new Error('h'); }, throwUndefined: () => { throw undefined; },
    reject: async () => { throw new Error('h'); }, rejectLate: async () => { await tick(); throw new Error('h'); }, rejectString: () => Promise.reject('nope'),
    undefined: () => undefined, null: async () => null, number: () => 5, empty: () => ({}),
    badType: async () => ({ type: 'nope', payload: { ok: 1 } }), noType: () => ({ payload: { ok: 1 } }),
    throwInPayload: () => ({ type: 200, payload: { get ok() { throw new Error('getter'); } } }),
    undeclared: async () => ({ type: 404, payload: { ok: 1 } }), undeclaredName: () => ({ type: 'created', payload: { ok: 1 } }), inherited: () => ({ type: 'toString', payload: { ok: 1 } }),
    proxy: () => ({ type: 200, payload: { ok: 1n } }),
  }[d];
  return (input) => { log(input); return f(input); };
};

const routeArb = (bad, stop, handlers) =>
  fc.record({
    form: fc.constantFrom('routeHandler', 'routeHandler', 'object', 'object', 'fn', 'routeHandlerOnly'),
    chain: fc.array(mwArb(bad, stop), { maxLength: 7 }),
    handler: fc.constantFrom(...handlers),
  });
const caseArb = (bad, stop, handlers) =>
  fc.record({
    routes: fc.array(routeArb(bad, stop, handlers), { minLength: 1, maxLength: 2 }),
    tail: fc.constantFrom('none', 'catchAll', 'catchAllAndError', 'error'),
    server: fc.constantFrom('createServer', 'router'),
    requests: fc.array(fc.record({ r: fc.nat(1), id: fc.constantFrom('1', '22', '-3', '1', '22', '-3', 'x'), q: fc.constantFrom(undefined, 'v') }), { minLength: 1, maxLength: 4 }),
  });

async function check(c, t, env, { nontrivial }) {
  const L = R.libs(env);
  const express = env.req('express');
  const W = env.pkg('express-wrapper');
  const logs = {};
  const decodedSeen = {};
  const L2 = (req, what, decoded) => { logs[req.headers['x-req']].push(what); (decodedSeen[req.headers['x-req']] = decodedSeen[req.headers['x-req']] || []).push([decoded, { ...decoded }]); };
  const shape = {}, handlers = {};
  const inputs = [];
  const warn = console.warn;
  console.warn = () => {};
  try {
    c.routes.forEach((r, i) => {
      const name = `api.${i}`;
      shape[name] = {
        get: L.h.httpRoute({
          path: `/r${i}/{id}`, method: 'GET',
          request: L.h.httpRequest({ params: { id: L.tt.NumberFromString }, query: { q: L.h.optional(L.t.string), who: L.t.string } }),
          response: { 200: L.t.type({ ok: L.t.number }) },
        }),
      };
      if (r.form === 'fn' || r.form === 'routeHandlerOnly') r.chain = [];
      const chain = r.chain.map((m, k) => middleware(W, m, k, L2));
      const h = handlerOf(r.handler, (input) => logs[input.who].push({ input }));
      handlers[name] = { get: r.form === 'fn' ? h : r.form === 'object' ? { middleware: chain, handler: h } : r.form === 'routeHandler' ? W.routeHandler({ middleware: chain, handler: h }) : W.routeHandler({ handler: h }) };
    });
    const spec = L.h.apiSpec(shape);
    let app;
    if (c.server === 'createServer') app = W.createServer(spec, () => handlers);
    else { app = express(); app.use(W.routerForApiSpec({ spec, routeHandlers: handlers })); }
    const later = [];
    if (/catchAll/.test(c.tail)) app.use((req, res) => { later.push(req.url); res.status(404).json({ tail: 'not found' }); });
    if (/rror/.test(c.tail)) app.use((err, req, res, next) => { later.push(req.url); res.status(555).json({ tail: 'error' }); });
    await H.use(app);

    const results = await Promise.all(
      c.requests.map((q, i) => {
        logs[i] = [];
        return H.send({ path: `/r${q.r % c.routes.length}/${q.id}?who=${i}${q.q ? `&q=${q.q}` : ''}`, headers: { 'x-req': String(i) } });
      }),
    );
    c.requests.forEach((q, i) => {
      const r = c.routes[q.r % c.routes.length];
      const res = results[i];
      const log = logs[i];
      const where = () => `${show(q)} to ${show(r)} (tail ${c.tail})`;
      t.assert(!res.error, () => `${where()}: no response (${res.error})`);
      if (q.id === 'x') {
        t.assert(log.length === 0 && res.status === 400, () => `${where()}: a request that does not decode ran ${show(log)} and got ${res.status}`);
        t.label('not decoded');
        return;
      }
      const m = modelChain(r.chain);
      const decoded = { id: Number(q.id), who: String(i), ...(q.q && { q: q.q }) };
      // what middleware sees as the decoded request is just that, then and later
      for (const [now, then] of decodedSeen[i] || []) t.assert(eq(then, decoded) && eq(now, decoded), () => `${where()}: middleware saw the decoded request ${show(then)}, now it is ${show(now)}; it decodes to ${show(decoded)}`);
      const order = log.filter((x) => typeof x === 'number');
      t.assert(eq(order, m.ran), () => `${where()}: middleware ${show(order)} ran, expected ${show(m.ran)}`);
      const calls = log.filter((x) => typeof x === 'object');
      if (m.end) {
        t.label(`chain ends ${m.end.status}`);
        if (nontrivial(r, m)) t.nontrivial();
        t.assert(calls.length === 0, () => `${where()}: the handler ran although the middleware ${m.end.status === 207 ? 'answered' : 'failed'}`);
        t.assert(res.status === m.end.status, () => `${where()}: responded ${res.status} ${res.text}, expected ${m.end.status}`);
        if (m.end.body) t.assert(eq(JSON.parse(res.text), m.end.body), () => `${where()}: body ${res.text}, expected ${show(m.end.body)}`);
        return;
      }
      t.assert(calls.length === 1 && log[log.length - 1] === calls[0], () => `${where()}: the handler ran ${calls.length} times, or before its middleware`);
      const input = r.form === 'routeHandler' ? { ...decoded, ...m.added } : decoded;
      t.assert(eq(calls[0].input, input), () => `${where()}: the handler got ${show(calls[0].input)}, expected ${show(input)}`);
      const ok = H_GOOD.includes(r.handler);
      t.label(ok ? 'answered' : `handler fails: ${r.handler}`);
      if (nontrivial(r, m)) t.nontrivial();
      // a status that was set before an answer that cannot be sent is kept, or not
      const may = ok ? [200] : /^(throw|reject)/.test(r.handler) && r.handler !== 'throwInPayload' ? [m.failed] : [m.failed, 500];
      t.assert(may.includes(res.status), () => `${where()}: responded ${res.status} ${res.text}, expected ${may.join(' or ')}`);
      if (ok) {
        t.assert(eq(JSON.parse(res.text), { ok: 1 }), () => `${where()}: body ${res.text}`);
        t.assert((res.headers['x-touched'] || '0') === String(m.touched), () => `${where()}: effects of the middleware on the response are lost`);
      }
    });
    // the server still answers
    if (c.routes[0].handler === 'return' && !c.routes[0].chain.length) return;
    const app2 = await H.send({ path: '/not-there' });
    t.assert(app2.status === 404, () => `afterwards the server answers ${show(app2)}`);
  } finally {
    console.warn = warn;
  }
}

module.exports = { caseArb, check, H_GOOD, H_BAD, BAD, STOP };
