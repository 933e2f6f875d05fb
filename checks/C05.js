'use strict';
const C = require('../lib/codec');
const { eq, show } = require('../lib/ser');
const STATUSES = require('../lib/statuses');

const has = (o, k) => Object.prototype.hasOwnProperty.call(o, k);
const load = (env) => ({ h: env.pkg('io-ts-http'), r: env.pkg('response') });

module.exports = {
  rule: 'Every status name is enumerated; on top of that, sequences of response-helper calls with generated payloads. Non-trivial: every enumerated status, and every sequence that calls at least two different helpers.',
  assumptions: ['The reference table of names and codes in lib/statuses.js.'],
  props: [
    {
      name: 'tables',
      enumerate: () => Object.keys(STATUSES),
      check(name, t, env) {
        const { h, r } = load(env);
        const code = STATUSES[name];
        t.nontrivial();
        t.assert(h.KeyToHttpStatus[name] === code, () => `KeyToHttpStatus.${name} = ${h.KeyToHttpStatus[name]}, not ${code}`);
        t.assert(h.HttpToKeyStatus[code] === name, () => `HttpToKeyStatus[${code}] = ${h.HttpToKeyStatus[code]}, not ${name}`);
        const p = { x: [name] };
        for (const [what, got, type] of [['io-ts-http Response', h.Response, code], ['response Response', r.Response, code], ['response KeyedResponse', r.KeyedResponse, name]]) {
          t.assert(typeof got[name] === 'function', () => `${what} has no ${name}`);
          const v = got[name](p);
          t.assert(v.type === type && v.payload === p && Object.keys(v).length === 2, () => `${what}.${name} gives ${show(v)}`);
        }
      },
    },
    {
      name: 'agreement',
      enumerate: (env) => {
        const { h, r } = load(env);
        return [...new Set([h.KeyToHttpStatus, h.Response, r.Response, r.KeyedResponse].flatMap(Object.keys).concat(Object.values(h.HttpToKeyStatus)))];
      },
      check(name, t, env) {
        // also holds for names that are not in the reference table
        const { h, r } = load(env);
        t.nontrivial();
        const code = h.KeyToHttpStatus[name];
        t.assert(Number.isInteger(code), () => `${name} has no code`);
        t.assert(h.HttpToKeyStatus[code] === name, () => `${name} is ${code}, but ${code} is ${h.HttpToKeyStatus[code]}`);
        for (const [o, type] of [[h.Response, code], [r.Response, code], [r.KeyedResponse, name]])
          if (has(o, name)) t.assert(o[name](1).type === type, () => `helper ${name} gives ${o[name](1).type}`);
      },
    },
    {
      name: 'histories',
      runs: { quick: 4000, thorough: 50000 },
      arb: (fc) => fc.array(fc.tuple(fc.constantFrom('h', 'r', 'k'), fc.constantFrom(...Object.keys(STATUSES)), fc.oneof(C.json(2), fc.constant(undefined), fc.bigInt(), fc.date())), { minLength: 1, maxLength: 6 }),
      check(calls, t, env) {
        const { h, r } = load(env);
        if (new Set(calls.map((c) => c[0] + c[1])).size > 1) t.nontrivial();
        const results = calls.map(([o, n, p]) => ({ h: h.Response, r: r.Response, k: r.KeyedResponse })[o][n](p));
        calls.forEach(([o, n, p], i) => {
          const want = { type: o === 'k' ? n : STATUSES[n], payload: p };
          t.assert(eq(results[i], want) && Object.is(results[i].payload, p), () => `call ${i} of ${o}.${n} gave ${show(results[i])}`);
        });
      },
    },
  ],
};
