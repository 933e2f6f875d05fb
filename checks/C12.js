'use strict';
const ew = require('../lib/ew');
module.exports = {
  rule:
    'Routes whose handler throws, rejects (with an error, a string or nothing), returns something that is not a response, or a payload that cannot be encoded, or whose middleware fails before or after setting a status or answering; 1-4 concurrent requests; with and without catch-all and error handlers behind the router. Non-trivial: the request reaches a failing handler or middleware.',
  assumptions: ['Middleware calls next at most once.'],
  props: [
    {
      name: 'failures',
      runs: { quick: 12000, thorough: 300000 },
      arb: () => ew.caseArb(4, 0, [...ew.H_GOOD, ...ew.H_BAD, ...ew.H_BAD]),
      check: (c, t, env) => ew.check(c, t, env, { nontrivial: (r, m) => !!m.end || ew.H_BAD.includes(r.handler) }),
    },
  ],
};
