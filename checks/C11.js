'use strict';
const ew = require('../lib/ew');
module.exports = {
  rule:
    'Routes with chains of 0-7 middleware (plain Express ones that call next at once, later or with null, ones that touch the request and response, middlewareFn ones that add properties, and some that fail or answer), in every form a route handler can be given, and 1-4 concurrent requests. Non-trivial: the chain has at least two middleware of which one adds properties, fails or answers.',
  assumptions: ['Middleware calls next at most once.'],
  props: [
    {
      name: 'chains',
      runs: { quick: 12000, thorough: 300000 },
      arb: () => ew.caseArb(2, 1, ['return', 'return', 'returnLate']),
      check: (c, t, env) => ew.check(c, t, env, { nontrivial: (r, m) => m.ran.length >= 2 && (m.end || Object.keys(m.added).length > 0) }),
    },
  ],
};
