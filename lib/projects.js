'use strict';
// Generated API projects (pure data, see renderProject in gen.js) and generated ways to write them down.
const G = require('./gen');

const NAMES = ['Alpha', 'Beta', 'Gamma', 'Delta'];
const METHODS = ['GET', 'POST', 'PUT', 'DELETE', 'PATCH'];
const CODES = [200, 201, 400, 404, 500];

// an object description without fields is dropped inside intersections: give it a field
const noEmpty = (c) => {
  const y = { ...c };
  if (c.of) y.of = Array.isArray(c.of) ? c.of.map(noEmpty) : noEmpty(c.of);
  if (c.props) y.props = c.props.length ? c.props.map(([n, x, ...r]) => [n, noEmpty(x), ...r]) : [['id', { k: 'optional', of: { k: 'boolean' } }]];
  return y;
};

function modelArb(fc, { decls = 3, routes = 3, leaves = G.EXACT, depth = 2, full = false } = {}) {
  const refs = NAMES.slice(0, decls);
  const fix = full ? noEmpty : (c) => c;
  const p = fc.oneof(
    { weight: 3, arbitrary: fc.constantFrom('string', 'NumberFromString', 'BooleanFromNumber').map((k) => ({ k })) },
    { weight: 1, arbitrary: fc.constantFrom('string', 'UUID').map((k) => ({ k: 'optional', of: { k } })) },
  );
  const ps = (names, max) => fc.uniqueArray(fc.tuple(fc.constantFrom(...names), p), { selector: (x) => x[0], maxLength: max });
  const inner = G.codecArb(fc, { depth, leaves, refs }).map(fix);
  const body = fc.oneof(
    fc.constant(undefined),
    inner.map((c) => ({ c })),
    fc.uniqueArray(fc.tuple(fc.constantFrom(...G.PROPS), inner), { selector: (x) => x[0], minLength: 1, maxLength: 3 }).map((props) => ({ props })),
  );
  const route = fc.record({
    query: ps(['a', 'b', 'page-size'], 3),
    headers: ps(['x-a', 'y'], 2),
    body,
    res: fc.uniqueArray(fc.tuple(fc.constantFrom(...CODES), inner), { selector: (x) => x[0], minLength: 1, maxLength: 3 }),
    np: fc.nat(2),
    method: fc.constantFrom(...METHODS),
    lower: fc.boolean(),
  });
  const cs = fc.tuple(...refs.map((_, i) => G.codecArb(fc, { depth, leaves, refs: refs.slice(0, i) }).map(fix)));
  return fc.record({ cs, rs: fc.array(route, { minLength: 1, maxLength: routes }) }).map(({ cs, rs }) => ({
    decls: cs.map((c, i) => ({ n: refs[i], c })),
    routes: rs.map(({ np, lower, ...r }, i) => ({
      ...r,
      action: 'act' + (i >> 1),
      key: r.method.toLowerCase() + (i % 2 ? '2' : ''),
      path: '/r' + i + ['', '/{id}', '/{id}/x/{key}'][np],
      method: lower ? r.method.toLowerCase() : r.method,
      params: [['id', { k: 'string' }], ['key', { k: 'UUID' }]].slice(0, np),
    })),
  }));
}

function styleArb(fc, forms = false) {
  const imp = fc.constantFrom('star', 'named', 'alias');
  return fc.record({
    imports: fc.record({ t: imp, h: imp, tt: imp }),
    quote: fc.boolean(),
    paren: fc.boolean(),
    asConst: fc.boolean(),
    split: fc.nat(2),
    cross: fc.constantFrom('named', 'alias', 'star', 'default', 'star-reexport', 'cycle-reexport', 'named-reexport', 'alias-reexport'),
    exports: fc.constantFrom('inline', 'list'),
    routeAt: fc.constantFrom('inline', 'const', 'file'),
    reqAt: fc.constantFrom('inline', 'const'),
    propsAt: fc.constantFrom('inline', 'const', 'spread'),
    pathAt: fc.constantFrom('inline', 'const', 'template', 'asConst'),
    resAt: fc.constantFrom('inline', 'const'),
    specAt: fc.constantFrom('inline', 'const', 'spread', 'spread-call', 'spread-spec', 'group', 'group-file', 'spread-file'),
    junk: fc.oneof(fc.boolean(), fc.integer()),
    twins: fc.oneof({ weight: 3, arbitrary: fc.constant(0) }, { weight: 2, arbitrary: fc.integer({ min: 1, max: 1 << 30 }) }),
    ...(forms ? { forms: fc.integer() } : {}),
  });
}

const canon = (x) => (Array.isArray(x) ? x.map(canon) : x && typeof x === 'object' ? Object.fromEntries(Object.keys(x).sort().map((k) => [k, canon(x[k])])) : x);
const canonical = (x) => JSON.stringify(canon(x));
const opOf = (doc, r) => doc.paths[r.path] && doc.paths[r.path][r.method.toLowerCase()];
const bodyCodec = (r) => r.body && (r.body.c || { k: 'type', props: r.body.props });
const listing = (files) => Object.entries(files).map(([f, s]) => `--- ${f}\n${s}`).join('\n');
async function docOf(env, files, t, opts) {
  const r = await G.generate(env, files, opts);
  t.assert(r.doc !== undefined, () => `no document (exit ${r.exit}): ${r.stderr.slice(0, 400)} ${r.threw ? r.threw.stack : ''}\n${listing(files).slice(0, 4000)}`);
  return r;
}
// where two canonical texts part
function parting(a, b) {
  let i = 0;
  while (i < a.length && a[i] === b[i]) i++;
  const s = Math.max(0, i - 120);
  return `...${a.slice(s, i + 160)}\n versus\n...${b.slice(s, i + 160)}`;
}
module.exports = { NAMES, METHODS, CODES, noEmpty, modelArb, styleArb, canon, canonical, opOf, bodyCodec, listing, docOf, parting };
