'use strict';
const G = require('../lib/gen');
const P = require('../lib/projects');
const { show } = require('../lib/ser');

const JSON_TYPE = 'application/json';
const dims = (style) => Object.entries(style).filter(([k, v]) => k !== 'imports' && k !== 'forms' && v !== G.STYLE0[k]).length;

module.exports = {
  rule: 'A case is a generated project (up to 4 shared codecs referring to each other, 1-4 routes) written down in several ways, each given to the command line. Non-trivial: layout - at least four of the style choices differ from the plain one; forms - at least one expression moved into its own declaration; order - at least two routes permuted; history - at least two different projects.',
  assumptions: [
    'Documents are compared as JSON values with object keys in any order, except where the same files are given twice (then byte by byte).',
    'A codec written as its own constant becomes a component; for such rewritings the documents are compared by what they accept, not literally.',
  ],
  props: [
    {
      name: 'layout',
      runs: { quick: 1300, thorough: 13000 },
      arb: (fc) => fc.record({ model: P.modelArb(fc), style: P.styleArb(fc) }),
      async check({ model, style }, t, env) {
        const plain = await P.docOf(env, G.renderProject(model), t);
        const files = G.renderProject(model, style);
        const other = await P.docOf(env, files, t);
        const a = P.canonical(plain.doc), b = P.canonical(other.doc);
        t.assert(a === b, () => `the same project documented differently:\n${P.parting(a, b)}\n${P.listing(files).slice(0, 3000)}`);
        t.label('cross ' + (style.split || style.routeAt === 'file' ? style.cross : 'one file'));
        if (dims(style) >= 4) t.nontrivial();
      },
    },
    {
      name: 'forms',
      runs: { quick: 700, thorough: 7000 },
      arb: (fc) => fc.record({ model: P.modelArb(fc, { full: true }), style: P.styleArb(fc, true), seed: fc.integer() }),
      async check({ model, style, seed }, t, env) {
        const plain = await P.docOf(env, G.renderProject(model), t);
        const files = G.renderProject(model, style);
        const other = await P.docOf(env, files, t);
        for (const r of model.routes) {
          const a = P.opOf(plain.doc, r), b = P.opOf(other.doc, r);
          t.assert(b !== undefined, () => `${r.method} ${r.path} is missing\n${P.listing(files).slice(0, 3000)}`);
          const params = (op) => show((op.parameters || []).map((p) => [p.in, p.name, p.required === true]).sort());
          t.assert(params(a) === params(b), () => `${r.path}: parameters ${params(b)}, expected ${params(a)}\n${P.listing(files).slice(0, 3000)}`);
          const judge = (sa, sb, c, what) => {
            for (const v of G.values(c, model.decls, seed, 14)) {
              const x = G.accepts(plain.doc, sa, v), y = G.accepts(other.doc, sb, v);
              t.assert(x === y, () => `${r.path} ${what}: ${JSON.stringify(v)} is ${x ? '' : 'not '}accepted when written plainly, and ${y ? '' : 'not '}as\n${P.listing(files).slice(0, 3000)}`);
            }
          };
          for (const [code, c] of r.res) judge(a.responses[code].content[JSON_TYPE].schema, b.responses[code].content[JSON_TYPE].schema, c, 'response ' + code);
          const body = P.bodyCodec(r);
          if (body) judge(a.requestBody.content[JSON_TYPE].schema, b.requestBody.content[JSON_TYPE].schema, body, 'body');
          for (const pa of a.parameters || []) {
            const pb = b.parameters.find((p) => p.in === pa.in && p.name === pa.name);
            const c = [...r.params, ...r.query, ...r.headers].find((p) => p[0] === pa.name)[1];
            judge(pa.schema, pb.schema, c, 'parameter ' + pa.name);
          }
        }
        const text = Object.values(files).join('\n');
        for (const k of ['key', 'props', 'some', 'LIT', 'LITS', 'Enum', 'HEAD', 'Keys', 'keysOf', 'part', 'make', 'build', 'group', 'members', 'more']) if (text.includes(` ${k}_`)) t.label(k);
        if (/ (key|props|some|LITS?|Enum|HEAD|part|make|build|group|members|more)_\d/.test(text)) t.nontrivial();
      },
    },
    {
      name: 'order',
      runs: { quick: 500, thorough: 5000 },
      arb: (fc) => fc.record({ model: P.modelArb(fc, { routes: 4 }), seed: fc.integer() }),
      async check({ model, seed }, t, env) {
        // which route comes first in the spec, and the names of actions and keys, do not matter
        const r = G.prng(seed);
        const shuffle = (xs) => { const a = xs.slice(); for (let i = a.length - 1; i > 0; i--) { const j = r.int(i + 1); [a[i], a[j]] = [a[j], a[i]]; } return a; };
        const routes = shuffle(model.routes).map((x, i) => ({ ...x, action: 'op' + r.int(2), key: 'k' + i, res: shuffle(x.res), query: shuffle(x.query), headers: shuffle(x.headers) }));
        const plain = await P.docOf(env, G.renderProject(model), t);
        const other = await P.docOf(env, G.renderProject({ ...model, routes }), t);
        const sorted = (doc) => { const d = P.canon(doc); for (const p of Object.values(d.paths)) for (const op of Object.values(p)) if (op.parameters) op.parameters.sort((x, y) => (x.in + x.name < y.in + y.name ? -1 : 1)); return JSON.stringify(d); };
        const a = sorted(plain.doc), b = sorted(other.doc);
        t.assert(a === b, () => `permuted routes are documented differently:\n${P.parting(a, b)}`);
        // and paths and methods are listed in alphabetical order, whatever the order of the routes
        t.assert(show(Object.keys(plain.doc.paths)) === show(Object.keys(other.doc.paths)), () => `paths in order ${show(Object.keys(plain.doc.paths))} and ${show(Object.keys(other.doc.paths))}`);
        if (model.routes.length >= 2 && show(routes.map((x) => x.path)) !== show(model.routes.map((x) => x.path))) t.nontrivial();
      },
    },
    {
      name: 'history',
      runs: { quick: 250, thorough: 2500 },
      arb: (fc) => fc.record({ models: fc.array(P.modelArb(fc, { decls: 2, routes: 2 }), { minLength: 1, maxLength: 3 }), style: P.styleArb(fc), turns: fc.array(fc.nat(2), { minLength: 2, maxLength: 5 }) }),
      async check({ models, style, turns }, t, env) {
        // a run does not depend on the runs before it
        const first = new Map();
        const files = models.map((m, i) => G.renderProject(m, i ? style : {}));
        for (const [i] of models.entries()) first.set(i, (await P.docOf(env, files[i], t, { fresh: true })).stdout);
        for (const k of turns) {
          const i = k % models.length;
          const again = (await P.docOf(env, files[i], t)).stdout;
          t.assert(again === first.get(i), () => `a later run printed another document:\n${P.parting(first.get(i), again)}`);
        }
        if (new Set(turns.map((k) => k % models.length)).size >= 2) t.nontrivial();
      },
    },
  ],
};
