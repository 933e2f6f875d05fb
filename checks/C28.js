'use strict';
const fs = require('fs');
const path = require('path');
const G = require('../lib/gen');
const P = require('../lib/projects');
const { show } = require('../lib/ser');

const JSON_TYPE = 'application/json';
const PKGS = { cx: '@fancy/codecs', cy: '@fancy/more.codecs', cz: '@own/codecs' };
// stands for the import of a file of the project, the definitions of which are listed under '.'
const OWN_FILE = 'own/codecs';

// ---- codec definitions ---------------------------------------------------------------------------
// The definition (see KNOWN_IMPORTS) of a codec that accepts the same as the described one, as the text
// of a JavaScript expression; { k: 'hole', i } stands for the i-th argument of a parametrised codec.
function definition(c, meta) {
  const obj = (o) => '{ ' + Object.entries(o).map(([k, v]) => `${JSON.stringify(k)}: ${v}`).join(', ') + ' }';
  const j = JSON.stringify;
  const list = (xs) => `[${xs.map((x) => definition(x)).join(', ')}]`;
  const props = (ps, required) => obj({ type: j('object'), properties: obj(Object.fromEntries(ps.map(([n, x]) => [n, definition(x)]))), required: j(Object.keys(Object.fromEntries(required.map((k) => [k, 1])))), ...m });
  const m = Object.fromEntries(Object.entries(meta || {}).map(([k, v]) => [k, j(v)]));
  switch (c.k) {
    case 'string': case 'number': case 'boolean': return obj({ type: j(c.k), primitive: 'true', ...m });
    case 'null': case 'nullType': return obj({ type: j('null'), ...m });
    case 'undefined': return obj({ type: j('undefined') });
    case 'NonEmptyString': return obj({ type: j('string'), minLength: '1', ...m });
    case 'UnknownRecord': return obj({ type: j('record'), codomain: obj({ type: j('any') }), ...m });
    case 'lit': return obj({ type: j(typeof c.v), enum: j([c.v]), ...m });
    case 'keyof': return obj({ type: j('union'), schemas: `[${Object.keys(Object.fromEntries(c.keys.map((k) => [k, 1]))).map((k) => obj({ type: j('string'), enum: j([k]) })).join(', ')}]`, ...m });
    case 'array': case 'readonlyArray': return obj({ type: j('array'), items: definition(c.of), ...m });
    case 'nonEmptyArray': case 'readonlyNonEmptyArray': return obj({ type: j('array'), items: definition(c.of), minItems: '1', ...m });
    case 'type': case 'strict': return props(c.props, c.props.map((p) => p[0]));
    case 'partial': return props(c.props, []);
    case 'optionalized': return props(c.props, c.props.filter(([, x]) => !G.acceptsUndefined(x, [])).map((p) => p[0]));
    case 'exact': case 'brand': return definition(c.of, meta);
    case 'optional': return obj({ type: j('union'), schemas: list([c.of, { k: 'undefined' }]), ...m });
    case 'union': return obj({ type: j('union'), schemas: list(c.of), ...m });
    case 'inter': return obj({ type: j('intersection'), schemas: list(c.of), ...m });
    case 'record': return obj({ type: j('record'), domain: definition(c.dom), codomain: definition(c.of), ...m });
    case 'hole': return `a${c.i}`;
  }
  throw new Error('definition: ' + c.k);
}
const holes = (c) => { let n = 0; G.walk(c, undefined, (x) => { if (x.k === 'hole') n = Math.max(n, x.i + 1); }); return n; };
const entry = (x) => `(deref${Array.from({ length: holes(x.c) }, (_, i) => ', a' + i).join('')}) => E.right(${definition(x.c, x.meta)})`;
const table = (xs, ind) => `{\n${xs.map((x) => `${ind}  ${G.keyText(x.n)}: ${entry(x)},\n`).join('')}${ind}}`;
function configFile(pkgs, how) {
  const body = `{\n${Object.entries(pkgs).map(([p, xs]) => `  ${JSON.stringify(p)}: ${table(xs, '  ')},\n`).join('')}}`;
  return wrap(body, how);
}
function wrap(body, how) {
  switch (how) {
    case 'function': return `module.exports = function (E) {\n  return ${body};\n};\n`;
    case 'default': return `Object.defineProperty(exports, '__esModule', { value: true });\nexports.default = (E) => (${body});\n`;
    default: return `module.exports = (E) => {\n  return ${body};\n};\n`;
  }
}
// a description in which every custom codec is replaced by what it stands for
function plainly(c, customs) {
  if (c.k === 'libc' || c.k === 'libf') {
    const x = customs.find((y) => y.m === c.m && y.n === c.n);
    const args = (c.of || []).map((y) => plainly(y, customs));
    const fill = (y) => (y.k === 'hole' ? args[y.i] : { ...y, ...(y.of ? { of: Array.isArray(y.of) ? y.of.map(fill) : fill(y.of) } : {}), ...(y.props ? { props: y.props.map(([n, z, ...r]) => [n, fill(z), ...r]) } : {}), ...(y.dom ? { dom: fill(y.dom) } : {}) });
    return fill(x.c);
  }
  const y = { ...c };
  if (c.of) y.of = Array.isArray(c.of) ? c.of.map((x) => plainly(x, customs)) : plainly(c.of, customs);
  if (c.props) y.props = c.props.map(([n, x, ...r]) => [n, plainly(x, customs), ...r]);
  if (c.dom) y.dom = plainly(c.dom, customs);
  return y;
}
const overModel = (model, f) => ({
  ...model,
  decls: model.decls.map((d) => ({ ...d, c: f(d.c) })),
  routes: model.routes.map((r) => ({
    ...r,
    params: r.params.map(([n, c, ...x]) => [n, f(c), ...x]), query: r.query.map(([n, c, ...x]) => [n, f(c), ...x]), headers: r.headers.map(([n, c, ...x]) => [n, f(c), ...x]),
    body: r.body && (r.body.c ? { ...r.body, c: f(r.body.c) } : { ...r.body, props: r.body.props.map(([n, c, ...x]) => [n, f(c), ...x]) }),
    res: r.res.map(([code, c, ...x]) => [code, f(c), ...x]),
  })),
});
const each = (model, f) => { overModel(model, (c) => { G.walk(c, undefined, f); return c; }); };

// parametrised codecs: name -> what they stand for
const TEMPLATES = [
  { n: 'List', c: { k: 'array', of: { k: 'hole', i: 0 } } },
  { n: 'Nullable', c: { k: 'union', of: [{ k: 'hole', i: 0 }, { k: 'null' }] } },
  { n: 'Box', c: { k: 'type', props: [['value', { k: 'hole', i: 0 }], ['at', { k: 'string' }]] } },
  { n: 'Dict', c: { k: 'record', dom: { k: 'string' }, of: { k: 'hole', i: 0 } } },
  { n: 'Either', c: { k: 'union', of: [{ k: 'type', props: [['left', { k: 'hole', i: 0 }]] }, { k: 'type', props: [['right', { k: 'hole', i: 1 }]] }] } },
];
const NAMES = ['Amount', 'Address', 'toString', 'constructor', 'hasOwnProperty', 'string', 'Coin'];

// puts custom codecs into a model: leaves named LEAFn / arrays become calls
function customArb(fc) {
  const leaf = G.codecArb(fc, { depth: 2, leaves: G.EXACT, refs: [] }).map(P.noEmpty);
  return fc.uniqueArray(fc.record({ m: fc.constantFrom('cx', 'cy'), n: fc.constantFrom(...NAMES), c: leaf }), { selector: (x) => x.m + x.n, minLength: 1, maxLength: 4 });
}
// replaces leaves and some composites, by a seeded choice
function plant(model, customs, calls, seed) {
  const r = G.prng(seed);
  const leaves = customs.filter((x) => holes(x.c) === 0);
  const fns = customs.filter((x) => holes(x.c) > 0);
  let direct = false;
  const go = (c, key) => {
    const y = { ...c };
    if (c.of) y.of = Array.isArray(c.of) ? c.of.map((x) => go(x)) : go(c.of);
    if (c.props) y.props = c.props.map(([n, x, ...q]) => [n, go(x), ...q]);
    if ((G.LEAF[c.k] || c.k === 'lit') && leaves.length && r.chance(0.5)) { const x = r.pick(leaves); return { k: 'libc', m: x.m, n: x.n }; }
    if (c.k !== 'undefined' && calls && fns.length && r.chance(0.25)) {
      const x = r.pick(fns);
      const args = Array.from({ length: holes(x.c) }, (_, i) => (i ? { k: 'number' } : y));
      if (args.some((a) => a.k === 'ref' || a.k === 'brand')) direct = true;
      return { k: 'libf', m: x.m, n: x.n, of: args };
    }
    return y;
  };
  const done = overModel(model, go);
  // the parameters of a path stay what they are
  done.routes.forEach((x, i) => { x.params = model.routes[i].params; x.query = model.routes[i].query; x.headers = model.routes[i].headers; });
  return { model: done, direct };
}

// where the definitions are, and how the generator is told
const SOURCES = ['--codec-file', '-c', '--codec-file=', 'relative', 'package', 'dependency', 'flag over package', 'flag over dependency', 'package over dependency', 'dependency with source'];
function configure(customs, source, how, prefix) {
  const by = (xs) => ({ ...(xs.some((x) => x.m === 'cx') ? { [PKGS.cx]: xs.filter((x) => x.m === 'cx') } : {}), ...(xs.some((x) => x.m === 'cy') ? { [PKGS.cy]: xs.filter((x) => x.m === 'cy') } : {}), ...(xs.some((x) => x.m === 'cz') ? { '.': xs.filter((x) => x.m === 'cz') } : {}) });
  const wrong = customs.map((x) => ({ ...x, c: { k: 'type', props: [['wrong', { k: 'lit', v: 'wrong' }]] }, meta: { title: 'wrong' } }));
  const decoys = { 'other-codecs': wrong };
  const files = {}, args = [];
  let pkg = { name: 'project', version: '1.2.3' };
  const dependency = (xs) => {
    for (const m of ['cx', 'cy']) {
      const own = xs.filter((x) => x.m === m);
      if (!own.length) continue;
      files[`node_modules/${PKGS[m]}/package.json`] = JSON.stringify({ name: PKGS[m], version: '1.0.0', customCodecFile: 'openapi-gen.config.js', ...(source === 'dependency with source' ? { source: 'src/index.ts' } : {}) });
      files[`node_modules/${PKGS[m]}/openapi-gen.config.js`] = wrap(table(own, ''), how);
      if (source === 'dependency with source') files[`node_modules/${PKGS[m]}/src/index.ts`] = `import * as t from 'io-ts';\n${own.map((x) => `const ${x.n}_ = new t.Type<string>('${x.n}', t.string.is, t.string.validate, t.identity);\nexport { ${x.n}_ as ${x.n} };\n`).join('')}export const Other = t.number;\n`;
    }
  };
  const configured = (name, xs, more) => { files[name] = configFile({ ...by(xs), ...more }, how); };
  switch (source) {
    case '--codec-file': case '-c': configured('conf/codecs.js', customs, decoys); args.push(source, '@/conf/codecs.js'); break;
    case '--codec-file=': configured('conf/codecs.js', customs, decoys); args.push('--codec-file=@/conf/codecs.js'); break;
    case 'relative': configured('conf/codecs.js', customs, decoys); args.push('-c', 'conf/codecs.js'); break;
    case 'package': configured('conf/codecs.js', customs, decoys); pkg = { ...pkg, 'openapi-generator': { 'codec-file': './conf/codecs.js' } }; break;
    case 'dependency': case 'dependency with source': dependency(customs); break;
    case 'flag over package':
      configured('conf/codecs.js', customs, decoys); configured('conf/wrong.js', wrong, {});
      args.push('--codec-file', '@/conf/codecs.js'); pkg = { ...pkg, 'openapi-generator': { 'codec-file': 'conf/wrong.js' } }; break;
    case 'flag over dependency': case 'package over dependency': {
      // every other codec is left to the dependency
      const mine = customs.filter((_, i) => i % 2 === 0);
      configured('conf/codecs.js', mine, decoys);
      dependency(customs.map((x, i) => (i % 2 === 0 ? wrong[i] : x)));
      if (source === 'flag over dependency') args.push('--codec-file', '@/conf/codecs.js'); else pkg = { ...pkg, 'openapi-generator': { 'codec-file': 'conf/codecs.js' } };
      break;
    }
  }
  files['package.json'] = JSON.stringify(pkg);
  const own = customs.filter((x) => x.m === 'cz');
  if (own.length) files[OWN_FILE + '.ts'] = `import * as t from 'io-ts';\n${own.map((x) => `const ${x.n}_ = new t.Type<string>('${x.n}', t.string.is, t.string.validate, t.identity);\nexport { ${x.n}_ as ${x.n} };\n`).join('')}export const Other = t.number;\n`;
  return { files, args };
}
async function run(env, project, conf, prefix, t, expectFailure) {
  const dir = G.newDir();
  const files = { ...conf.files };
  for (const [f, s] of Object.entries(project)) files[prefix + f] = s.split(`'${PKGS.cz}'`).join(`'${path.posix.relative(path.posix.dirname('/' + prefix + f), '/' + OWN_FILE).replace(/^(?!\.)/, './')}'`);
  try {
    G.writeFiles(dir, files);
    const r = await G.runCli(env, [path.join(dir, prefix, 'index.ts'), ...conf.args.map((a) => a.replace('@', dir))], { cwd: dir });
    if (!expectFailure) t.assert(r.doc !== undefined, () => `no document (exit ${r.exit}): ${r.stderr.slice(0, 400)} ${r.threw ? r.threw.stack : ''}\n${P.listing(files).slice(0, 5000)}`);
    return { ...r, files };
  } finally {
    fs.rmSync(dir, { recursive: true, force: true });
  }
}

// ---- documented metadata ------------------------------------------------------------------------------
const META = { title: ['A title', 'é'], description: ['What it is', 'two\nlines'],  format: ['uuid', 'my format'], deprecated: [true], readOnly: [true], writeOnly: [true] };
// values of the kind; a string is read as text only where a string is documented
const VALUES = { string: ['x', '0', '', 'a b'], number: [0, 7, -1.5], boolean: [true, false], object: [{}, { a: 'x', b: 1 }], union: [0, 'x', true, { x: 1 }], inter: [{ a: 'x' }] };
const OWN = {
  string: { minLength: [0, 2], maxLength: [9], pattern: ['^[a-z]*$'] },
  number: { minimum: [0, -5], maximum: [10], multipleOf: [2], exclusiveMinimum: [true], exclusiveMaximum: [true] },
  object: { minProperties: [0, 1], maxProperties: [4] },
  array: { minItems: [0, 2], maxItems: [5], uniqueItems: [true] },
};
const KINDS = [
  ['string', { k: 'string' }], ['string', { k: 'lit', v: 'a' }], ['number', { k: 'number' }], ['boolean', { k: 'boolean' }],
  ['object', { k: 'type', props: [['a', { k: 'string' }], ['b', { k: 'optional', of: { k: 'number' } }]] }], ['object', { k: 'partial', props: [['a', { k: 'string' }]] }], ['object', { k: 'record', dom: { k: 'string' }, of: { k: 'number' } }],
  ['object', { k: 'record', dom: { k: 'keyof', keys: ['on', 'off'] }, of: { k: 'string' } }],
  ['union', { k: 'union', of: [{ k: 'string' }, { k: 'type', props: [['x', { k: 'number' }]] }] }], ['union', { k: 'keyof', keys: ['red', 'green'] }], ['union', { k: 'union', of: [{ k: 'number' }, { k: 'null' }] }],
  ['union', { k: 'union', of: [{ k: 'string' }, { k: 'number' }, { k: 'undefined' }] }], ['union', { k: 'union', of: [{ k: 'string' }, { k: 'undefined' }] }],
  ['object', { k: 'inter', of: [{ k: 'type', props: [['a', { k: 'string' }]] }, { k: 'partial', props: [['b', { k: 'number' }]] }] }],
  ['inter', { k: 'inter', of: [{ k: 'type', props: [['a', { k: 'string' }]] }, { k: 'record', dom: { k: 'string' }, of: { k: 'string' } }] }],
  ['array', { k: 'array', of: { k: 'string' } }], ['array', { k: 'array', of: { k: 'type', props: [['a', { k: 'number' }]] } }],
];
const PLACES = ['property', 'deep', 'optional', 'body', 'response', 'item', 'value', 'component', 'query'];

module.exports = {
  rule: 'A case is a generated project and configuration, given to the command line. Non-trivial: info - at least two sources of names; codecs - at least two custom codecs used; metadata - at least two keywords; errors - the broken definition is used.',
  assumptions: [
    'A configured codec is compared with the library combinators of the same meaning in its place; the definitions are written as in KNOWN_IMPORTS.',
    'The configuration file of a project replaces the built-in definitions of the packages it names (that is not tested); it only adds to those of dependencies.',
  ],
  props: [
    {
      name: 'info',
      runs: { quick: 500, thorough: 5000 },
      arb: (fc) => {
        const word = fc.oneof(fc.constantFrom('svc', '@scope/my-api', 'My API', 'é', '1.0', '0.0.1', '', 'a=b', '"quoted"', 'null'), fc.string({ maxLength: 8 }).map((s) => s.replace(/^-+/, '')));
        const opt = fc.option(word, { nil: undefined });
        const given = opt.map((v) => v || undefined); // an empty option is not passed on by the argument parser
        const info = fc.record({ name: opt, version: opt, description: opt });
        return fc.record({
          opts: fc.record({ name: given, version: given, description: given }),
          how: fc.constantFrom('long', 'short', 'equals'),
          first: fc.boolean(),
          relative: fc.boolean(),
          depth: fc.nat(3),
          pkgs: fc.array(fc.option(info, { nil: undefined }), { minLength: 4, maxLength: 4 }),
          beside: fc.boolean(),
          cwdDepth: fc.nat(3),
        });
      },
      async check({ opts, how, first, relative, depth, pkgs, beside, cwdDepth }, t, env) {
        const dirs = ['', 'src', 'src/api', 'src/api/v1'];
        const files = {};
        const at = dirs[depth];
        const join = (...xs) => path.posix.join(...xs);
        pkgs.forEach((p, i) => { if (p) files[join(dirs[i], 'package.json')] = JSON.stringify({ private: true, ...p }); });
        if (beside) { files[join(at, 'lib/package.json')] = JSON.stringify({ name: 'beside', version: '9.9.9', description: 'beside' }); files['node_modules/io-ts/package.json'] = JSON.stringify({ name: 'io-ts', version: '2.0.0', description: 'lib' }); }
        files[join(at, 'index.ts')] = G.renderProject({ decls: [], routes: [{ path: '/x', method: 'GET', params: [], query: [], headers: [], res: [[200, { k: 'string' }]], action: 'a', key: 'get' }] })['index.ts'];
        let pkg = {};
        for (let i = depth; i >= 0; i--) if (pkgs[i]) { pkg = pkgs[i]; break; }
        const pick = (k, d) => (opts[k] !== undefined ? opts[k] : pkg[k] !== undefined ? pkg[k] : d);
        const title = pick('name', 'openapi-generator');
        const expected = { title, version: pick('version', '0.0.1'), description: pick('description', `API spec for ${title}`) };
        const flags = Object.entries(opts).filter(([, v]) => v !== undefined).flatMap(([k, v]) => (how === 'equals' ? [`--${k}=${v}`] : how === 'long' ? ['--' + k, v] : ['-' + k[0], v]));
        const dir = G.newDir();
        let r;
        try {
          G.writeFiles(dir, files);
          const cwd = path.join(dir, dirs[Math.min(cwdDepth, depth)]);
          const file = path.join(dir, at, 'index.ts');
          const input = relative ? path.relative(cwd, file) : file;
          r = await G.runCli(env, first ? [input, ...flags] : [...flags, input], { cwd });
        } finally {
          fs.rmSync(dir, { recursive: true, force: true });
        }
        t.assert(r.doc !== undefined, () => `no document (exit ${r.exit}): ${r.stderr.slice(0, 300)} ${r.threw ? r.threw.stack : ''} for ${show(flags)}`);
        t.assert(show(P.canon(r.doc.info)) === show(P.canon(expected)), () => `info ${show(r.doc.info)}, expected ${show(expected)} from options ${show(flags)} and ${show(Object.entries(files).filter(([f]) => f.endsWith('.json')))} for ${at}/index.ts`);
        if (pkgs.filter(Boolean).length + flags.length >= 2) t.nontrivial();
      },
    },
    {
      name: 'codecs',
      runs: { quick: 500, thorough: 5000 },
      arb: (fc) => fc.record({
        model: P.modelArb(fc), style: P.styleArb(fc), customs: customArb(fc), seed: fc.integer(),
        fns: fc.uniqueArray(fc.tuple(fc.constantFrom('cx', 'cy'), fc.constantFrom(...TEMPLATES)), { selector: ([m, x]) => m + x.n, maxLength: 2 }),
        imports: fc.record({ cx: fc.constantFrom('star', 'named', 'alias'), cy: fc.constantFrom('star', 'alias'), cz: fc.constantFrom('star', 'alias') }),
        own: fc.nat(2).map((x) => x === 0),
        source: fc.constantFrom(...SOURCES), how: fc.constantFrom('arrow', 'function', 'default'), prefix: fc.constantFrom('', 'src/', 'src/api/'),
      }),
      async check({ model: base, style, customs: leaves, fns, imports, own, source, how, prefix, seed }, t, env) {
        const home = (x) => (own && x.m === 'cy' && !source.includes('dependency') ? { ...x, m: 'cz' } : x);
        const customs = [...leaves, ...fns.map(([m, x]) => ({ m, ...x }))].map(home);
        const { model, direct } = plant(base, customs, true, seed);
        const twin = overModel(model, (c) => plainly(c, customs));
        const conf = configure(customs, source, how, prefix);
        const st = { ...style, imports: { ...style.imports, ...imports } };
        const used = new Set();
        each(model, (c) => { if (c.k === 'libc' || c.k === 'libf') used.add(c.m + c.n); });
        const a = await run(env, G.renderProject(model, st), conf, prefix, t);
        const b = await run(env, G.renderProject(twin, style), { files: {}, args: ['--name', 'project', '--version', '1.2.3'] }, prefix, t);
        const { info: _, ...docA } = a.doc, { info: __, ...docB } = b.doc;
        const x = P.canonical(docA), y = P.canonical(docB);
        const text = () => P.listing(a.files).slice(0, 5000);
        if (!direct) t.assert(x === y, () => `custom codecs (${source}) are not documented as defined:\n${P.parting(x, y)}\n${text()}`);
        else {
          t.label('reference as argument');
          for (const r of twin.routes) {
            const oa = P.opOf(a.doc, r), ob = P.opOf(b.doc, r);
            t.assert(oa !== undefined, () => `${r.method} ${r.path} is missing\n${text()}`);
            const judge = (sa, sb, c, what) => {
              for (const v of G.values(c, twin.decls, seed, 14)) {
                const p = G.accepts(a.doc, sa, v), q = G.accepts(b.doc, sb, v);
                t.assert(p === q, () => `${r.path} ${what}: ${JSON.stringify(v)} is ${q ? '' : 'not '}accepted by the codecs as defined, and ${p ? '' : 'not '}by the document (${source})\n${text()}`);
              }
            };
            for (const [code, c] of r.res) judge(oa.responses[code].content[JSON_TYPE].schema, ob.responses[code].content[JSON_TYPE].schema, c, 'response ' + code);
            const body = P.bodyCodec(r);
            if (body) judge(oa.requestBody.content[JSON_TYPE].schema, ob.requestBody.content[JSON_TYPE].schema, body, 'body');
          }
        }
        t.label(source);
        if (used.size >= 2) t.nontrivial();
      },
    },
    {
      name: 'metadata',
      runs: { quick: 900, thorough: 9000 },
      arb: (fc) => fc.record({
        kind: fc.constantFrom(...KINDS), place: fc.constantFrom(...PLACES), shared: fc.boolean(),
        keys: fc.uniqueArray(fc.tuple(fc.nat(30), fc.nat(10)), { selector: (x) => x[0], minLength: 1, maxLength: 5 }),
        comment: fc.option(fc.record({ text: fc.constantFrom('', 'Said here'), title: fc.boolean(), format: fc.boolean() }), { nil: undefined }),
      }),
      async check({ kind: [kind, c], place: where, keys, shared, comment }, t, env) {
        // (unions in unions are merged, with nothing to say about the inner one)
        const place = where === 'optional' && kind === 'union' ? 'property' : where;
        const all = Object.entries({ ...META, ...(VALUES[kind] ? { default: VALUES[kind].filter((x) => x !== ''), example: VALUES[kind].filter((x) => x !== '') } : {}), ...(OWN[kind] || {}) }).filter(([k]) => !(kind === 'array' && k === 'default'));
        const meta = {};
        for (const [i, j] of keys) { const [k, vs] = all[i % all.length]; meta[k] = vs[j % vs.length]; }
        const used = { k: 'libc', m: 'cx', n: 'Thing' };
        const withDoc = comment && (place === 'property' || place === 'deep' || place === 'component');
        const doc = withDoc ? [...(comment.text ? [comment.text] : []), ...(comment.title ? ['@title Title here'] : []), ...(comment.format ? ['@format here'] : []), ...(!comment.text && !comment.title && !comment.format ? ['@title Title here'] : [])] : undefined;
        const decls = place === 'component' ? [{ n: 'Shared', c: used, ...(doc ? { doc } : {}) }] : [];
        const p = (x) => ({ k: 'type', props: [['p', x, ...(doc && place !== 'component' ? [doc] : [])], ['other', { k: 'libc', m: 'cx', n: 'Plain' }], ['again', used]] });
        const wrapped = { property: p(used), deep: { k: 'array', of: { k: 'type', props: [['q', p(used)]] } }, optional: p({ k: 'optional', of: used }), body: used, response: used, item: { k: 'array', of: used }, value: { k: 'record', dom: { k: 'string' }, of: used }, component: p({ k: 'ref', n: 'Shared' }), query: { k: 'string' } }[place];
        const route = { path: '/x', method: 'POST', params: [], query: place === 'query' ? [['q', used]] : [], headers: [], body: place === 'response' || place === 'query' ? undefined : { c: wrapped }, res: [[200, place === 'response' ? wrapped : { k: 'string' }]], action: 'a', key: 'post' };
        const customs = [{ m: 'cx', n: 'Thing', c, meta }, { m: 'cx', n: 'Plain', c }];
        // definitions are made anew for every use, or are the same object every time
        const files = shared
          ? { 'codecs.js': wrap(`(() => {\n  const thing = ${definition(c, meta)}, plain = ${definition(c)};\n  return { '@fancy/codecs': { Thing: () => E.right(thing), Plain: () => E.right(plain) } };\n})()`) }
          : { 'codecs.js': configFile({ [PKGS.cx]: customs }) };
        const conf = { files, args: ['-c', 'codecs.js'] };
        const project = G.renderProject({ decls, routes: [route] });
        const { doc: d } = await run(env, project, conf, '', t);
        const plainDoc = (await run(env, G.renderProject({ decls: decls.map((x) => ({ ...x, c, doc: undefined })), routes: [overModel({ decls: [], routes: [route] }, (x) => plainly(x, customs)).routes[0]].map((r) => JSON.parse(JSON.stringify(r, (k, v) => (k === 'props' ? v.map((q) => [q[0], q[1]]) : v)))) }), { files: {}, args: [] }, '', t)).doc;
        const find = (dd) => {
          const op = dd.paths['/x'].post;
          const b = op.requestBody && op.requestBody.content[JSON_TYPE].schema;
          switch (place) {
            case 'property': case 'optional': return b.properties.p;
            case 'deep': return b.items.properties.q.properties.p;
            case 'body': return b;
            case 'response': return op.responses[200].content[JSON_TYPE].schema;
            case 'item': return b.items;
            case 'value': return b.additionalProperties;
            case 'component': return dd.components.schemas.Shared;
            case 'query': return op.parameters[0].schema;
          }
        };
        const was = find(plainDoc), is = find(d);
        if (place === 'query' && kind !== 'array') {
          // a parameter is described beside its schema
          const param = d.paths['/x'].post.parameters[0];
          t.assert(param.description === meta.description && is.description === undefined, () => `parameter ${show(param)}, expected the description ${show(meta.description)} for\n${P.listing({ ...project, ...files })}`);
          if (meta.description !== undefined) is.description = meta.description;
        }
        // what the definition says, then what the comment says
        const says = { ...meta };
        if (doc) { if (comment.text) says.description = comment.text; if (doc.some((l) => l.startsWith('@title'))) says.title = 'Title here'; if (comment.format) says.format = 'here'; }
        const expected = JSON.parse(JSON.stringify(was));
        if (kind === 'array') {
          for (const [k, v] of Object.entries(says)) if (/^(minItems|maxItems|uniqueItems)$/.test(k)) expected[k] = v;
          // the rest describes the items, or the array
          const rest = (o) => Object.fromEntries(Object.keys(says).filter((k) => !/^(minItems|maxItems|uniqueItems)$/.test(k)).map((k) => [k, o[k]]));
          const got = { ...rest(is), ...Object.fromEntries(Object.entries(rest(is.items)).filter(([, v]) => v !== undefined)) };
          t.assert(P.canonical(got) === P.canonical(rest(says)), () => `documented ${show(is)}, expected ${show(says)} on\n${P.listing({ ...project, ...files })}`);
          t.assert(P.canonical([is.minItems, is.maxItems, is.uniqueItems]) === P.canonical([expected.minItems, expected.maxItems, expected.uniqueItems]), () => `documented ${show(is)}, expected ${show(says)} on\n${P.listing({ ...project, ...files })}`);
        } else {
          Object.assign(expected, says);
          t.assert(P.canonical(is) === P.canonical(expected), () => `documented ${show(is)}, expected ${show(expected)} for\n${P.listing({ ...project, ...files })}`);
        }
        if (place === 'component' && kind !== 'array') {
          // the comment of the shared codec is not about the other uses
          const again = d.paths['/x'].post.requestBody.content[JSON_TYPE].schema.properties.again;
          const { title: _, ...plain } = was;
          t.assert(P.canonical(again) === P.canonical({ ...plain, ...meta }), () => `used again in place it is documented as ${show(again)}, expected ${show({ ...plain, ...meta })} for\n${P.listing({ ...project, ...files })}`);
        }
        if (place === 'property') {
          const other = d.paths['/x'].post.requestBody.content[JSON_TYPE].schema.properties.other, ref = plainDoc.paths['/x'].post.requestBody.content[JSON_TYPE].schema.properties.other;
          t.assert(P.canonical(other) === P.canonical(ref), () => `the property beside it is documented as ${show(other)}, expected ${show(ref)}`);
        }
        t.label(kind); t.label(place);
        if (shared) t.label('same object every time');
        if (Object.keys(meta).length >= 2) t.nontrivial();
      },
    },
    {
      name: 'errors',
      runs: { quick: 120, thorough: 1200 },
      arb: (fc) => fc.record({ what: fc.constantFrom('left', 'left unused', 'no file', 'no file in package.json', 'no default', 'throws'), via: fc.constantFrom('-c', 'package', 'dependency'), deep: fc.boolean(), words: fc.constantFrom('Not here', 'é: no') }),
      async check({ what, via, deep, words }, t, env) {
        const used = what !== 'left unused';
        const body = deep ? { k: 'array', of: { k: 'type', props: [['a', { k: 'libc', m: 'cx', n: used ? 'Bad' : 'Good' }]] } } : { k: 'libc', m: 'cx', n: used ? 'Bad' : 'Good' };
        const project = G.renderProject({ decls: [], routes: [{ path: '/x', method: 'POST', params: [], query: [], headers: [], body: { c: body }, res: [[200, { k: 'string' }]], action: 'a', key: 'post' }] });
        const inner = `{ Bad: () => E.left(${JSON.stringify(words)}), Good: () => E.right({ type: 'string' }) }`;
        const text = what === 'no default' ? `Object.defineProperty(exports, '__esModule', { value: true });\nexports.codecs = (E) => (${inner});\n` : what === 'throws' ? `throw new Error(${JSON.stringify(words)});\n` : wrap(via === 'dependency' ? inner : `{ '@fancy/codecs': ${inner} }`);
        const files = { 'package.json': JSON.stringify({ name: 'p', ...(via === 'package' ? { 'openapi-generator': { 'codec-file': 'codecs.js' } } : {}) }) };
        const args = via === '-c' ? ['-c', 'codecs.js'] : [];
        if (!what.startsWith('no file')) files[via === 'dependency' ? 'node_modules/@fancy/codecs/codecs.js' : 'codecs.js'] = text;
        if (via === 'dependency') files['node_modules/@fancy/codecs/package.json'] = JSON.stringify({ name: '@fancy/codecs', version: '1.0.0', customCodecFile: 'codecs.js' });
        const r = await run(env, project, { files, args }, '', t, true);
        if (!used) { t.assert(r.doc !== undefined, () => `no document: ${r.stderr} ${r.threw}`); return; }
        t.assert(r.exit !== 0 && r.doc === undefined, () => `a document although the codec definitions fail (${what}, ${via}): ${r.stdout.slice(0, 300)}`);
        if (what === 'left') t.assert(r.stderr.includes(words), () => `the error of the definition is not printed: ${r.stderr}`);
        t.label(what);
        t.nontrivial();
      },
    },
  ],
};
