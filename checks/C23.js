'use strict';
const G = require('../lib/gen');
const P = require('../lib/projects');
const { show } = require('../lib/ser');

const JSON_TYPE = 'application/json';
const PREFIX = '#/components/schemas/';
// where declarations live: files of the project, and packages in node_modules
const PLACES = [
  { id: 'index', file: 'index.ts' },
  { id: 'a', file: 'a.ts' },
  { id: 'b', file: 'lib/b.ts' },
  { id: 'sub', file: 'lib/sub/index.ts' },
  { id: 'b2', file: 'other/lib/b.ts' },
  { id: 'sub2', file: 'other/lib/sub/index.ts' },
  { id: 'one', file: 'node_modules/pkg-one/src/index.ts', pkg: 'pkg-one' },
  { id: 'more', file: 'node_modules/pkg-one/src/more.ts', pkg: 'pkg-one', inner: true },
  { id: 'two', file: 'node_modules/@scope/two/src/index.ts', pkg: '@scope/two' },
  { id: 'dot', file: 'node_modules/three.js/src/index.ts', pkg: 'three.js' },
];
const inBarrel = (d) => d.at !== 'index';
const at = (id) => PLACES.find((p) => p.id === id);
const PKGS = ['pkg-one', '@scope/two', 'three.js'];
// names that only differ in case, or begin with one another
const STARS = ['ns', 'Ns', 'ns0', 'ns00', 'NS', 'nsFoo', 'fo', 'n', 'bar0', 'ns1'];
const NAMES = ['Foo', 'foo', 'FOO', 'Fo', 'FooBar', 'bar', 'Bar', 'Baz', 'Foo1', 'Foo2', 'Id', 'NonEmptyString', 'toString', 'constructor'];

function source(model) {
  const r = G.prng(model.seed);
  const style = { imports: { t: 'star', h: 'star', tt: 'alias' } };
  const files = new Map();
  const mods = [];
  for (const p of PLACES) {
    const own = model.decls.filter((d) => d.at === p.id).map((d) => d.n);
    files.set(p.id, { p, P: new G.Printer(style), body: [], imports: new Map(), stars: new Map(), used: new Set([...own, 't', 'h']), forms: new Map() });
  }
  const decl = (id) => model.decls.find((d) => d.id === id);
  const spec = (f, to) => { let x = require('path').posix.relative(require('path').posix.dirname(f.p.file), to.replace(/\.ts$/, '').replace(/\/index$/, '') || '.'); return x.startsWith('.') ? x : './' + x; };
  // how a package or the barrel calls what it passes on
  const outer = new Map(); // `${surface} ${decl id}` -> exported name
  const passedOn = { barrel: new Set(), 'pkg-one': new Set() };
  const exportedAs = (surface, d, taken) => {
    const k = surface + ' ' + d.id;
    if (!outer.has(k)) outer.set(k, taken.has(d.n) ? `${d.n}_${d.id}` : d.n);
    return outer.get(k);
  };
  const surfaceNames = (surface) => new Set([...outer].filter(([k]) => k.startsWith(surface + ' ')).map(([, v]) => v));
  for (const d of model.decls) if (d.at === 'one') outer.set('pkg-one ' + d.id, d.n);
  for (const d of model.decls) if (d.at === 'more') { if (d.alias) outer.set('pkg-one ' + d.id, `Public${d.id}`); else exportedAs('pkg-one', d, surfaceNames('pkg-one')); }
  for (const d of model.decls) if (inBarrel(d)) { if (d.alias) outer.set('barrel ' + d.id, `Public${d.id}`); else exportedAs('barrel', d, surfaceNames('barrel')); }

  const nameIn = (f, d) => {
    const g = at(d.at);
    if (g.id === f.p.id) return d.n;
    let from, what;
    if (inBarrel(d) && !f.p.pkg && r.chance(0.3)) { from = spec(f, 'barrel.ts'); what = outer.get('barrel ' + d.id); passedOn.barrel.add(d.id); }
    else if (g.pkg && g.pkg !== f.p.pkg) { from = g.pkg; what = outer.get(`${g.pkg} ${d.id}`) || d.n; }
    else { from = spec(f, g.file); what = d.n; }
    if (!f.forms.has(from)) f.forms.set(from, r.chance(0.3) ? 'star' : 'named');
    if (f.forms.get(from) === 'star' && g.id !== 'index') {
      if (!f.stars.has(from)) { const free = STARS.filter((x) => !f.used.has(x)), l = r.pick(free); f.used.add(l); f.stars.set(from, l); };
      return `${f.stars.get(from)}.${what}`;
    }
    if (!f.imports.has(from)) f.imports.set(from, new Map());
    const m = f.imports.get(from);
    if (!m.has(what)) { let local = r.chance(0.2) ? `${what}_local` : what; while (f.used.has(local)) local += '_'; f.used.add(local); m.set(what, local); }
    return m.get(what);
  };
  const codec = (f, c) => {
    G.walk(c, undefined, (x) => { if (x.k === 'ref') f.P.external.set(x.n, nameIn(f, decl(x.n))); });
    return f.P.codec(c);
  };
  for (const d of model.decls) {
    const f = files.get(d.at);
    const text = codec(f, d.c);
    if (r.chance(0.3)) f.body.push(`const ${d.n} = ${text};`, `export { ${d.n} };`);
    else f.body.push(`export const ${d.n} = ${text};`);
  }
  const f = files.get('index');
  const routes = model.routes.map((x, i) => `  r${i}: { post: ${f.P.lib('h', 'httpRoute')}({\n    path: '/r${i}',\n    method: 'POST',\n    request: ${f.P.lib('t', 'type')}({ body: ${codec(f, x.body)} }),\n    response: {\n${x.res.map((c, j) => `      ${200 + j}: ${codec(f, c)},\n`).join('')}    },\n  }) },\n`);
  f.body.push(`export const api = ${f.P.lib('h', 'apiSpec')}({\n${routes.join('')}});`);
  const out = {};
  for (const x of files.values()) {
    if (!x.body.length && x.p.id !== 'one') continue;
    const lines = [...x.P.importLines(), ...[...x.imports].map(([from, m]) => `import { ${[...m].map(([n, l]) => (n === l ? n : `${n} as ${l}`)).join(', ')} } from '${from}';`), ...[...x.stars].map(([from, l]) => `import * as ${l} from '${from}';`)];
    if (x.p.id === 'one') lines.push(...passOn(model.decls.filter((d) => d.at === 'more'), 'pkg-one', () => './more'));
    out[x.p.file] = [...lines, ...x.body, ''].join('\n');
  }
  // `export *` where no two of them export the same name; what is exported by name goes before that
  function passOn(ds, surface, from) {
    const by = new Map();
    for (const d of ds) { const k = from(d); if (!by.has(k)) by.set(k, []); by.get(k).push(d); }
    const stars = [], taken = new Set();
    for (const [k, xs] of by) {
      if (!model.star || (PKGS.includes(k) && model.decls.some((d) => at(d.at).pkg === k && !xs.includes(d))) || xs.some((d) => taken.has(d.n)) || !xs.some((d) => outer.get(`${surface} ${d.id}`) === d.n)) continue;
      stars.push(k);
      xs.forEach((d) => taken.add(d.n));
    }
    const named = [...by].map(([k, xs]) => {
      const list = xs.map((d) => [(PKGS.includes(k) && outer.get(`${k} ${d.id}`)) || d.n, outer.get(`${surface} ${d.id}`)]).filter(([n, o]) => !(stars.includes(k) && n === o)).map(([n, o]) => (n === o ? n : `${n} as ${o}`));
      return list.length ? `export { ${list.join(', ')} } from '${k}';` : undefined;
    }).filter(Boolean);
    const all = stars.map((k) => `export * from '${k}';`);
    return model.dot ? [...all, ...named] : [...named, ...all];
  }
  if (passedOn.barrel.size) {
    const ds = model.decls.filter((d) => inBarrel(d) && (!at(d.at).pkg || passedOn.barrel.has(d.id)));
    out['barrel.ts'] = passOn(ds, 'barrel', (d) => at(d.at).pkg || './' + at(d.at).file.replace(/\.ts$/, '')).join('\n');
    // next to files that the generator does not find
    if (model.lost) out['barrel.ts'] = `export * from '${model.lost}';\n${out['barrel.ts']}`;
  }
  for (const p of PKGS) out[`node_modules/${p}/package.json`] = JSON.stringify({ name: p, version: '1.0.0', [model.field]: model.dot ? './src/index.ts' : 'src/index.ts' });
  // directories called like packages, where the generator runs
  if (model.dirs) for (const p of PKGS) out[`${p}/notes.txt`] = 'nothing to see here';
  // a package that is not installed
  if (model.absent) for (const k of Object.keys(out)) if (k.startsWith(`node_modules/${model.absent}/`)) delete out[k];
  out['package.json'] = JSON.stringify({ name: 'scratch', version: '1.0.0' });
  return out;
}

// every $ref of a document
function refsOf(x, out = []) {
  if (Array.isArray(x)) x.forEach((y) => refsOf(y, out));
  else if (x && typeof x === 'object') {
    for (const [k, v] of Object.entries(x)) if (k === '$ref' && typeof v === 'string') out.push(v); else refsOf(v, out);
  }
  return out;
}

function projectArb(fc) {
  const ids = ['D0', 'D1', 'D2', 'D3', 'D4', 'D5'];
  const names = G.PROPS.filter((n) => n !== '$ref');
  const codec = (refs, depth = 2) => G.codecArb(fc, { depth, leaves: G.EXACT, refs, names, unionUndef: false }).map(P.noEmpty);
  const plain = (c) => (c.k === 'brand' ? plain(c.of) : { ...c, ...(c.of ? { of: Array.isArray(c.of) ? c.of.map(plain) : plain(c.of) } : {}), ...(c.props ? { props: c.props.map(([n, x]) => [n, plain(x)]) } : {}) });
  // several references side by side
  const group = (refs) => fc.tuple(fc.constantFrom('inter', 'union'), fc.uniqueArray(fc.constantFrom(...refs), { minLength: Math.min(2, refs.length), maxLength: 3 })).map(([k, ns]) => (ns.length < 2 ? { k: 'ref', n: ns[0] } : { k, of: ns.map((n) => ({ k: 'ref', n })) }));
  const inside = (refs) => (refs.length ? fc.oneof({ weight: 2, arbitrary: codec(refs, 1) }, { weight: 2, arbitrary: fc.constantFrom(...refs).map((n) => ({ k: 'ref', n })) }, { weight: 1, arbitrary: group(refs) }) : codec(refs, 1));
  const marked = (i) => fc.uniqueArray(fc.tuple(fc.constantFrom(...names), inside(ids.slice(0, i))), { selector: (x) => x[0], maxLength: 3 }).map((ps) => ({ k: 'type', props: [['markD' + i, { k: 'lit', v: 'D' + i }], ...ps] }));
  const decl = (i, places) => fc.record({ n: fc.constantFrom('Foo', 'Foo', 'Foo', 'Bar', ...NAMES), at: fc.constantFrom(...places), alias: fc.nat(3).map((x) => x === 0), c: fc.oneof({ weight: 3, arbitrary: marked(i) }, { weight: 1, arbitrary: codec(ids.slice(0, i), 2).map(plain) /* branded codecs are documented as copies */ }) }).map((d) => ({ id: ids[i], ...d }));
  const any = inside(ids);
  const all = PLACES.map((p) => p.id);
  const places = fc.oneof({ weight: 2, arbitrary: fc.constant(all) }, { weight: 2, arbitrary: fc.subarray(all, { minLength: 2, maxLength: 4 }) }, { weight: 1, arbitrary: fc.constant(['b', 'sub', 'b2', 'sub2']) });
  return fc.record({
    decls: places.chain((ps) => fc.tuple(...ids.map((_, i) => decl(i, ps)))).map((ds) => ds.filter((d, i) => !ds.slice(0, i).some((e) => e.at === d.at && e.n === d.n))),
    routes: fc.array(fc.record({ body: any, res: fc.array(any, { minLength: 1, maxLength: 2 }) }), { minLength: 1, maxLength: 3 }),
    star: fc.boolean(),
    lost: fc.constantFrom(undefined, undefined, 'fp-ts/Option', 'no-such-package', '@scope/none'),
    dot: fc.boolean(),
    dirs: fc.boolean(),
    field: fc.constantFrom('source', 'typings', 'types'),
    seed: fc.integer(),
  }).map(({ decls, routes, ...m }) => {
    // packages only know packages; what was filtered out is a string
    const fix = (c, ok) => (c.k === 'ref' ? (ok(c.n) ? c : { k: 'string' }) : { ...c, ...(c.of ? { of: Array.isArray(c.of) ? c.of.map((x) => fix(x, ok)) : fix(c.of, ok) } : {}), ...(c.dom ? { dom: fix(c.dom, ok) } : {}), ...(c.props ? { props: c.props.map(([n, x]) => [n, fix(x, ok)]) } : {}) });
    const find = (id) => decls.find((d) => d.id === id);
    const seen = (d) => (id) => find(id) !== undefined && (d === undefined || !at(d.at).pkg || Boolean(at(find(id).at).pkg));
    return { decls: decls.map((d) => ({ ...d, c: fix(d.c, seen(d)) })), routes: routes.map((x) => ({ body: fix(x.body, seen()), res: x.res.map((c) => fix(c, seen())) })), ...m };
  });
}

module.exports = {
  rule: 'A case is a generated project with up to 6 codecs that refer to each other, in up to 4 files and 2 installed packages, with clashing names, imported directly, under aliases, as namespaces and through re-exports. Non-trivial: codecs in two files or packages that have the same name, or a codec of a package that refers to another codec.',
  assumptions: ['The generator may document a shared codec in place instead of by reference (it does so inside some arrays).', 'Property names $ref are not used, so that every $ref in a document is a reference.'],
  props: [
    {
      name: 'components',
      runs: { quick: 1600, thorough: 20000 },
      arb: projectArb,
      async check(model, t, env) {
        const files = source(model);
        const { doc } = await P.docOf(env, files, t);
        const src = () => '\n' + P.listing(files).slice(0, 5000);
        const comps = doc.components.schemas;
        const refs = new Set(refsOf(doc));
        for (const x of refs) t.assert(x.startsWith(PREFIX) && Object.prototype.hasOwnProperty.call(comps, x.slice(PREFIX.length)), () => `reference ${x} has no component; there are ${show(Object.keys(comps))}${src()}`);
        // one component per codec, only of codecs in use, each under its codec's name
        const used = new Set();
        const decls = model.decls.map((d) => ({ n: d.id, c: d.c }));
        for (const x of model.routes) for (const c of [x.body, ...x.res]) G.walk(c, decls, (y) => { if (y.k === 'ref') used.add(y.n); });
        const marks = new Map();
        for (const [n, s] of Object.entries(comps)) {
          t.assert(refs.has(PREFIX + n), () => `component ${n} is not referred to${src()}`);
          const titles = [s, ...(s.allOf || [])].map((y) => y.title).filter((y) => y !== undefined);
          t.assert(titles.includes(n), () => `component ${n} has the title ${show(titles)}${src()}`);
          const key = Object.keys(s.properties || {}).find((k) => /^markD\d$/.test(k));
          const mark = key && key.slice(4);
          if (mark === undefined) continue;
          const d = model.decls.find((e) => e.id === mark);
          t.assert(used.has(mark), () => `component ${n} is ${mark}, which no route uses${src()}`);
          t.assert(!marks.has(mark), () => `components ${n} and ${marks.get(mark)} are the same codec ${d.n} (${mark})${src()}`);
          marks.set(mark, n);
          const base = [d.n, `Public${d.id}`, `${d.n}_${d.id}`];
          t.assert(base.some((b) => n.startsWith(b) && /^\d*$/.test(n.slice(b.length))), () => `codec ${d.n} (${mark}) is documented as ${n}${src()}`);
          const rivals = model.decls.filter((e) => e !== d && used.has(e.id) && e.n.startsWith(d.n.replace(/\d+$/, '')));
          if (!rivals.length && n !== d.n) t.assert(base.slice(1).includes(n), () => `codec ${d.n} (${mark}) is documented as ${n}, and no other has its name${src()}`);
        }
        t.assert(Object.keys(comps).length <= used.size, () => `${Object.keys(comps).length} components for ${used.size} codecs: ${show(Object.keys(comps))}${src()}`);
        // what is referred to is what was meant
        const pr = new G.Printer();
        const lines = model.decls.map((d) => `export const ${d.id} = ${pr.codec(d.c)};`);
        model.routes.forEach((x, i) => { lines.push(`export const b${i} = ${pr.codec(x.body)};`); x.res.forEach((c, j) => lines.push(`export const r${i}_${j} = ${pr.codec(c)};`)); });
        const real = G.evaluate(env, { 'index.ts': [...pr.importLines(), ...lines].join('\n') });
        const E = env.req('fp-ts/Either');
        const judge = (schema, c, codec, what) => {
          for (const v of G.values(c, decls, model.seed, 10)) {
            const x = E.isRight(codec.decode(v)), y = G.accepts(doc, schema, v);
            t.assert(x === y, () => `${what}: ${JSON.stringify(v)} is ${x ? '' : 'not '}acceptable; schema ${show(schema)}, components ${JSON.stringify(comps)}${src()}`);
          }
        };
        model.routes.forEach((x, i) => {
          const op = doc.paths['/r' + i].post;
          judge(op.requestBody.content[JSON_TYPE].schema, x.body, real['b' + i], `body of route ${i}`);
          x.res.forEach((c, j) => judge(op.responses[200 + j].content[JSON_TYPE].schema, c, real[`r${i}_${j}`], `response ${200 + j} of route ${i}`));
        });
        for (const [mark, n] of marks) judge(comps[n], model.decls.find((d) => d.id === mark).c, real[mark], 'component ' + n);
        const inUse = model.decls.filter((d) => used.has(d.id));
        if (inUse.some((d) => inUse.some((e) => e !== d && e.n === d.n))) { t.label('clashing names'); t.nontrivial(); }
        if (inUse.some((d) => at(d.at).pkg)) t.label(model.dirs ? 'package and directory' : 'package');
        if (inUse.some((d) => at(d.at).pkg && (() => { let y = false; G.walk(d.c, undefined, (z) => { if (z.k === 'ref') y = true; }); return y; })())) { t.label('reference inside a package'); t.nontrivial(); }
      },
    },
    {
      name: 'missing',
      runs: { quick: 400, thorough: 4000 },
      arb: (fc) => fc.record({ model: projectArb(fc), pick: fc.nat(9), how: fc.constantFrom('not installed', 'no entry point', 'no such file', 'not exported'), field: fc.constantFrom('main', 'module') }),
      async check({ model, pick, how, field }, t, env) {
        // a codec that is used and cannot be found is an error, which names it
        const decls = model.decls.map((d) => ({ n: d.id, c: d.c }));
        const used = new Set();
        for (const x of model.routes) for (const c of [x.body, ...x.res]) G.walk(c, decls, (y) => { if (y.k === 'ref') used.add(y.n); });
        const candidates = model.decls.filter((d) => used.has(d.id) && at(d.at).pkg && !at(d.at).inner);
        if (!candidates.length) { t.label('no package'); return; }
        const d = candidates[pick % candidates.length];
        const pkg = at(d.at).pkg;
        const dir = `node_modules/${pkg}/`;
        let files = source(model);
        const listed = P.listing(files).slice(0, 5000);
        if (how === 'not installed') files = Object.fromEntries(Object.entries(files).filter(([f]) => !f.startsWith(dir)));
        else if (how === 'no entry point') files[dir + 'package.json'] = JSON.stringify({ name: pkg, version: '1.0.0', [field]: 'src/index.ts' });
        else if (how === 'no such file') files[dir + 'package.json'] = JSON.stringify({ name: pkg, version: '1.0.0', types: 'lib/index.ts' });
        else files[dir + 'src/index.ts'] = 'export const Unrelated = 1;\n';
        const r = await G.generate(env, files);
        t.assert(r.exit !== 0 && r.doc === undefined, () => `${pkg} is ${how}, but a document is printed; without the change, the project is\n${listed}\n${r.stdout.slice(0, 1500)}`);
        t.assert(r.threw === undefined, () => `${pkg} is ${how}, and the generator crashes: ${r.threw && r.threw.stack}`);
        const names = model.decls.filter((e) => at(e.at).pkg === pkg).flatMap((e) => [e.n, `Public${e.id}`, `${e.n}_${e.id}`]);
        // through a file that passes it on, only the codec is named
        const passed = (files['barrel.ts'] || '').includes(`'${pkg}'`);
        t.assert(names.some((n) => r.stderr.includes(n)) && (passed || r.stderr.includes(pkg)), () => `${pkg} is ${how}, and the message names neither it nor a codec of it: ${r.stderr}\n${listed}`);
        t.label(how);
        t.nontrivial();
      },
    },
  ],
};
