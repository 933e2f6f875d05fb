'use strict';
// The OpenAPI generator under test: a description language for API projects (pure data), its
// rendering as TypeScript source in several syntactic styles, the generator's command line run
// on that source, and the very same source executed, to know what the described codecs accept.
const fs = require('fs');
const os = require('os');
const path = require('path');
const Module = require('module');
const { REPO } = require('./build');

// ---- the command line, in this process -------------------------------------------------------------
class Exit extends Error { constructor(code) { super('exit ' + code); this.code = code; } }
const tails = new Map();
function loadCli(env, fresh) {
  const dist = path.join(env.pkgDir('openapi-generator'), 'dist');
  const real = fs.realpathSync(dist);
  if (fresh) for (const k of Object.keys(require.cache)) if (k.startsWith(real + path.sep)) delete require.cache[k];
  const cli = path.join(real, 'src', 'cli.js');
  const cmdts = Module.createRequire(cli)('cmd-ts');
  if (!fresh && tails.has(cli)) return { cmdts, app: tails.get(cli) };
  let app;
  const load = Module._load;
  Module._load = function (request, parent, isMain) {
    const m = load.call(this, request, parent, isMain);
    if (request === 'cmd-ts' && parent && parent.filename === cli) return new Proxy({}, { get: (_, k) => (k === 'run' || k === 'runSafely' || k === 'dryRun' ? async (a) => { app = a; } : m[k]), has: (_, k) => k in m });
    return m;
  };
  try {
    delete require.cache[cli];
    require(cli);
  } finally {
    Module._load = load;
  }
  if (app === undefined) throw new Error('the command line did not hand its command to cmd-ts run()');
  tails.set(cli, app);
  return { cmdts, app };
}

// Runs the CLI on `input`; { exit, doc, stderr, threw }
async function runCli(env, args, { fresh = false, cwd } = {}) {
  const { cmdts, app } = loadCli(env, fresh);
  const out = [], err = [];
  const keep = { log: console.log, error: console.error, warn: console.warn, exit: process.exit, exitCode: process.exitCode, write: process.stdout.write, writeError: process.stderr.write };
  let exit = 0, threw;
  const raw = (to) => (x, ...more) => { to.push(typeof x === 'string' ? x : Buffer.from(x).toString()); const f = more.find((m) => typeof m === 'function'); if (f) f(); return true; };
  process.stdout.write = raw(out);
  process.stderr.write = raw(err);
  process.exitCode = undefined;
  console.log = (...a) => out.push(a.map((x) => (typeof x === 'string' ? x : require('util').inspect(x))).join(' ') + '\n');
  console.error = (...a) => err.push(a.map(String).join(' ') + '\n');
  console.warn = console.error;
  process.exit = (c) => { throw new Exit(c === undefined ? 0 : c); };
  const here = process.cwd();
  if (cwd) process.chdir(cwd);
  try {
    await cmdts.run(app, args);
  } catch (e) {
    if (e instanceof Exit) exit = e.code;
    else { exit = 1; threw = e; }
  } finally {
    Object.assign(console, { log: keep.log, error: keep.error, warn: keep.warn });
    process.exit = keep.exit;
    process.stdout.write = keep.write;
    process.stderr.write = keep.writeError;
    if (exit === 0 && process.exitCode) exit = Number(process.exitCode);
    process.exitCode = keep.exitCode;
    if (cwd) process.chdir(here);
  }
  let doc;
  const stdout = out.join('');
  if (exit === 0) { try { doc = JSON.parse(stdout); } catch (e) { threw = threw || new Error('stdout is not JSON: ' + stdout.slice(0, 200)); } }
  if (doc !== undefined && module.exports.onDoc) module.exports.onDoc(doc, args);
  return { exit, doc, stdout, stderr: err.join(''), threw };
}

// ---- scratch directories ------------------------------------------------------------------------------
let scratch, serial = 0;
function newDir() {
  if (!scratch) {
    scratch = fs.mkdtempSync(path.join(os.tmpdir(), 'vgen-'));
    process.on('exit', () => fs.rmSync(scratch, { recursive: true, force: true }));
  }
  const d = path.join(scratch, 'c' + serial++);
  fs.mkdirSync(d);
  return d;
}
function writeFiles(dir, files) {
  for (const [f, src] of Object.entries(files)) {
    const p = path.join(dir, f);
    fs.mkdirSync(path.dirname(p), { recursive: true });
    fs.writeFileSync(p, src);
  }
}
// files: { 'index.ts': source, ... }; runs the generator on `entry`
async function generate(env, files, { entry = 'index.ts', args = [], fresh = false, keep = false, nodeModules = false } = {}) {
  const dir = newDir();
  try {
    writeFiles(dir, files);
    if (nodeModules) fs.symlinkSync(path.join(env.buildDir, 'node_modules'), path.join(dir, 'node_modules'));
    return await runCli(env, [path.join(dir, entry), ...args], { fresh, cwd: dir });
  } finally {
    if (!keep) fs.rmSync(dir, { recursive: true, force: true });
  }
}

// ---- executing the same source ---------------------------------------------------------------------------
// Stand-ins for two packages the generator knows about and which are not installed here, written
// from their documented meaning (io-ts-numbers, io-ts-bigint).
function numbersPkg(t, bigint) {
  const out = {};
  const num = (name, ok) => new t.Type(name, (u) => (bigint ? typeof u === 'bigint' : typeof u === 'number') && ok(u), (u, c) => ((bigint ? typeof u === 'bigint' : typeof u === 'number') && ok(u) ? t.success(u) : t.failure(u, c)), (a) => a);
  const from = (name, ok) => new t.Type(name, (u) => ok(u), (u, c) => {
    if (typeof u !== 'string' || u.trim() === '') return t.failure(u, c);
    let v;
    try { v = bigint ? BigInt(u) : Number(u); } catch (e) { return t.failure(u, c); }
    if (!bigint && !Number.isFinite(v)) return t.failure(u, c);
    return ok(v) ? t.success(v) : t.failure(u, c);
  }, String);
  const Z = bigint ? 0n : 0;
  const signs = { '': () => true, Negative: (x) => x < Z, NonNegative: (x) => x >= Z, NonPositive: (x) => x <= Z, NonZero: (x) => x !== Z, Positive: (x) => x > Z, Zero: (x) => x === Z };
  if (bigint) {
    for (const [s, f] of Object.entries(signs)) {
      if (s) out[s + 'BigInt'] = num(s + 'BigInt', f);
      out[s + 'BigIntFromString'] = from(s + 'BigIntFromString', f);
    }
    out.NonEmptyString = new t.Type('NonEmptyString', (u) => typeof u === 'string' && u.length > 0, (u, c) => (typeof u === 'string' && u.length > 0 ? t.success(u) : t.failure(u, c)), (a) => a);
    return out;
  }
  for (const [s, f] of Object.entries(signs)) {
    if (s) out[s] = num(s, f);
    if (s && s !== 'Zero' && s !== 'Positive') {
      out[s + 'Int'] = num(s + 'Int', (x) => Number.isInteger(x) && f(x));
      out[s + 'IntFromString'] = from(s + 'IntFromString', (x) => Number.isInteger(x) && f(x));
    }
    if (s) out[s + 'FromString'] = from(s + 'FromString', f);
  }
  out.NumberFromString = from('NumberFromString', () => true);
  out.NaturalFromString = from('NaturalFromString', (x) => Number.isInteger(x) && x >= 0);
  return out;
}
function evaluate(env, files, entry = 'index.ts') {
  const ts = require('/opt/veriftools/node/node_modules/typescript'); // newer than the repository's: it knows satisfies
  const cache = new Map();
  const t = env.req('io-ts');
  const load = (file) => {
    if (cache.has(file)) return cache.get(file).exports;
    const src = files[file];
    if (src === undefined) throw new Error('no such file ' + file);
    const js = ts.transpileModule(src, { fileName: file, compilerOptions: { module: ts.ModuleKind.CommonJS, target: ts.ScriptTarget.ES2020, esModuleInterop: true } }).outputText;
    const m = { exports: {} };
    cache.set(file, m);
    const req = (spec) => {
      if (spec.startsWith('.')) {
        const base = path.posix.normalize(path.posix.join(path.posix.dirname(file), spec));
        for (const c of [base, base + '.ts', base + '/index.ts']) if (files[c] !== undefined) return load(c);
        throw new Error('cannot resolve ' + spec + ' from ' + file);
      }
      if (spec === 'io-ts-numbers') return numbersPkg(t, false);
      if (spec === 'io-ts-bigint') return numbersPkg(t, true);
      for (const base of [`node_modules/${spec}/src/index.ts`, `node_modules/${spec}/index.ts`]) if (files[base] !== undefined) return load(base);
      return env.req(spec);
    };
    new Function('exports', 'require', 'module', js)(m.exports, req, m);
    return m.exports;
  };
  return load(entry);
}

// ---- what a schema of the document accepts ---------------------------------------------------------------
// OpenAPI 3.0 reading, with the two conventions of this generator: `oneOf` lists alternatives of a
// union (any may match), and { nullable: true, enum: [] } stands for null.
const has = (o, k) => Object.prototype.hasOwnProperty.call(o, k);
const same = (a, b) => JSON.stringify(a) === JSON.stringify(b);
function accepts(doc, s, v, depth = 0) {
  if (depth > 60) throw new Error('schema recursion too deep');
  if (s === undefined || s === null || typeof s !== 'object') throw new Error('not a schema: ' + JSON.stringify(s));
  if (s.$ref !== undefined) {
    const m = /^#\/components\/schemas\/(.*)$/.exec(s.$ref);
    const target = m && doc.components && doc.components.schemas && doc.components.schemas[m[1]];
    if (target === undefined) throw new Error('unresolved ' + s.$ref);
    return accepts(doc, target, v, depth + 1);
  }
  if (v === null && s.nullable === true) return true;
  const rec = (x, y) => accepts(doc, x, y, depth + 1);
  if (s.allOf !== undefined && !s.allOf.every((x) => rec(x, v))) return false;
  if (s.oneOf !== undefined && !s.oneOf.some((x) => rec(x, v))) return false;
  if (s.anyOf !== undefined && !s.anyOf.some((x) => rec(x, v))) return false;
  if (s.enum !== undefined && !s.enum.some((e) => same(e, v))) return false;
  const isObj = v !== null && typeof v === 'object' && !Array.isArray(v);
  switch (s.type) {
    case 'string': if (typeof v !== 'string') return false; break;
    case 'number': if (typeof v !== 'number') return false; break;
    case 'integer': if (!Number.isInteger(v)) return false; break;
    case 'boolean': if (typeof v !== 'boolean') return false; break;
    case 'array': if (!Array.isArray(v)) return false; break;
    case 'object': if (!isObj) return false; break;
    case undefined: break;
    default: throw new Error('unknown type ' + s.type);
  }
  if (typeof v === 'string') {
    if (s.minLength !== undefined && [...v].length < s.minLength) return false;
    if (s.maxLength !== undefined && [...v].length > s.maxLength) return false;
    if (s.pattern !== undefined && !new RegExp(s.pattern).test(v)) return false;
  }
  if (typeof v === 'number') {
    if (s.minimum !== undefined && (s.exclusiveMinimum ? v <= s.minimum : v < s.minimum)) return false;
    if (s.maximum !== undefined && (s.exclusiveMaximum ? v >= s.maximum : v > s.maximum)) return false;
    if (s.multipleOf !== undefined && !Number.isInteger(v / s.multipleOf)) return false;
  }
  if (Array.isArray(v)) {
    if (s.minItems !== undefined && v.length < s.minItems) return false;
    if (s.maxItems !== undefined && v.length > s.maxItems) return false;
    if (s.uniqueItems && v.some((x, i) => v.slice(0, i).some((y) => same(x, y)))) return false;
    if (s.items !== undefined && !v.every((x) => rec(s.items, x))) return false;
  }
  if (isObj) {
    if (s.minProperties !== undefined && Object.keys(v).length < s.minProperties) return false;
    if (s.maxProperties !== undefined && Object.keys(v).length > s.maxProperties) return false;
    for (const r of s.required || []) if (!has(v, r)) return false;
    for (const [k, x] of Object.entries(v)) {
      if (s.properties && has(s.properties, k)) { if (!rec(s.properties[k], x)) return false; }
      else if (s.additionalProperties === false) return false;
      else if (s.additionalProperties && typeof s.additionalProperties === 'object' && !rec(s.additionalProperties, x)) return false;
    }
  }
  return true;
}

// ---- deterministic randomness for the values of one case -----------------------------------------------------
function prng(seed) {
  let a = (seed | 0) ^ 0x9e3779b9;
  const next = () => { a = (a + 0x6d2b79f5) | 0; let x = Math.imul(a ^ (a >>> 15), 1 | a); x = (x + Math.imul(x ^ (x >>> 7), 61 | x)) ^ x; return ((x ^ (x >>> 14)) >>> 0) / 4294967296; };
  const r = { next, int: (n) => Math.floor(next() * n), pick: (xs) => xs[Math.floor(next() * xs.length)], chance: (p) => next() < p };
  return r;
}

// ---- codec descriptions ------------------------------------------------------------------------------------
// Exact leaves: the document can and should say exactly what the codec accepts.
// Wide leaves: the accepted strings or numbers are documented by their JSON type (and bounds).
const strs = ['', ' ', 'a', 'b', 'abc', 'é', '日本語', '😀', '0', '1', '-1', '1.5', 'true', 'false', 'null', '2020-01-01T00:00:00.000Z', '7', 'on', 'off', 'red', 'blue ish', '2c9a1f3e-7d1b-4e8a-9f4e-6a2b1c3d4e5f'];
const nums = [0, 1, -1, 7, 42, 1.5, -2.5, 1e10, 1577836800000, -7, 2];
const LEAF = {
  string: { m: 't', n: 'string', exact: true, v: (r) => r.pick(strs) },
  number: { m: 't', n: 'number', exact: true, v: (r) => r.pick(nums) },
  boolean: { m: 't', n: 'boolean', exact: true, v: (r) => r.chance(0.5) },
  null: { m: 't', n: 'null', exact: true, v: () => null },
  nullType: { m: 't', n: 'nullType', exact: true, v: () => null },
  UnknownRecord: { m: 't', n: 'UnknownRecord', exact: true, v: (r) => r.pick([{}, { a: 1 }, { b: null, c: [1] }]) },
  NonEmptyString: { m: 'tt', n: 'NonEmptyString', exact: true, v: (r) => r.pick(strs.filter(Boolean)) },
  NumberFromString: { m: 'tt', n: 'NumberFromString', js: 'string', v: (r) => String(r.pick(nums)) },
  IntFromString: { m: 'tt', n: 'IntFromString', js: 'string', v: (r) => String(Math.trunc(r.pick(nums))) },
  BigIntFromString: { m: 'tt', n: 'BigIntFromString', js: 'string', v: (r) => String(Math.trunc(r.pick(nums))) },
  DateFromISOString: { m: 'tt', n: 'DateFromISOString', js: 'string', v: (r) => r.pick(['2020-01-01T00:00:00.000Z', '1999-12-31T23:59:59.999Z']) },
  UUID: { m: 'tt', n: 'UUID', js: 'string', v: (r) => r.pick(['2c9a1f3e-7d1b-4e8a-9f4e-6a2b1c3d4e5f', 'f47ac10b-58cc-4372-a567-0e02b2c3d479']) },
  DateFromNumber: { m: 'tt', n: 'DateFromNumber', js: 'number', v: (r) => r.pick([0, 1577836800000]) },
  DateFromUnixTime: { m: 'tt', n: 'DateFromUnixTime', js: 'number', v: (r) => r.pick([0, 1577836800]) },
  BooleanFromNumber: { m: 'tt', n: 'BooleanFromNumber', exact: true, v: (r) => r.pick([0, 1]), wide: true },
  JsonFromString: { m: 'tt', n: 'JsonFromString', js: 'string', v: (r) => r.pick(['{}', '1', '[1]', '"a"', 'null']) },
  Int: { m: 't', n: 'Int', js: 'number', unsupported: true, v: (r) => Math.trunc(r.pick(nums)) },
};
const lib = (k) => ({ k });
const EXACT = ['string', 'number', 'boolean', 'null', 'nullType', 'NonEmptyString', 'UnknownRecord'];
const WIDE = ['NumberFromString', 'IntFromString', 'BigIntFromString', 'DateFromISOString', 'UUID', 'DateFromNumber', 'DateFromUnixTime'];
const LITS = ['a', 'b', 'on', 'off', 'blue ish', 'é', '', 1, 0, 7, 1.5, true, false];
const KEYS = ['red', 'green', 'blue ish', 'x-y', 'on', 'off', 'é', '0', '10'];

const PROPS = ['a', 'b', 'c', 'id', 'name', 'fooBar', 'foo_bar', 'x-trace', 'a b', 'type', 'items', 'properties', 'required', 'enum', '$ref', 'nullable', 'description', 'title', 'é', '0', '10', 'body', 'query', 'schemas', 'comment', 'default', 'example', 'in'];

// an object description without fields: the generator drops it from an intersection with anything else
const isEmptyObj = (c) => (c.props && c.props.length === 0) || ((c.k === 'exact' || c.k === 'brand') && isEmptyObj(c.of)) || (c.k === 'inter' && c.of.some(isEmptyObj));

// depth-limited descriptions; refs: names that may be referenced
function codecArb(fc, { depth = 3, leaves = [...EXACT, ...WIDE], refs = [], names = PROPS, anyOk = false, unionUndef = true } = {}) {
  const propsOf = (d, max = 3) => fc.uniqueArray(fc.tuple(fc.constantFrom(...names), d), { selector: (x) => x[0], maxLength: max });
  return fc.letrec((tie) => {
    const d = tie('d');
    const leaf = fc.oneof({ weight: 3, arbitrary: fc.constantFrom(...leaves).map(lib) }, { weight: 2, arbitrary: fc.constantFrom(...LITS).map((v) => ({ k: 'lit', v })) }, ...(refs.length ? [{ weight: 1, arbitrary: fc.constantFrom(...refs).map((n) => ({ k: 'ref', n })) }] : []));
    const opt = fc.oneof({ weight: 3, arbitrary: d }, { weight: 1, arbitrary: d.map((of) => ({ k: 'optional', of })) }, ...(unionUndef ? [{ weight: 1, arbitrary: fc.array(d, { minLength: 1, maxLength: 3 }).map((of) => ({ k: 'union', of: [...of, { k: 'undefined' }] })) }] : []));
    return {
      d: fc.oneof(
        { maxDepth: depth, withCrossShrink: true, depthSize: 'small' },
        fc.oneof(
          { weight: 8, arbitrary: fc.constantFrom(...leaves).map(lib) },
          { weight: 2, arbitrary: fc.constantFrom(...LITS).map((v) => ({ k: 'lit', v })) },
          { weight: 1, arbitrary: fc.uniqueArray(fc.constantFrom(...KEYS), { minLength: 1, maxLength: 4 }).map((keys) => ({ k: 'keyof', keys })) },
          ...(anyOk ? [{ weight: 1, arbitrary: fc.constantFrom('unknown', 'any').map(lib) }] : []),
          ...(refs.length ? [{ weight: 6, arbitrary: fc.constantFrom(...refs).map((n) => ({ k: 'ref', n })) }] : []),
        ),
        d.map((of) => ({ k: 'array', of })),
        fc.constantFrom('readonlyArray', 'nonEmptyArray', 'readonlyNonEmptyArray').chain((k) => d.map((of) => ({ k, of }))),
        propsOf(opt, 4).map((props) => ({ k: 'type', props })),
        propsOf(opt).map((props) => ({ k: 'partial', props })),
        propsOf(opt).map((props) => ({ k: 'strict', props })),
        propsOf(opt).map((props) => ({ k: 'optionalized', props })),
        propsOf(opt).map((props) => ({ k: 'exact', of: { k: 'type', props } })),
        fc.array(d, { minLength: 2, maxLength: 4 }).map((of) => ({ k: 'union', of })),
        fc.array(fc.oneof(propsOf(opt).map((props) => ({ k: 'type', props })), propsOf(opt).map((props) => ({ k: 'partial', props })), propsOf(opt).map((props) => ({ k: 'optionalized', props })), d), { minLength: 2, maxLength: 3 }).map((of) => ({ k: 'inter', of: of.map((x) => (isEmptyObj(x) ? { k: 'partial', props: [['id', { k: 'string' }]] } : x)) })),
        fc.tuple(fc.oneof(fc.constant({ k: 'string' }), fc.uniqueArray(fc.constantFrom(...KEYS), { minLength: 1, maxLength: 3 }).map((keys) => ({ k: 'keyof', keys })), fc.uniqueArray(fc.constantFrom('a', 'b', 'on'), { minLength: 2, maxLength: 3 }).map((ls) => ({ k: 'union', of: ls.map((v) => ({ k: 'lit', v })) }))), opt).map(([dom, of]) => ({ k: 'record', dom, of })),
        d.map((of) => ({ k: 'brand', of })),
        // many members
        fc.oneof(
          fc.uniqueArray(fc.tuple(fc.constantFrom(...names), leaf), { selector: (x) => x[0], minLength: 5, maxLength: 9 }).chain((props) => fc.constantFrom('type', 'partial', 'optionalized').map((k) => ({ k, props }))),
          fc.array(leaf, { minLength: 5, maxLength: 8 }).map((of) => ({ k: 'union', of })),
          fc.uniqueArray(fc.constantFrom(...LITS), { minLength: 5, maxLength: 9 }).map((vs) => ({ k: 'union', of: vs.map((v) => ({ k: 'lit', v })) })),
          fc.uniqueArray(fc.constantFrom(...KEYS), { minLength: 5, maxLength: 9 }).map((keys) => ({ k: 'keyof', keys })),
          fc.array(fc.tuple(fc.constantFrom(...names), leaf).map(([n, c]) => ({ k: 'type', props: [[n, c]] })), { minLength: 4, maxLength: 6 }).map((of) => ({ k: 'inter', of })),
        ),
      ),
    };
  }).d;
}

// every sub-description, with the declarations looked through
function walk(c, decls, f, seen = new Set()) {
  f(c);
  if (c.of) for (const x of Array.isArray(c.of) ? c.of : [c.of]) walk(x, decls, f, seen);
  if (c.dom) walk(c.dom, decls, f, seen);
  if (c.props) for (const [, x] of c.props) walk(x, decls, f, seen);
  if (c.k === 'ref' && decls && !seen.has(c.n)) { seen.add(c.n); const d = decls.find((x) => x.n === c.n); if (d) walk(d.c, decls, f, seen); }
}
const deref = (c, decls) => { while (c.k === 'ref' || c.k === 'brand' || c.k === 'exact') c = c.k === 'ref' ? decls.find((d) => d.n === c.n).c : c.of; return c; };
const acceptsUndefined = (c, decls) => {
  c = deref(c, decls);
  return c.k === 'undefined' || c.k === 'void' || c.k === 'unknown' || c.k === 'any' || c.k === 'optional' || (c.k === 'union' && c.of.some((x) => acceptsUndefined(x, decls))) || (c.k === 'inter' && c.of.every((x) => acceptsUndefined(x, decls)));
};

// a wire value the codec is likely to accept (undefined: nothing to send)
function value(c, decls, r, depth = 0) {
  if (LEAF[c.k]) return LEAF[c.k].v(r);
  switch (c.k) {
    case 'undefined': case 'void': return undefined;
    case 'unknown': case 'any': return r.pick([null, 1, 'a', {}, []]);
    case 'lit': return c.v;
    case 'keyof': return r.pick(c.keys);
    case 'array': case 'readonlyArray': return Array.from({ length: r.int(3) }, () => value(c.of, decls, r, depth + 1)).filter((x) => x !== undefined);
    case 'nonEmptyArray': case 'readonlyNonEmptyArray': return Array.from({ length: 1 + r.int(2) }, () => value(c.of, decls, r, depth + 1)).filter((x) => x !== undefined);
    case 'type': case 'strict': case 'partial': case 'optionalized': {
      const o = {};
      for (const [n, x] of c.props) {
        if ((c.k === 'partial' || acceptsUndefined(x, decls)) && r.chance(0.4)) continue;
        const v = value(x, decls, r, depth + 1);
        if (v !== undefined) o[n] = v;
      }
      return o;
    }
    case 'exact': case 'brand': return value(c.of, decls, r, depth);
    case 'optional': return value(c.of, decls, r, depth);
    case 'union': { const os = c.of.filter((x) => x.k !== 'undefined'); return os.length ? value(r.pick(os), decls, r, depth) : undefined; }
    case 'inter': {
      const vs = c.of.map((x) => value(x, decls, r, depth));
      if (vs.every((v) => v !== null && typeof v === 'object' && !Array.isArray(v))) return Object.assign({}, ...vs);
      return vs[0];
    }
    case 'record': {
      const o = {};
      const dom = deref(c.dom, decls);
      const keys = dom.k === 'keyof' ? dom.keys : dom.k === 'union' ? dom.of.map((x) => x.v) : ['k1', 'k2', 'a'].filter(() => r.chance(0.5));
      for (const k of keys) { const v = value(c.of, decls, r, depth + 1); if (v !== undefined) o[k] = v; }
      return o;
    }
    case 'ref': return value(decls.find((d) => d.n === c.n).c, decls, r, depth + 1);
    case 'libc': return c.val ? r.pick(c.val) : r.pick([...nums, ...strs]);
  }
  throw new Error('value: ' + c.k);
}
const junk = (r) => r.pick([null, true, false, 0, 1, -1, 7, 1.5, '', 'a', 'on', 'red', '0', '1', {}, [], [1], ['a'], [null], { a: 1 }, { a: 'a' }, { id: null }, 1e10]);
function mutate(v, r) {
  if (v !== null && typeof v === 'object' && r.chance(0.75)) {
    if (Array.isArray(v)) {
      const a = v.slice();
      switch (r.int(3)) {
        case 0: a.push(junk(r)); return a;
        case 1: a.splice(r.int(a.length + 1), 1); return a;
        default: if (a.length) { const i = r.int(a.length); a[i] = mutate(a[i], r); } return a;
      }
    }
    const o = { ...v };
    const ks = Object.keys(o);
    switch (r.int(4)) {
      case 0: if (ks.length) delete o[r.pick(ks)]; return o;
      case 1: o[r.pick(['zz', 'a', 'b', 'id', 'name', 'x-trace'])] = junk(r); return o;
      default: if (ks.length) { const k = r.pick(ks); o[k] = mutate(o[k], r); } return o;
    }
  }
  return junk(r);
}
function values(c, decls, seed, n = 12) {
  const r = prng(seed);
  const out = [];
  for (let i = 0; i < n; i++) {
    let v = value(c, decls, r);
    if (v === undefined) v = junk(r);
    const m = i % 4;
    if (m === 1) v = mutate(v, r);
    else if (m === 2) v = mutate(mutate(v, r), r);
    else if (m === 3 && r.chance(0.3)) v = junk(r);
    out.push(JSON.parse(JSON.stringify(v)));
  }
  return out;
}

// ---- statements that are about something else --------------------------------------------------------------
// N: a number of its own, S: the name of a shared codec (or of nothing)
const STATEMENTS = [
  'const unused_N = 1;', 'let later_N: unknown;', 'export let laterToo_N: number;', 'var v_N = function () { return 1; }, w_N;',
  'declare const declared_N: string;', 'declare function declaredFn_N(a: string): void;', 'declare class DeclaredClass_N { a: string; }', 'declare enum DeclaredEnum_N { A }', "declare module 'nothing-N' { export const S: string; }", 'declare global { interface Global_N { a: 1 } }',
  'export const { p_N, ...rest_N } = { p_N: 1, q: 2 } as any;', 'const [a_N, , b_N = 2] = [1, 2, 3];', 'const { deep: { S: c_N } } = { deep: { S: 1 } };',
  'class C_N { static S = 1; private x = 2; get v() { return this.x; } }', 'export class D_N<T> { constructor(public x: T) {} S() { return this.x; } }', 'export abstract class E_N { abstract S(): void; }', 'const K_N = class { };',
  'function f_N<T>(a: T, b = 1): T { return a; }', 'function o_N(a: string): void;\nfunction o_N(a: any) {}', 'export async function g_N() { await null; }', 'export function* h_N() { yield 1; }', 'const arrow_N = <T,>(x: T): T => x;', 'const late_N = async ({ S }: { S: number }) => { const unused = S; return unused; };',
  'function shadow_N(S: number) { return S; }', 'function inner_N() { const S = 1; return S; }', '{ const S = 2; void S; }', '(() => { const S = 3; return S; })();',
  'interface I_N { S: string }', 'export interface J_N extends Object { S?: string }', 'type T_N = { [K in string]: K };', 'export type U_N<T> = T extends string ? 1 : 2;', 'export type { V_N };\ntype V_N = string;', 'namespace Space_N { export const S = 1; }', 'export namespace Other_N { export type S = 1; }',
  'enum Enum_N { A, B = 5, C }', "export const enum Fixed_N { A = 'a' }",
  'if (1 > 2) { throw new Error(); } else { void 0; }', 'for (const i_N of [1]) { void i_N; }', 'for (let i = 0; i < 1; i++);', 'try { void 0; } catch { void 1; } finally { void 2; }', ';', 'export {};', 'label_N: for (;;) { break label_N; }', 'switch (1 as number) { case 1: break; default: }', 'do { } while (false);', 'void 0;',
  "import type { Something_N } from 'types-only';", "import { pipe as pipe_N } from 'fp-ts/function';", "import * as path_N from 'path';", "import { type Either as Either_N } from 'fp-ts/Either';", "export { flow as flow_N } from 'fp-ts/function';", "export type { Kind_N } from 'types-only';",
  'const big_N = 10n, re_N = /[/\'"`]+\\//g, hex_N = 0xff;', 'const text_N = `a ${1 + 1} /** @title no */ b`;', "const quote_N = 'it\\'s // not a comment';", 'const object_N = { get S() { return 1; }, async *b() {}, ["c" + 1]: 2, d() {}, ...{} };', 'const cast_N = <any>{};', 'const sure_N = ({} as any)!, fits_N = {} satisfies object;', 'const tagged_N = String.raw`S`;', 'export const made_N = new Map<string, number>([]);', 'const maybe_N = (undefined as any)?.S ?? 1;',
  'export type S = { a: string };', 'export interface S { a: string }', 'type S<T = unknown> = T;', 'export namespace S { export type X = 1; }',
  '// a remark about nothing', '/* const S = 1; */', '// é 日本語 😀 {@link S}', "'use strict';", '/** about a type\n * @deprecated */\ntype W_N = 1;', '/** about a value\n * @title no */\nconst x_N = 1; // S',
];
const statement = (r, serial, names) => r.pick(STATEMENTS).replace(/_N\b|\bnothing-N\b/g, (x) => x.replace('N', serial)).replace(/\bS\b/g, names.length && r.chance(0.7) ? r.pick(names).replace(/\W/g, '_') : 'Nobody_' + serial);

// ---- rendering ---------------------------------------------------------------------------------------------
const PKG = { t: 'io-ts', h: '@api-ts/io-ts-http', tt: 'io-ts-types', nb: 'io-ts-numbers', bi: 'io-ts-bigint', cx: '@fancy/codecs', cy: '@fancy/more.codecs', cz: '@own/codecs' };
const RESERVED = new Set(['null', 'undefined', 'void', 'string', 'number', 'boolean', 'type', 'any', 'unknown', 'object', 'bigint']);
const hasRef = (c) => { let y = false; walk(c, undefined, (x) => { if (x.k === 'ref' || x.k === 'raw') y = true; }); return y; };
const ident = /^[A-Za-z_$][A-Za-z0-9_$]*$/;
const keyText = (k, quote) => (!quote && ident.test(k) ? k : JSON.stringify(k));

// style: { imports: {t:'star'|'named'|'alias', ...}, quote: bool, paren: bool, asConst: bool, multi: bool }
class Printer {
  constructor(style = {}) {
    this.style = style;
    this.stars = new Map(); // pkg key -> local
    this.named = new Map(); // pkg key -> Map(name -> local)
    this.external = new Map(); // ref name -> expression
    this.prelude = []; // statements the text printed so far needs before it
    this.parts = undefined; // { P, body, use(name) }: another file that can declare parts
    this.n = 0;
  }
  // a top-level statement for text(printer, name), here or in the parts file; what to call it here
  hoist(kind, text, { stay = false } = {}) {
    const r = this.style.forms;
    const name = `${kind}_${(this.style.serial = (this.style.serial || 0) + 1)}`;
    if (this.parts && !stay && r.chance(0.5)) {
      const moved = text(this.parts.P, name);
      this.parts.body.push(moved.replace(/^(const|enum) /, 'export $1 '));
      this.parts.use(name);
      return name;
    }
    const line = text(this, name);
    this.prelude.push(line);
    return name;
  }
  lib(m, n) {
    const how = (this.style.imports && this.style.imports[m]) || (m === 't' || m === 'h' ? 'star' : 'named');
    if (how === 'star') { this.stars.set(m, m === 't' ? 't' : m); return `${m}.${n}`; }
    if (!this.named.has(m)) this.named.set(m, new Map());
    const names = this.named.get(m);
    if (!names.has(n)) names.set(n, how === 'alias' || RESERVED.has(n) ? `${n}_${m}` : n);
    return names.get(n);
  }
  importLines() {
    const out = [];
    for (const [m, local] of this.stars) out.push(`import * as ${local} from '${PKG[m]}';`);
    for (const [m, names] of this.named) out.push(`import { ${[...names].map(([n, l]) => (n === l ? n : `${n} as ${l}`)).join(', ')} } from '${PKG[m]}';`);
    return out;
  }
  doc(lines, ind) {
    if (!lines) return '';
    return ind + '/**\n' + lines.map((l) => `${ind} * ${l}\n`).join('') + `${ind} */\n`;
  }
  props(ps, ind) {
    if (ps.length === 0) return '{}';
    const i2 = ind + '  ';
    const r = this.style.forms;
    const stay = ps.some((p) => typeof p[1] !== 'string' && hasRef(p[1])) || ps.some((p) => typeof p[1] === 'string' && p[1] !== 'null');
    const one = ([n, c, doc], P, i = i2) => {
      let key = keyText(n, this.style.quote);
      if (r && !doc && r.chance(0.1)) key = r.chance(0.5) ? `[${JSON.stringify(n)}]` : `[${P.hoist('key', (_, k) => `const ${k} = ${JSON.stringify(n)};`, { stay: P !== this })}]`;
      return `${this.doc(doc, i)}${i}${key}: ${typeof c === 'string' ? c : P.codec(c, i)},\n`;
    };
    if (r && r.chance(0.12)) return this.hoist('props', (P, k) => `const ${k} = {\n${ps.map((p) => one(p, P, '  ')).join('')}};`, { stay }) + (this.style.asConst ? ' as any' : '');
    if (r && r.chance(0.12)) {
      const cut = r.int(ps.length + 1);
      // the same key twice: what comes later counts
      const past = (q, P, i) => (r.chance(0.3) && q ? one([q[0], typeof q[1] === 'string' ? q[1] : P.lib('t', r.pick(['boolean', 'unknown']))], P, i) : '');
      const k = this.hoist('some', (P, k) => `const ${k} = {\n${past(ps[cut], P, '  ')}${ps.slice(0, cut).map((p) => one(p, P, '  ')).join('')}${past(ps[ps.length - 1 > cut ? ps.length - 1 : -1], P, '  ')}};`, { stay });
      return '{\n' + past(ps[0 < cut ? 0 : -1], this, i2) + `${i2}...${k},\n` + ps.slice(cut).map((p) => one(p, this)).join('') + ind + '}';
    }
    return '{\n' + ps.map((p) => one(p, this)).join('') + ind + '}' + (this.style.asConst ? ' as const' : '');
  }
  // text for between two marks, some of it as escape sequences
  escaped(s, mark) {
    const r = this.style.forms;
    return [...s].map((c) => {
      if (c === '\\' || c === mark || (mark === '`' && c === '$')) return '\\' + c;
      const n = c.codePointAt(0);
      if (n < 32 || n === 0x2028 || n === 0x2029 || r.chance(0.15)) return n < 256 && r.chance(0.5) ? '\\x' + n.toString(16).padStart(2, '0') : `\\u{${n.toString(16)}}`;
      return c;
    }).join('');
  }
  // a literal value, possibly by name
  literal(v) {
    const r = this.style.forms;
    const text = JSON.stringify(v);
    if (!r || r.chance(0.6)) return text;
    const kinds = ['const', 'asConst', 'member', 'keys'];
    if (typeof v === 'string') kinds.push('enum', 'template', 'concat', 'quote', 'inner');
    if (typeof v === 'number') kinds.push('enum');
    switch (r.pick(kinds)) {
      case 'const': return this.hoist('LIT', (_, k) => `const ${k} = ${text};`);
      case 'asConst': return `${text} as const`;
      case 'member': return this.hoist('LITS', (_, k) => `const ${k} = { it: ${text} };`) + '.it';
      case 'enum': return this.hoist('Enum', (_, k) => `enum ${k} { Other = 'other', It = ${text} }`) + '.It';
      case 'keys': {
        const key = r.pick(['it', 'a b', 'keys']), of = `{ other: 'it', ${r.chance(0.2) ? '/** @deprecated\n * @description no */ ' : ''}${keyText(key)}: ${r.chance(0.2) ? this.literal(v) : text} }`;
        // the object of keys may be a constant of its own
        const apart = r.chance(0.3) ? this.hoist('keysOf', (_, k) => `const ${k} = ${of};`, { stay: true }) : of;
        return this.hoist('Keys', (P, k) => `const ${k} = ${P.lib('t', 'keyof')}(${apart}${r.chance(0.3) ? ' as any' : ''});`, { stay: true }) + '.keys' + (ident.test(key) && r.chance(0.7) ? '.' + key : `[${JSON.stringify(key)}]`);
      }
      case 'template': return '`' + this.escaped(v, '`') + '`';
      case 'inner': {
        const i = r.int(v.length + 1), j = i + r.int(v.length + 1 - i);
        return '`' + this.escaped(v.slice(0, i), '`') + '${' + JSON.stringify(v.slice(i, j)) + '}' + this.escaped(v.slice(j), '`') + '`';
      }
      case 'quote': { const q = r.pick(['"', "'"]); return q + this.escaped(v, q) + q; }
      case 'concat': {
        const i = r.int(v.length + 1);
        return '`${' + this.hoist('HEAD', (_, k) => `const ${k} = ${JSON.stringify(v.slice(0, i))};`) + '}' + this.escaped(v.slice(i), '`') + '`';
      }
    }
    return text;
  }
  codec(c, ind = '') {
    const r = this.style.forms;
    const stay = r && hasRef(c);
    if (r && c.k !== 'ref' && r.chance(0.3)) {
      const apart = c.k === 'undefined' ? 'function' : 'const';
      switch (r.pick([apart, apart, 'function', 'block', 'group', 'paren', 'cast', 'bang', 'satisfies'])) {
        case 'const': return this.hoist('part', (P, k) => `const ${k} = ${P.codec0(c, '')};`, { stay });
        case 'function': return this.hoist('make', (P, k) => `const ${k} = () => ${P.codec0(c, '')};`, { stay }) + '()';
        case 'block': return this.hoist('build', (P, k) => `const ${k} = () => {\n  return ${P.codec0(c, '  ')};\n};`, { stay }) + '()';
        case 'group': { const name = r.pick(['it', 'codec', 'Thing']); return this.hoist('group', (P, k) => `const ${k} = { ${name}: ${P.codec0(c, '')} };`, { stay }) + '.' + name; }
        case 'paren': return `(${this.codec0(c, ind)})`;
        case 'cast': return `(${this.codec0(c, ind)} as any)`;
        case 'bang': return `${this.codec0(c, ind)}!`;
        case 'satisfies': return `(${this.codec0(c, ind)} satisfies unknown)`;
      }
    }
    const s = this.codec0(c, ind);
    return this.style.paren ? `(${s})` : s;
  }
  // the members of a union or intersection
  members(cs, ind) {
    const r = this.style.forms;
    const all = (xs, P) => xs.map((x) => P.codec(x, ind)).join(', ');
    if (r && r.chance(0.15)) return this.hoist('members', (P, k) => `const ${k} = [${all(cs, P)}] as const;`, { stay: cs.some(hasRef) }) + ' as any';
    if (r && r.chance(0.15)) {
      const cut = r.int(cs.length + 1);
      const k = this.hoist('more', (P, k) => `const ${k} = [${all(cs.slice(0, cut), P)}] as const;`, { stay: cs.some(hasRef) });
      return `[...${k}, ${all(cs.slice(cut), this)}]`;
    }
    return `[${all(cs, this)}]`;
  }
  codec0(c, ind) {
    const L = LEAF[c.k];
    if (L) return this.lib(L.m, L.n);
    switch (c.k) {
      case 'undefined': case 'void': case 'unknown': case 'any': case 'bigint': case 'object': return this.lib('t', c.k);
      case 'libc': return this.lib(c.m, c.n);
      case 'libf': return `${this.lib(c.m, c.n)}(${c.of.map((x) => this.codec(x, ind)).join(', ')})`;
      case 'lit': return `${this.lib('t', 'literal')}(${this.literal(c.v)})`;
      case 'keyof': return `${this.lib('t', 'keyof')}(${this.props(c.keys.map((k) => (Array.isArray(k) ? [k[0], 'null', k[1]] : [k, 'null'])), ind)})`;
      case 'array': case 'readonlyArray': return `${this.lib('t', c.k)}(${this.codec(c.of, ind)})`;
      case 'nonEmptyArray': case 'readonlyNonEmptyArray': return `${this.lib('tt', c.k)}(${this.codec(c.of, ind)})`;
      case 'type': case 'partial': case 'strict': return `${this.lib('t', c.k)}(${this.props(c.props, ind)})`;
      case 'optionalized': return `${this.lib('h', c.k)}(${this.props(c.props, ind)})`;
      case 'exact': return `${this.lib('t', 'exact')}(${this.codec(c.of, ind)})`;
      case 'optional': return `${this.lib('h', 'optional')}(${this.codec(c.of, ind)})`;
      case 'union': return `${this.lib('t', 'union')}(${this.members(c.of, ind)})`;
      case 'inter': return `${this.lib('t', 'intersection')}(${this.members(c.of, ind)})`;
      case 'record': return `${this.lib('t', 'record')}(${this.codec(c.dom, ind)}, ${this.codec(c.of, ind)})`;
      case 'brand': return `${this.lib('t', 'brand')}(${this.codec(c.of, ind)}, (x: any): x is any => true, 'Branded')`;
      case 'ref': return this.external.has(c.n) ? this.external.get(c.n) : c.n;
      case 'raw': return c.src;
    }
    throw new Error('render: ' + c.k);
  }
}

// ---- whole projects -------------------------------------------------------------------------------------------
// model: {
//   decls: [{ n, c, doc? }]            declared codecs; each may refer to the ones before it
//   routes: [{ path, method, params, query, headers, body, res, doc?, action, key }]
//       params/query/headers: [[name, codec, doc?]]; body: undefined | { props } | { c }; res: [[code, codec]]
// }
// style: how it is written down, nothing of which may matter:
//   imports, quote, paren, asConst    see Printer
//   split      declarations per file (0: everything in index.ts)
//   cross      named | alias | star | star-reexport | cycle-reexport | named-reexport | alias-reexport | default
//   exports    inline | list | alias (only together with the imports that can name them)
//   routeAt    inline | const | file
//   reqAt      inline | const      propsAt  inline | const | shorthand | spread
//   pathAt     inline | const | template | asConst
//   resAt      inline | const
//   specAt     inline | const | spread | spread-call | spread-spec | group | group-file | spread-file
//   junk       extra comments and statements around
//   twins      unused names that resemble those in use
const STYLE0 = { imports: {}, quote: false, paren: false, asConst: false, split: 0, cross: 'named', routeAt: 'inline', reqAt: 'inline', propsAt: 'inline', pathAt: 'inline', resAt: 'inline', specAt: 'inline', junk: false };

class FileOut {
  constructor(name, style) { this.name = name; this.P = new Printer(style); this.imports = new Map(); this.extra = []; this.body = []; this.n = 0; }
  importName(from, what, local) { const k = 'n ' + from; if (!this.imports.has(k)) this.imports.set(k, new Map()); this.imports.get(k).set(what, local); }
  importStar(from, local) { this.imports.set('s ' + from, local); }
  text() {
    const out = this.P.importLines();
    for (const [k, v] of this.imports) {
      const from = k.slice(2);
      if (k[0] === 's') out.push(`import * as ${v} from '${from}';`);
      else {
        const def = v.get('default');
        const named = [...v].filter(([n]) => n !== 'default').map(([n, l]) => (n === l ? n : `${n} as ${l}`));
        out.push(`import ${[def, named.length ? `{ ${named.join(', ')} }` : undefined].filter(Boolean).join(', ')} from '${from}';`);
      }
    }
    return [...out, ...this.extra, '', ...this.body, ''].join('\n');
  }
}

function renderProject(model, style0 = {}) {
  const st = { ...STYLE0, ...style0 };
  if (typeof st.forms === 'number') st.forms = prng(st.forms);
  // routes in their own file need the codecs in theirs
  const apart = /-file$/.test(st.specAt); // the groups are in a file of their own
  if ((st.routeAt === 'file' || apart) && !st.split) st.split = 99;
  const files = new Map();
  const file = (n) => { if (!files.has(n)) files.set(n, new FileOut(n, st)); return files.get(n); };
  const index = file('index.ts');
  const where = new Map(); // decl -> file name
  const split = st.split > 0 ? st.split : 0;
  model.decls.forEach((d, i) => where.set(d.n, d.at ? d.at : split ? `codecs${Math.floor(i / split)}.ts` : 'index.ts'));
  const rel = (from, to) => { let r = path.posix.relative(path.posix.dirname(from), to.replace(/\.ts$/, '')); if (!r.startsWith('.')) r = './' + r; return r; };
  // how `f` names declaration n
  const nameIn = (f, n) => {
    const at = where.get(n);
    if (at === f.name) return n;
    const from = rel(f.name, at);
    const local = `${n}`;
    switch (st.cross) {
      case 'alias': f.importName(from, n, `${n}Imported`); return `${n}Imported`;
      case 'star': { const l = 'from_' + at.replace(/\W/g, '_'); f.importStar(from, l); return `${l}.${n}`; }
      case 'default': f.importName(from + '_' + n, 'default', local); return local;
      case 'star-reexport': case 'cycle-reexport': case 'named-reexport': f.importName(rel(f.name, 'barrel.ts'), n, local); return local;
      case 'alias-reexport': f.importName(rel(f.name, 'barrel.ts'), `${n}Public`, local); return local;
      default: f.importName(from, n, local); return local;
    }
  };
  const codec = (f, c, ind = '') => {
    walk(c, undefined, (x) => { if (x.k === 'ref') f.P.external.set(x.n, nameIn(f, x.n)); });
    withParts(f);
    const text = f.P.codec(c, ind);
    f.body.push(...f.P.prelude.splice(0));
    return text;
  };
  const withParts = (f) => {
    if (!st.forms || f.P.parts || f.name === 'parts.ts') return;
    const parts = file('parts.ts');
    f.P.parts = { P: parts.P, get body() { parts.body.push(...parts.P.prelude.splice(0)); return parts.body; }, use: (n) => f.importName(rel(f.name, 'parts.ts'), n, n) };
  };
  const props = (f, ps, ind) => flush(f, f.P.props(ps.map(([n, c, doc]) => [n, typeof c === 'string' ? c : codec(f, c, ind + '  '), doc]), ind));
  const flush = (f, text) => { f.body.push(...f.P.prelude.splice(0)); return text; };
  const any = typeof st.junk === 'number' ? prng(st.junk) : undefined;
  let serial = 0;
  const junkLines = (f) => {
    if (!any) { if (st.junk) f.body.push('// a remark about nothing', `const unused_${f.n++} = 1;`); return; }
    for (let i = any.int(3); i > 0; i--) f.body.push(statement(any, serial++, model.decls.map((d) => d.n)));
  };

  // declarations
  for (const d of model.decls) {
    const f = file(where.get(d.n));
    junkLines(f);
    const other = where.get(d.n) !== 'index.ts';
    const exported = other || d.exported;
    const text = codec(f, d.c);
    if (exported && st.exports === 'list') { f.body.push(`${f.P.doc(d.doc, '')}const ${d.n} = ${text};`, `export { ${d.n} };`); }
    else f.body.push(`${f.P.doc(d.doc, '')}${exported ? 'export ' : ''}const ${d.n} = ${text};`);
  }
  if (/reexport/.test(st.cross)) {
    const b = file('barrel.ts');
    for (const n of new Set([...where.values()].filter((x) => x !== 'index.ts'))) {
      const ds = model.decls.filter((d) => where.get(d.n) === n).map((d) => d.n);
      if (st.cross === 'star-reexport' || st.cross === 'cycle-reexport') b.extra.push(`export * from '${rel('barrel.ts', n)}';`);
      else if (st.cross === 'named-reexport') b.extra.push(`export { ${ds.join(', ')} } from '${rel('barrel.ts', n)}';`);
      else b.extra.push(`export { ${ds.map((x) => `${x} as ${x}Public`).join(', ')} } from '${rel('barrel.ts', n)}';`);
      if (st.cross === 'cycle-reexport') file(n).body.push(`export * from '${rel(n, 'barrel.ts')}';`);
    }
  }
  if (st.cross === 'default')
    for (const [n, at] of where) if (at !== 'index.ts') file(at.replace(/\.ts$/, '') + '_' + n + '.ts').extra.push(`import { ${n} } from '${rel(at, at)}';`, `export default ${n};`);

  // routes
  const groups = new Map();
  model.routes.forEach((r, i) => {
    const f = st.routeAt === 'file' || apart ? file('routes.ts') : index;
    const ind = st.routeAt === 'inline' ? '    ' : '';
    const i1 = ind + '  ';
    const i2 = i1 + '  ';
    const hoist = (name, text) => { f.body.push(`const ${name} = ${text};`); return name; };
    const part = (key, ps, base) => {
      if (st.propsAt === 'inline' || ps === undefined) return ps && `${key}: ${props(f, ps, base)},`;
      const plain = props(f, ps, '');
      if (st.propsAt === 'const') return `${key}: ${hoist(`${key}_${i}`, plain)},`;
      if (st.propsAt === 'spread') return `${key}: { ...${hoist(`${key}_${i}`, plain)} },`;
      return undefined;
    };
    const parts = [];
    const inReq = i2;
    const body = r.body;
    if (r.params && r.params.length) parts.push(part('params', r.params, inReq));
    if (r.query && r.query.length) parts.push(part('query', r.query, inReq));
    if (r.headers && r.headers.length) parts.push(part('headers', r.headers, inReq));
    if (body && body.props) parts.push(part('body', body.props, inReq));
    let req = parts.length ? `${f.P.lib('h', 'httpRequest')}({\n${parts.map((x) => inReq + x).join('\n')}\n${i1}})` : `${f.P.lib('h', 'httpRequest')}({})`;
    if (body && body.c) {
      const bodyPart = `${f.P.lib('t', 'type')}({ body: ${codec(f, body.c, i2)} })`;
      req = body.how === 'inter' || parts.length ? `${f.P.lib('t', 'intersection')}([\n${i2}${req},\n${i2}${bodyPart},\n${i1}])` : bodyPart;
    }
    if (st.reqAt === 'const') req = hoist(`request_${i}`, req);
    const quote = (s) => `'${s}'`;
    const text = (what, v) => {
      switch (st.pathAt) {
        case 'const': return hoist(`${what}_${i}`, quote(v));
        case 'asConst': return `${quote(v)} as const`;
        case 'template': return what === 'path' && v.length > 2 ? '`${' + hoist(`pathHead_${i}`, quote(v.slice(0, 2))) + '}' + v.slice(2) + '`' : quote(v);
        default: return quote(v);
      }
    };
    const p = text('path', r.path), m = text('method', r.method);
    let res = `{\n${r.res.map(([code, c, doc]) => `${f.P.doc(doc, i2)}${i2}${code}: ${codec(f, c, i2)},\n`).join('')}${i1}}`;
    if (st.resAt === 'const') res = hoist(`response_${i}`, res);
    const route = `${f.P.lib('h', 'httpRoute')}({\n${i1}path: ${p},\n${i1}method: ${m},\n${i1}request: ${req},\n${i1}response: ${res},\n${ind}})`;
    let expr = route;
    if (st.routeAt !== 'inline') {
      const n = `Route${i}`;
      junkLines(f);
      f.body.push(`${f.P.doc(r.doc, '')}${st.routeAt === 'file' ? 'export ' : ''}const ${n} = ${route};`);
      if (st.routeAt === 'file' && !apart) index.importName('./routes', n, n);
      expr = n;
    }
    if (!groups.has(r.action)) groups.set(r.action, []);
    groups.get(r.action).push([r.key, expr]);
  });
  const groupText = ([a, rs], ind) => `{\n${rs.map(([k, e]) => `${ind}  ${keyText(k, st.quote)}: ${e},\n`).join('')}${ind}}`;
  const h = index.P.lib('h', 'apiSpec');
  const gs = [...groups];
  if (st.specAt === 'group') gs.forEach((g, i) => index.body.push(`const actions_${i} = ${groupText(g, '')};`));
  const entry = (g, i, ind) => `${ind}${JSON.stringify(g[0])}: ${st.specAt === 'group' ? `actions_${i}` : groupText(g, ind)},\n`;
  if (apart && gs.length) {
    const rf = file('routes.ts');
    if (st.specAt === 'group-file') {
      gs.forEach((g, i) => { rf.body.push(`export const actions_${i} = ${groupText(g, '')};`); index.importName('./routes', `actions_${i}`, `actions_${i}`); });
      index.body.push(`${index.P.doc(model.doc, '')}export const api = ${h}({\n${gs.map((g, i) => `  ${JSON.stringify(g[0])}: actions_${i},\n`).join('')}});`);
    } else {
      rf.body.push(`export const allRoutes = {\n${gs.map((g, i) => entry(g, i, '  ')).join('')}};`);
      index.importName('./routes', 'allRoutes', 'allRoutes');
      index.body.push(`${index.P.doc(model.doc, '')}export const api = ${h}({\n  ...allRoutes,\n});`);
    }
  } else if (st.specAt === 'spread' && gs.length) {
    index.body.push(`const partSpec = {\n${entry(gs[0], 0, '  ')}};`);
    index.body.push(`${index.P.doc(model.doc, '')}export const api = ${h}({\n  ...partSpec,\n${gs.slice(1).map((g, i) => entry(g, i + 1, '  ')).join('')}});`);
  } else if (st.specAt === 'spread-call' && gs.length) {
    index.body.push(`${index.P.doc(model.doc, '')}export const api = ${h}({\n  ...${h}({\n${entry(gs[0], 0, '    ')}  }),\n${gs.slice(1).map((g, i) => entry(g, i + 1, '  ')).join('')}});`);
  } else if (st.specAt === 'spread-spec' && gs.length) {
    index.body.push(`const partSpec = ${h}({\n${entry(gs[0], 0, '  ')}});`);
    index.body.push(`${index.P.doc(model.doc, '')}export const api = ${h}({\n  ...partSpec,\n${gs.slice(1).map((g, i) => entry(g, i + 1, '  ')).join('')}});`);
  } else if (st.specAt === 'const') {
    index.body.push(`const theSpec = {\n${gs.map((g, i) => entry(g, i, '  ')).join('')}};`, `${index.P.doc(model.doc, '')}export const api = ${h}(theSpec);`);
  } else index.body.push(`${index.P.doc(model.doc, '')}export const api = ${h}({\n${gs.map((g, i) => entry(g, i, '  ')).join('')}});`);
  const out = Object.fromEntries([...files].map(([n, f]) => [n, f.text()]));
  return st.twins ? withTwins(out, prng(st.twins)) : out;
}
// unused declarations and imports whose names differ from those in use in case only, or begin with them
function withTwins(files, r) {
  const words = new Set(Object.values(files).join('\n').match(/[\p{L}_$][\p{L}\p{N}_$]*/gu));
  const out = {};
  let used = false;
  for (const [file, text] of Object.entries(files)) {
    const names = [...text.matchAll(/^(?:export )?const ([\p{L}_$][\p{L}\p{N}_$]*) =/gmu)].map((m) => m[1]);
    for (const [, all] of text.matchAll(/^import (.*) from '[^']*';$/gm)) for (const x of all.split(/[{},]/)) { const l = x.trim().split(/\s+/).pop(); if (l && l !== '*') names.push(l); }
    const imports = [], body = [];
    for (const n of names) {
      if (!r.chance(0.4)) continue;
      const twin = r.pick([n.toLowerCase(), n.toUpperCase(), n[0].toLowerCase() + n.slice(1), n[0].toUpperCase() + n.slice(1), n + 'x', n + '0', n + '_', n.slice(0, -1)]);
      if (!ident.test(twin) || words.has(twin) || RESERVED.has(twin) || KEYWORDS.has(twin)) continue;
      words.add(twin);
      const how = r.pick(['named', 'star', 'default', 'const', 'object', 'export']);
      const from = path.posix.relative(path.posix.dirname(file), 'twins');
      const spec = from.startsWith('.') ? from : './' + from;
      if (how === 'named') imports.push(`import { Twin as ${twin} } from '${spec}';`);
      else if (how === 'star') imports.push(`import * as ${twin} from '${spec}';`);
      else if (how === 'default') imports.push(`import ${twin} from '${spec}';`);
      else body.push(`${how === 'export' ? 'export ' : ''}const ${twin} = ${how === 'object' ? '{}' : r.pick(["'twin'", '[]', '{ a: 1 }'])};`);
      used = used || how.length < 8;
    }
    // names of other files, which mean something else here
    const mine = new Set(text.match(/[\p{L}_$][\p{L}\p{N}_$]*/gu));
    for (const [other, t] of Object.entries(files)) {
      if (other === file) continue;
      for (const [, n] of t.matchAll(/^(?:export )?const ([\p{L}_$][\p{L}\p{N}_$]*) =/gmu)) {
        if (mine.has(n) || !r.chance(0.4)) continue;
        mine.add(n);
        body.push(`const ${n} = ${r.pick(["'twin'", '[]', '{ a: 1 }'])};`);
      }
    }
    out[file] = [...imports, ...body, text].join('\n');
  }
  if (used) out['twins.ts'] = "import * as t from 'io-ts';\nexport const Twin = t.literal('twin');\nexport default Twin;\n";
  return out;
}
const KEYWORDS = new Set('break case catch class const continue debugger default delete do else enum export extends false finally for function if import in instanceof new return super switch this throw true try typeof var while with let static yield await async of as'.split(' '));

module.exports = { renderProject, statement, STYLE0, isEmptyObj, runCli, generate, evaluate, accepts, prng, LEAF, EXACT, WIDE, LITS, KEYS, PROPS, codecArb, walk, deref, acceptsUndefined, value, values, mutate, junk, Printer, PKG, keyText, newDir, writeFiles, numbersPkg, Exit };
