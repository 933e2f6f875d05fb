'use strict';
const G = require('../lib/gen');
const P = require('../lib/projects');
const { show } = require('../lib/ser');

const JSON_TYPE = 'application/json';

// ---- comments: { text: [lines], tags: [[tag, value]], form, noise, after } ------------------------------------
const WORDS = ['A description', 'é 日本語 😀', 'with `code` and "quotes"', 'see http://example.com/x', 'mail me@example.com', '- a point', 'a * b', '{@link Foo} is not a tag', '// not code', "it's", '100%', '1. first', '$& \\n', 'ends with a dot.', 'o\u0308 e\u0301 \u1112\u1161\u11ab \u212b', '\ufb01 \u2460 x\u00b2'];
const STRINGS = ['foo', 'foo bar', 'e\u0301', 'é日本語😀', '{a} b', 'a=b', '[x] y', 'two  spaces', "it's", 'a*b', 'x @y z', '日', '-', '0'];
const JSONS = [{ a: 1 }, { a: 'x*y', b: ['é', { c: null }] }, { text: 'see @example' }, {}, { '日本語': '😀' }];
const flag = ['', ' true'];

// what a tag means for a schema of the given kind: [property, value]
const SCHEMA_TAGS = (fc) => {
  const num = fc.constantFrom('0', '1', '3', '10', '2.5', '-4');
  const nat = fc.constantFrom('0', '1', '3', '10');
  const str = fc.constantFrom(...STRINGS);
  const one = (tag, value, prop, f) => value.map((v) => [tag, v, prop, f(v)]);
  const n = (tag, v) => one(tag, v, tag, Number);
  const s = (tag, v) => one(tag, v, tag, String);
  const b = (tag, prop, val) => fc.constant([tag, '', prop || tag, val === undefined ? true : val]);
  const common = [s('title', str), b('deprecated'), b('readOnly'), b('writeOnly'), b('private', 'x-internal', true), b('public', 'x-internal', false)];
  return {
    string: fc.oneof(...common, n('minLength', nat), n('maxLength', nat), s('pattern', fc.constantFrom('^[0-9a-f]{32}$', '{2}', '^a b$', '[a-z]+', 'a|b', '^\\d+\\s*$', '(x)', '^/[^*]$')), s('format', fc.constantFrom('uuid', 'date-time')), s('default', str), s('example', fc.constantFrom(...STRINGS.filter((x) => !/^[{[]/.test(x)))), one('default', fc.constantFrom('"quoted"'), 'default', () => 'quoted')),
    number: fc.oneof(...common, n('minimum', num), n('maximum', num), n('multipleOf', fc.constantFrom('1', '5', '0.5')), b('exclusiveMinimum'), b('exclusiveMaximum'), n('default', num), n('example', num)),
    boolean: fc.oneof(...common, one('default', fc.constantFrom('true', 'false'), 'default', (v) => v === 'true'), one('example', fc.constantFrom('true', 'false'), 'example', (v) => v === 'true')),
    array: fc.oneof(...common, n('minItems', nat), n('maxItems', nat), b('uniqueItems'), one('example', fc.constantFrom('["a", "b"]', '[]', '[["x*y"], "é"]'), 'example', JSON.parse)),
    object: fc.oneof(...common, n('minProperties', nat), n('maxProperties', nat), one('example', fc.constantFrom(...JSONS).map((x) => JSON.stringify(x)), 'example', JSON.parse), one('default', fc.constantFrom('{"a": 1}', '{}'), 'default', JSON.parse)),
    other: fc.oneof(...common),
  };
};
const ARRAY_LEVEL = ['minItems', 'maxItems', 'uniqueItems', 'example'];
const NOISE = ['// line @deprecated', '/* block @deprecated */', '/**/', '/***/', '/*** banner @deprecated ***/', '// /** not here @deprecated */', '/** earlier comment\n * @deprecated */', '// 日本語 😀 é', ''];
const AFTER = ['// remark', '/* remark @private */', '', '// é日本語'];

function commentArb(fc, tags) {
  const text = fc.array(fc.oneof({ weight: 5, arbitrary: fc.constantFrom(...WORDS) }, { weight: 1, arbitrary: fc.constant('') }, { weight: 1, arbitrary: fc.constantFrom(...WORDS).map((w) => '  ' + w) }, { weight: 1, arbitrary: fc.constantFrom('    code(x);', '    - inner') }), { maxLength: 4 });
  const used = fc.uniqueArray(tags, { selector: (x) => x[2], maxLength: 3 });
  return fc.oneof(
    { weight: 2, arbitrary: fc.record({ text, tags: used, form: fc.nat(3), noise: fc.array(fc.constantFrom(...NOISE), { maxLength: 2 }), after: fc.constantFrom(...AFTER) }) },
    { weight: 1, arbitrary: fc.record({ noise: fc.array(fc.constantFrom(...NOISE.filter((x) => !x.startsWith('/** '))), { maxLength: 2 }) }) },
    { weight: 1, arbitrary: fc.constant({}) },
  );
}
// the text, as a reader sees it
const textOf = (d) => (d && d.text ? d.text : []).join('\n').trim();
const isDoc = (d) => d && d.text !== undefined && (textOf(d) !== '' || d.tags.length > 0);
const body = (d, pretty) => {
  const text = textOf(d).split('\n');
  return [...(text[0] === '' && text.length === 1 ? [] : text), ...(d.gap ? [''] : []), ...d.tags.flatMap(([tag, v]) => {
    if (pretty && /^[{[]/.test(v) && tag === 'example') return `@${tag} ${JSON.stringify(JSON.parse(v), null, 2)}`.split('\n');
    return [`@${tag}${v === '' ? '' : ' ' + v}`];
  })];
};
// the comment as source, in front of something indented by ind
function comment(d, ind, inline) {
  if (!d) return '';
  const out = (d.noise || []).filter((x) => isDoc(d) || !x.startsWith('/** ')).map((x) => x.replace(/\n/g, '\n' + ind));
  if (isDoc(d)) {
    const lines = body(d, d.form === 2 || d.form === 3);
    if (d.form === 1 && lines.length === 1) out.push(`/** ${lines[0]} */`);
    else if (d.form === 2 && textOf(d) !== '') out.push([`/** ${lines[0]}`, ...lines.slice(1).map((l) => `${ind} * ${l}`), `${ind} */`].join('\n'));
    else if (d.form === 3 && d.text.length < 2) out.push(['/**', ...lines.map((l) => `${ind} ${l.startsWith('- ') || l.includes('*') ? '* ' : ''}${l}`), `${ind}*/`].join('\n'));
    else out.push(['/**', ...lines.map((l) => `${ind} * ${l}`), `${ind} */`].join('\n'));
    if (d.after) out.push(d.after);
  }
  if (!out.length) return '';
  return out.map((x) => ind + x + '\n').join('');
}
const meta = (d) => (isDoc(d) ? { ...(textOf(d) !== '' ? { description: textOf(d) } : {}), ...Object.fromEntries(d.tags.map(([, , prop, v]) => [prop, v])) } : {});

// ---- codecs with comments: { k, ... , props: [[name, codec, comment]] } ------------------------------------------
function typeArb(fc, refs) {
  const tags = SCHEMA_TAGS(fc);
  const kinds = { string: 'string', NonEmptyString: 'string', UUID: 'string', NumberFromString: 'string', number: 'number', DateFromNumber: 'number', boolean: 'boolean' };
  const { commented } = fc.letrec((tie) => ({
    commented: fc.oneof(
      { maxDepth: 2, depthSize: 'small' },
      fc.oneof(
        { weight: 4, arbitrary: fc.constantFrom(...Object.keys(kinds)).chain((k) => fc.tuple(fc.constant({ k }), commentArb(fc, tags[kinds[k]]))) },
        { weight: 1, arbitrary: fc.tuple(keyofArb(fc), commentArb(fc, tags.other)) },
        ...(refs.length ? [{ weight: 1, arbitrary: fc.tuple(fc.constantFrom(...refs).map((n) => ({ k: 'ref', n })), commentArb(fc, tags.other)) }] : []),
        { weight: 1, arbitrary: fc.tuple(fc.constant({ k: 'record', dom: { k: 'string' }, of: { k: 'number' } }), commentArb(fc, tags.object)) },
        { weight: 1, arbitrary: fc.tuple(fc.constant({ k: 'union', of: [{ k: 'string' }, { k: 'number' }] }), commentArb(fc, tags.other)) },
        { weight: 1, arbitrary: fc.tuple(fc.tuple(keyofArb(fc), fc.boolean()).map(([x, first]) => ({ k: 'union', of: first ? [x, { k: 'number' }] : [{ k: 'number' }, x] })), commentArb(fc, tags.other)) },
      ),
      fc.tuple(tie('type'), commentArb(fc, tags.object)),
      fc.tuple(fc.tuple(tie('type'), tie('type')).map(([x, y]) => ({ k: 'inter', of: [x, { ...y, props: y.props.map(([n, ...r]) => [n + '2', ...r]) }] })), commentArb(fc, tags.object)),
      fc.tuple(fc.tuple(tie('type'), tie('type')).map(([x, y]) => ({ k: 'union', of: [x, { ...y, props: y.props.map(([n, ...r]) => [n + '2', ...r]) }] })), commentArb(fc, tags.other)),
      fc.tuple(tie('type').map((of) => ({ k: 'array', of })), commentArb(fc, tags.array)),
      fc.tuple(fc.constantFrom('string', 'number').map((k) => ({ k: 'array', of: { k } })), commentArb(fc, tags.array)),
      tie('commented').filter(([c]) => c.k !== 'optional' && c.k !== 'ref').map(([c, d]) => [{ k: 'optional', of: c }, d]),
    ),
    type: fc.record({ k: fc.constantFrom('type', 'partial', 'strict', 'optionalized'), props: tie('props'), dangling: fc.boolean(), style: fc.nat(9) }),
    props: fc.uniqueArray(fc.tuple(fc.constantFrom('a', 'b', 'c', 'id', 'x-y', 'é', '日本', 'description', '😀'), tie('commented')).map(([n, [c, d]]) => [n, c, d]), { selector: (x) => x[0], minLength: 1, maxLength: 4 }),
  }));
  return commented;
}
function keyofArb(fc) {
  const tag = fc.record({ text: fc.constantFrom([], ['plain text']), description: fc.option(fc.constantFrom(...STRINGS, 'Waiting for approval'), { nil: undefined }), deprecated: fc.boolean(), form: fc.nat(2), noise: fc.array(fc.constantFrom(...NOISE), { maxLength: 1 }) });
  return fc.uniqueArray(fc.tuple(fc.constantFrom(...G.KEYS), fc.option(tag, { nil: undefined })), { selector: (x) => x[0], minLength: 1, maxLength: 4 }).map((keys) => ({ k: 'keyof', keys }));
}
const keyDoc = (d) => d && { ...d, tags: [...(d.description !== undefined ? [['description', d.description, 'description', d.description]] : []), ...(d.deprecated ? [['deprecated', '', 'deprecated', true]] : [])] };

// the source of a codec; doc: with comments?
function print(pr, c, doc, ind, hoist) {
  const go = (x, i = ind) => print(pr, x, doc, i, hoist);
  const i2 = ind + '  ';
  const entry = (n, value, d, style) => {
    const key = style === 1 ? JSON.stringify(n) : style === 2 ? `[${JSON.stringify(n)}]` : G.keyText(n, false);
    return `${doc ? comment(d, i2) : ''}${i2}${key}: ${value},${doc && style === 3 ? ' // the ' + n + ' /** @deprecated */' : ''}\n`;
  };
  switch (c.k) {
    case 'type': case 'partial': case 'strict': case 'optionalized': {
      const items = c.props.map(([n, x, d]) => [n, go(x, i2), d]);
      const all = (xs, st) => `{\n${xs.map(([n, v, d]) => entry(n, v, d, st)).join('')}${doc && c.dangling && c.style !== 6 ? `${i2}/** dangling @deprecated */\n` : ''}${ind}}`;
      const f = pr.lib(c.k === 'optionalized' ? 'h' : 't', c.k);
      // part of the properties from a constant, spread at the front
      if (c.style === 4) return `${f}({\n${i2}...${hoist(all(items.slice(0, 1), 0))},\n${all(items.slice(1), 0).slice(2)})`;
      if (c.style === 8 || c.style === 9) {
        const cut = c.style === 8 ? items.length : Math.ceil(items.length / 2);
        const deep = (xs) => all(xs, 0).replace(/^/gm, '  ').trimStart();
        return `${f}({\n${i2}...${deep(items.slice(0, cut))},\n${all(items.slice(cut), 0).slice(2)})`;
      }
      if (c.style === 5) return `${f}(${hoist(all(items, 0))})`;
      // the last property in shorthand, or everything on one line
      const last = items[items.length - 1];
      if (c.style === 6 && hoist.free(last[0])) { hoist(last[1], last[0]); const [n, , d] = last; return `${f}(${all(items.slice(0, -1), 0).slice(0, -1 - ind.length)}${doc ? comment(d, i2) : ''}${i2}${n},\n${ind}})`; }
      const line = `{ ${items.map(([n, v, d]) => `${doc ? comment(d && { ...d, form: 1 }, '').replace(/\n/g, ' ') : ''}${G.keyText(n, false)}: ${v}`).join(', ')} }`;
      if (c.style === 7 && !/\/\/|\n/.test(line) && !items.some(([, , d]) => isDoc(d) && body(d).length > 1)) return `${f}(${line})`;
      return `${f}(${all(items, c.style)})`;
    }
    case 'inter': case 'union': return `${pr.lib('t', c.k === 'inter' ? 'intersection' : 'union')}([${c.of.map((x) => go(x)).join(', ')}])`;
    case 'array': case 'optional': return `${pr.lib(c.k === 'array' ? 't' : 'h', c.k)}(${go(c.of)})`;
    case 'keyof': return `${pr.lib('t', 'keyof')}({\n${c.keys.map(([n, d]) => entry(n, '1', keyDoc(d), 0)).join('')}${ind}})`;
    default: return pr.codec(c, ind);
  }
}
// the documented schema, given the one of the same source without comments
function dress(c, d, bare) {
  let s = bare;
  if (c.k === 'optional') return dress(c.of, d, bare);
  const props = c.props || (c.k === 'inter' && c.of.flatMap((x) => x.props));
  if (props) s = { ...bare, properties: Object.fromEntries(Object.entries(bare.properties).map(([n, x]) => { const p = props.find((q) => q[0] === n); return [n, dress(p[1], p[2], x)]; })) };
  else if (c.k === 'union') {
    // the member that is documented so
    const member = (x) => (x.enum ? c.of.find((y) => y.k === 'keyof') : x.properties ? c.of.find((y) => y.props && y.props.some(([n]) => n in x.properties)) : undefined);
    s = { ...bare, oneOf: bare.oneOf.map((x) => { const y = member(x); return y ? dress(y, undefined, x) : x; }) };
  } else if (c.k === 'array' && c.of.props) s = { ...bare, items: dress(c.of, undefined, bare.items) };
  else if (c.k === 'keyof') {
    const ds = c.keys.map(([n, x]) => [n, keyDoc(x)]).filter(([, x]) => x);
    const texts = Object.fromEntries(ds.filter(([, x]) => x.description !== undefined).map(([n, x]) => [n, x.description]));
    const old = c.keys.map((x) => x[0]).filter((n) => ds.some(([m, x]) => m === n && x.deprecated));
    s = { ...bare, ...(Object.keys(texts).length ? { 'x-enumDescriptions': texts } : {}), ...(old.length ? { 'x-enumsDeprecated': old } : {}) };
  }
  const m = meta(d);
  if (!Object.keys(m).length) return s;
  if (c.k === 'array') {
    const own = {}, items = {};
    for (const [k, v] of Object.entries(m)) (ARRAY_LEVEL.includes(k) ? own : items)[k] = v;
    return { ...s, ...own, items: '$ref' in s.items && Object.keys(items).length ? { allOf: [s.items], ...items } : { ...s.items, ...items } };
  }
  return '$ref' in s ? { allOf: [s], ...m } : { ...s, ...m };
}

// ---- routes ------------------------------------------------------------------------------------------------------------
function routeDocArb(fc) {
  const one = (tag, value) => value.map((v) => [tag, v, tag, v]);
  const tags = fc.oneof(
    one('operationId', fc.constantFrom('v2.sample.route', 'a b', 'é')),
    one('tag', fc.constantFrom('Wallet', 'Two Words', '{x} y')),
    one('private', fc.constant('')), one('public', fc.constant('')), one('unstable', fc.constant('')),
    one('version', fc.constantFrom('3', '', 'two words', '{x} y')), one('x-custom', fc.constantFrom('é', '')), one('deprecated', fc.constantFrom('', 'soon')),
    one('example', fc.constantFrom(...JSONS, [1, 'x*y'], []).map((x) => JSON.stringify(x))), one('example', fc.constantFrom('plain text', '5', 'a*b')),
  );
  return commentArb(fc, tags).map((d) => (d.text && d.form === 3 ? { ...d, text: d.text.map((x) => x.trim()) } : d));
}
function routeMeta(d) {
  if (!isDoc(d)) return { op: {} };
  const tags = Object.fromEntries(d.tags.map(([t, v]) => [t, v]));
  const [summary, ...rest] = textOf(d).split('\n').map((x, i) => (i ? x : x.trim()));
  const description = rest.join('\n').trim();
  const unknown = Object.fromEntries(Object.entries(tags).filter(([t]) => ['version', 'x-custom', 'deprecated'].includes(t)).map(([t, v]) => [t, v === '' ? true : v]));
  return {
    example: 'example' in tags ? (/^[{[]/.test(tags.example) ? JSON.parse(tags.example) : tags.example) : undefined,
    op: {
      ...(summary ? { summary } : {}),
      ...(description ? { description } : {}),
      ...('operationId' in tags ? { operationId: tags.operationId } : {}),
      ...('tag' in tags ? { tags: [tags.tag] } : {}),
      ...('private' in tags ? { 'x-internal': true } : 'public' in tags ? { 'x-internal': false } : {}),
      ...('unstable' in tags ? { 'x-unstable': true } : {}),
      ...(Object.keys(unknown).length ? { 'x-unknown-tags': unknown } : {}),
    },
  };
}
const clash = (d) => isDoc(d) && d.tags.some((x) => x[0] === 'private') && d.tags.some((x) => x[0] === 'public');

// ---- the whole project ---------------------------------------------------------------------------------------------------
function source(model, doc) {
  const out = {};
  const file = () => { const pr = new G.Printer({ imports: { h: 'star' } }); return { pr, body: [], n: 0 }; };
  const index = file(), codecs = file();
  const at = model.split ? codecs : index;
  const hoist = (f) => {
    const names = (f.names = f.names || new Set(['t', 'h']));
    const h = (text, name) => { const n = name || `props_${f.n++}`; names.add(n); f.body.push(`const ${n} = ${text};`); return n; };
    h.free = (n) => !names.has(n) && /^[\p{L}_][\p{L}_0-9]*$/u.test(n);
    return h;
  };
  const r = G.prng(model.junk);
  let serial = 0;
  const junk = (f) => { if (doc && model.junk) for (let i = r.int(3); i > 0; i--) f.body.push(G.statement(r, serial++, model.decls.map((d) => d.n))); };
  for (const d of model.decls) {
    junk(at);
    const text = print(at.pr, d.c, doc, '', hoist(at));
    at.body.push(`${doc ? comment(d.doc, '') : ''}${model.split ? 'export ' : ''}const ${d.n} = ${text};`);
    if (doc && d.type) at.body.push('/** the type, @deprecated */', `type ${d.n} = unknown;`);
  }
  const f = index;
  model.routes.forEach((r, i) => {
    const part = (key) => (r[key].length ? `    ${key}: {\n${r[key].map(([n, c, d]) => `${doc ? comment(d, '      ') : ''}      ${G.keyText(n)}: ${print(f.pr, c, doc, '      ', hoist(f))},\n`).join('')}    },\n` : '');
    let text = `${f.pr.lib('h', 'httpRoute')}({\n  path: '/r${i}${r.params.map(([n]) => `/{${n}}`).join('')}',\n  method: 'POST',\n  request: ${f.pr.lib('h', 'httpRequest')}({\n${part('params')}${part('query')}${part('headers')}${part('body')}  }),\n  response: {\n${r.res.map(([code, c, d]) => `${doc ? comment(d, '    ') : ''}    ${code}: ${print(f.pr, c, doc, '    ', hoist(f))},\n`).join('')}  },\n})`;
    junk(f);
    f.body.push(`${doc ? comment(r.doc, '') : ''}const Route${i} = ${text};`);
  });
  f.body.push(`export const api = ${f.pr.lib('h', 'apiSpec')}({ ${model.routes.map((_, i) => `a${i}: { post: Route${i} }`).join(', ')} });`);
  const imports = model.split && model.decls.length ? [`import { ${model.decls.map((d) => d.n).join(', ')} } from './codecs';`] : [];
  const head = doc ? model.head : [];
  const render = (g, extra) => { const t = [...head, ...g.pr.importLines(), ...extra, ...g.body, ''].join('\n'); return doc && model.crlf ? t.replace(/\n/g, '\r\n') : t; };
  out['index.ts'] = render(index, imports);
  if (model.split) out['codecs.ts'] = render(codecs, []);
  return out;
}
const sites = (model) => {
  const out = [];
  const codec = (c) => { if (c.props) for (const [, x, d] of c.props) { out.push(d); codec(x); } else if (c.of) [].concat(c.of).forEach(codec); };
  for (const d of model.decls) { out.push(d.doc); codec(d.c); }
  for (const r of model.routes) { out.push(r.doc); for (const [, c, d] of [...r.params, ...r.query, ...r.headers, ...r.body, ...r.res]) { out.push(d); codec(c); } }
  return out;
};

module.exports = {
  rule: 'A case is a generated project whose routes, parameters, properties, responses, enum values and shared codecs carry generated JSDoc comments among other comments; its document has to be that of the same project without comments, with exactly the metadata of each comment added at the place it belongs to. Non-trivial: at least three commented places, or comments and text outside ASCII.',
  assumptions: [
    'Where metadata goes follows the README and the conventions pinned by the repository\'s tests: the description of a parameter is moved to the parameter, an array keeps minItems, maxItems, uniqueItems and array examples and hands the rest to its items, references are wrapped in allOf.',
    'Tags stand at the start of a line, after the text, each at most once per comment; only examples span lines.',
  ],
  props: [
    {
      name: 'jsdoc',
      runs: { quick: 2000, thorough: 25000 },
      arb: (fc) => {
        const tags = SCHEMA_TAGS(fc);
        const kindOf = (c) => ({ type: 'object', partial: 'object', strict: 'object', optionalized: 'object', record: 'object', inter: 'object', string: 'string', NonEmptyString: 'string', UUID: 'string', NumberFromString: 'string', number: 'number', DateFromNumber: 'number', boolean: 'boolean', array: 'array' }[c.k] || 'other');
        const decl = (n, refs) => fc.record({ c: typeArb(fc, refs).map(([c]) => (c.k === 'optional' ? c.of : c)).filter((c) => c.k !== 'ref'), type: fc.boolean() }).chain(({ c, type }) => commentArb(fc, tags[kindOf(c)]).map((doc) => ({ n, c, type, doc })));
        const param = (names, max, opt = true) => fc.uniqueArray(fc.tuple(fc.constantFrom(...names), fc.oneof(
          fc.constantFrom('string', 'UUID', 'NumberFromString').chain((k) => fc.tuple(fc.constant({ k }), commentArb(fc, tags.string))),
          ...(opt ? [fc.tuple(fc.constant({ k: 'optional', of: { k: 'string' } }), commentArb(fc, tags.string)), fc.tuple(fc.constant({ k: 'array', of: { k: 'string' } }), commentArb(fc, tags.array))] : []),
        )).map(([n, [c, d]]) => [n, c, d]), { selector: (x) => x[0], maxLength: max });
        const refs = ['Alpha', 'Beta'];
        const inner = typeArb(fc, refs);
        const route = fc.record({
          doc: routeDocArb(fc),
          params: param(['id', 'key'], 2, false),
          query: param(['a', 'b', 'é'], 2),
          headers: param(['x-a', 'y'], 2),
          body: fc.uniqueArray(fc.tuple(fc.constantFrom('a', 'b', '日本'), inner).map(([n, [c, d]]) => [n, c, d]), { selector: (x) => x[0], maxLength: 2 }),
          res: fc.uniqueArray(fc.tuple(fc.constantFrom(200, 400), inner).map(([n, [c, d]]) => (c.k === 'optional' ? [n, c.of, d] : [n, c, d])), { selector: (x) => x[0], minLength: 1, maxLength: 2 }),
        });
        return fc.record({
          decls: fc.tuple(decl('Alpha', []), decl('Beta', ['Alpha'])),
          routes: fc.array(route, { minLength: 1, maxLength: 2 }),
          split: fc.boolean(),
          junk: fc.oneof(fc.constant(0), fc.integer()),
          crlf: fc.nat(5).map((x) => x === 0),
          head: fc.constantFrom([], ['#!/usr/bin/env node é'], ['\ufeff// licence'], ['\ufeff'], ['// licence 日本語'], ['/**', ' * The licence é', ' * @deprecated', ' */'], ['/* 😀 */', ''], ['', '']),
        });
      },
      async check(model, t, env) {
        const docs = sites(model);
        const files = source(model, true);
        const src = () => '\n' + P.listing(files).slice(0, 6000);
        if (docs.some(clash)) {
          const used = new Set();
          const walk = (c) => { if (c.k === 'ref') used.add(c.n); if (c.props) c.props.forEach(([, x]) => walk(x)); else if (c.of) [].concat(c.of).forEach(walk); };
          for (const r of model.routes) for (const [, c] of [...r.params, ...r.query, ...r.headers, ...r.body, ...r.res]) walk(c);
          for (const d of [...model.decls].reverse()) if (used.has(d.n)) walk(d.c);
          const reached = sites({ ...model, decls: model.decls.filter((d) => used.has(d.n)) });
          const r = await G.generate(env, files);
          t.label('@public and @private');
          if (reached.some(clash)) t.assert(r.doc === undefined && r.exit !== 0, () => `both @public and @private, and no error${src()}`);
          return;
        }
        const bare = (await P.docOf(env, source(model, false), t)).doc;
        const { doc } = await P.docOf(env, files, t);
        const want = JSON.parse(JSON.stringify(bare));
        for (const d of model.decls) {
          const s = want.components.schemas[d.n];
          if (s === undefined) continue;
          const { title, ...rest } = s;
          const x = dress(d.c, d.doc, rest);
          want.components.schemas[d.n] = { title, ...x };
        }
        model.routes.forEach((r, i) => {
          const p = Object.keys(want.paths).find((q) => q.split('/')[1] === 'r' + i);
          const op = want.paths[p].post;
          const { op: top, example } = routeMeta(r.doc);
          want.paths[p].post = Object.assign(top, op);
          for (const q of op.parameters) {
            const [, c, d] = [...r.params, ...r.query, ...r.headers].find((x) => x[0] === q.name);
            const { description, 'x-internal': internal, ...m } = meta(d);
            q.schema = dress(c, d, q.schema);
            delete q.schema.description;
            if (description !== undefined) q.description = description;
            if (c.k !== 'array' && internal !== undefined) { q['x-internal'] = internal; delete q.schema['x-internal']; }
          }
          if (r.body.length) { const content = op.requestBody.content[JSON_TYPE]; content.schema = dress({ k: 'type', props: r.body }, undefined, content.schema); }
          for (const [code, c, d] of r.res) {
            const content = op.responses[code].content[JSON_TYPE];
            content.schema = dress(c, d, content.schema);
            if (example !== undefined) content.example = example;
          }
        });
        // a parameter whose comment has no text has an empty description
        for (const ops of Object.values(doc.paths)) for (const q of ops.post.parameters) if (q.description === '') delete q.description;
        const sorted = (x) => JSON.parse(JSON.stringify(x), (k, v) => ((k === 'enum' || k === 'x-enumsDeprecated') && Array.isArray(v) ? [...v].sort() : k === 'oneOf' && Array.isArray(v) ? v.map((y) => [P.canonical(y), y]).sort((y, z) => (y[0] < z[0] ? -1 : 1)).map((y) => y[1]) : v));
        const a = P.canonical(sorted(want)), b = P.canonical(sorted(doc));
        t.assert(a === b, () => `documented\n${P.parting(b, a)} expected${src()}`);
        const n = docs.filter(isDoc).length;
        const text = Object.values(files).join('');
        if (n >= 3 || (n && /[^\x00-\x7f]/.test(text))) t.nontrivial();
        t.label(n >= 3 ? 'three or more comments' : n ? 'a comment or two' : 'no comment');
      },
    },
  ],
};
