'use strict';
// What the generator cannot read must be an error or be left open, never a document that says
// something else than the code does. Constructs that need more than reading (conditions, calls with
// arguments, computed values, unusual declarations, missing or broken files) stand in for a codec, an
// object of codecs, a string or a group of routes; the same source is executed for comparison.
const G = require('../lib/gen');
const { problems } = require('../lib/oas');
const { show } = require('../lib/ser');

const JSON_TYPE = 'application/json';
const LIBS = "import * as t from 'io-ts';\nimport * as tt from 'io-ts-types';\nimport * as h from '@api-ts/io-ts-http';\n";
// A and B are two different things of the kind. pre: declarations; x: the expression; files: others
// (their A and B are declared there)
const GENERAL = [
  { n: 'plain', x: 'A' },
  { n: 'conditional', pre: 'const flag = Date.now() > 0;', x: 'flag ? A : B' },
  { n: 'conditional other', pre: 'const flag = Date.now() < 0;', x: '(flag ? A : B)' },
  { n: 'nullish', x: '(undefined ?? A)' },
  { n: 'or', x: '(null || A)' },
  { n: 'and', x: '(true && A)' },
  { n: 'comma', x: '(0, A)' },
  { n: 'cast', x: '(A as any)' },
  { n: 'called arrow', x: '(() => A)()' },
  { n: 'called function', x: '(function () { return A; })()' },
  { n: 'arrow', pre: 'const make = () => A;', x: 'make()' },
  { n: 'arrow block', pre: 'const make = () => { return A; };', x: 'make()' },
  { n: 'arrow with argument', pre: 'const make = (x: any) => x;', x: 'make(A)' },
  { n: 'arrow with ignored argument', pre: 'const make = (x: any) => A;', x: 'make(B)' },
  { n: 'arrow without parameters called with one', pre: 'const make: any = () => A;', x: 'make(B)' },
  { n: 'arrow with default', pre: 'const make = (x: any = A) => x;', x: 'make()' },
  { n: 'arrow with default and argument', pre: 'const make = (x: any = B) => x;', x: 'make(A)' },
  { n: 'arrow with if', pre: 'const flag = Date.now() > 0; const make = (): any => { if (flag) { return A; } return B; };', x: 'make()' },
  { n: 'arrow with if without block', pre: 'const flag = Date.now() > 0; const make = (): any => { if (flag) return A; return B; };', x: 'make()' },
  { n: 'arrow with if and else', pre: 'const flag = Date.now() > 0; const make = (): any => { if (flag) { return A; } else { return B; } };', x: 'make()' },
  { n: 'arrow with switch', pre: "const make = (): any => { switch (typeof 1) { case 'number': return A; } return B; };", x: 'make()' },
  { n: 'arrow with try', pre: 'const make = (): any => { try { return A; } catch (e) {} return B; };', x: 'make()' },
  { n: 'arrow with loop', pre: 'const make = (): any => { for (const x of [1]) { return A; } return B; };', x: 'make()' },
  { n: 'arrow with while', pre: 'const make = (): any => { while (true) { return A; } return B; };', x: 'make()' },
  { n: 'arrow with block', pre: 'const make = (): any => { { return A; } return B; };', x: 'make()' },
  { n: 'arrow with two returns', pre: 'const make = (): any => { return A; return B; };', x: 'make()' },
  { n: 'arrow with local', pre: 'const make = () => { const local = A; return local; };', x: 'make()' },
  { n: 'arrow with condition', pre: 'const flag = Date.now() < 0; const make = (): any => (flag ? B : A);', x: 'make()' },
  { n: 'arrow with default and outer name', pre: 'const inner = B; const make = (inner: any = A) => inner;', x: 'make()' },
  { n: 'arrow with argument and outer name', pre: 'const inner = B; const make = (inner: any) => inner;', x: 'make(A)' },
  { n: 'arrow with optional argument and outer name', pre: 'const inner: any = B; const make = (other?: any, inner = A) => inner;', x: 'make(B)' },
  { n: 'arrow with parts and outer name', pre: 'const inner = B; const make = ({ inner }: any = { inner: A }) => inner;', x: 'make()' },
  { n: 'arrow with rest and outer name', pre: 'const inner = B; const make = (...inner: any) => inner[0];', x: 'make(A)' },
  { n: 'arrow with local and outer name', pre: 'const inner = B; const make = () => { const inner = A; return inner; };', x: 'make()' },
  { n: 'arrow in file with outer name', files: { 'other.ts': 'const inner = B;\nexport const make = (inner: any = A) => inner;' }, pre: "import { make } from './other';", x: 'make()' },
  { n: 'function with default and outer name', pre: 'const inner = B; function make(inner: any = A) { return inner; }', x: 'make()' },
  { n: 'arrow calling arrow with outer name', pre: 'const inner = B; const first = (inner: any = A) => inner; const make = () => first();', x: 'make()' },
  { n: 'called arrow with outer name', pre: 'const inner = B;', x: '((inner: any) => inner)(A)' },
  { n: 'function', pre: 'function make() { return A; }', x: 'make()' },
  { n: 'function with if', pre: 'function make(): any { if (Date.now() > 0) return A; return B; }', x: 'make()' },
  { n: 'function expression', pre: 'const make = function () { return A; };', x: 'make()' },
  { n: 'function expression with if', pre: 'const make = function (): any { if (Date.now() > 0) return A; return B; };', x: 'make()' },
  { n: 'generator', pre: 'function* make(): any { yield A; }', x: 'make().next().value' },
  { n: 'curried', pre: 'const make = () => () => A;', x: 'make()()' },
  { n: 'member', pre: 'const box = { a: A, b: B };', x: 'box.a' },
  { n: 'member in brackets', pre: 'const box = { a: A, b: B };', x: "box['a']" },
  { n: 'member of member', pre: 'const box = { a: { a: B, b: A }, b: B };', x: 'box.a.b' },
  { n: 'optional member', pre: 'const box = { a: A };', x: 'box?.a' },
  { n: 'computed member', pre: "const box: any = { a: A, ab: B }; const key = 'a';", x: 'box[key]' },
  { n: 'method', pre: 'const box = { make() { return A; } };', x: 'box.make()' },
  { n: 'arrow member', pre: 'const box = { make: () => A };', x: 'box.make()' },
  { n: 'getter', pre: 'const box = { get a() { return A; } };', x: 'box.a' },
  { n: 'overridden member', pre: 'const box = { a: B, ...{ a: A } };', x: 'box.a' },
  { n: 'element', pre: 'const list: any[] = [A, B];', x: 'list[0]' },
  { n: 'at', pre: 'const list: any[] = [B, A];', x: 'list.slice(-1)[0]' },
  { n: 'destructured', pre: 'const { a: taken } = { a: A };', x: 'taken' },
  { n: 'destructured list', pre: 'const [taken] = [A];', x: 'taken' },
  { n: 'destructured default', pre: 'const { a: taken = A }: any = {};', x: 'taken' },
  { n: 'class member', pre: 'class Box { static a = A; }', x: 'Box.a' },
  { n: 'namespace', pre: 'namespace Box { export const a = A; }', x: 'Box.a' },
  { n: 'namespace beside file name', pre: 'namespace Box { export const inner = A; }\nconst inner = B;', x: 'Box.inner' },
  { n: 'assigned later', pre: 'let later: any; later = A;', x: 'later' },
  { n: 'non-null', x: 'A!' },
  { n: 'angle cast', x: '<any>A' },
  { n: 'const enum like', pre: 'const enum Unused { X = 1 }', x: 'A' },
  { n: 'star import', broken: true, files: { 'other.ts': 'export const x = A;' }, pre: "import * as other from './other';", x: 'other' },
  { n: 'import equals', files: { 'other.ts': 'export const x = A;' }, pre: "import other = require('./other');", x: 'other.x' },
  { n: 'import alias', files: { 'other.ts': 'export const x = A;' }, pre: "import * as other from './other';\nimport y = other.x;", x: 'y' },
  { n: 'export equals', files: { 'other.ts': 'const x = A;\nexport = { x };' }, pre: "import { x } from './other';", x: 'x' },
  { n: 'required', files: { 'other.ts': 'export const x = A;' }, pre: "declare const require: any;\nconst other = require('./other');", x: 'other.x' },
  { n: 'required in place', files: { 'other.ts': 'export const x = A;' }, pre: 'declare const require: any;', x: "require('./other').x" },
  { n: 'nothing after return', broken: true, pre: 'const make: any = () => { return; };', x: 'make()' },
  { n: 'no return', broken: true, pre: 'const make: any = () => { A; };', x: 'make()' },
  { n: 'ambient', broken: true, pre: 'declare const there: any;', x: 'there' },
  { n: 'ambient in file', broken: true, files: { 'other.ts': 'export declare const there: any;' }, pre: "import { there } from './other';", x: 'there' },
  { n: 'default of default', files: { 'other.ts': "import x from './third';\nexport default x;", 'third.ts': 'const x = A;\nexport { x as default };' }, pre: "import x from './other';", x: 'x' },
  { n: 'default function', files: { 'other.ts': 'export default () => A;' }, pre: "import x from './other';", x: 'x()' },
  { n: 'default class', files: { 'other.ts': 'export default class Box { static a = A; }' }, pre: "import Box from './other';", x: 'Box.a' },
  { n: 'circular export', broken: true, files: { 'other.ts': "export * from './third';", 'third.ts': "export * from './other';" }, pre: "import { x } from './other';", x: 'x' },
  { n: 'missing star file', broken: true, files: { 'other.ts': "export * from './nowhere';" }, pre: "import { x } from './other';", x: 'x' },
  { n: 'json', files: { 'other.json': '{"x": 1}' }, broken: true, pre: "import { x } from './other.json';", x: 'x' },
  { n: 'Object.assign', x: 'Object.assign(A)' },
  { n: 'identity', x: '[A].find(() => true)' },
  { n: 'new', pre: 'class Box { a: any; constructor(a: any) { this.a = a; } }', x: 'new Box(A).a' },
  { n: 'default import', files: { 'other.ts': 'const x = A;\nexport default x;' }, pre: "import other from './other';", x: 'other' },
  { n: 'default expression', files: { 'other.ts': 'export default A;' }, pre: "import other from './other';", x: 'other' },
  { n: 'namespace export', files: { 'other.ts': "export * as inner from './third';", 'third.ts': 'export const x = A;' }, pre: "import { inner } from './other';", x: 'inner.x' },
  { n: 'renamed', files: { 'other.ts': 'const x = A; const y = B;\nexport { x as y, y as x };' }, pre: "import { y } from './other';", x: 'y' },
  { n: 'function in file', files: { 'other.ts': 'export function make() { return A; }' }, pre: "import { make } from './other';", x: 'make()' },
  { n: 'arrow in file', files: { 'other.ts': 'const inner = A;\nexport const make = () => inner;' }, pre: "import { make } from './other';\nconst inner = B;", x: 'make()' },
  { n: 'javascript', files: { 'other.js': "const t = require('io-ts'), tt = require('io-ts-types'), h = require('@api-ts/io-ts-http');\nmodule.exports = { x: A };" }, pre: "import { x } from './other.js';", x: 'x' },
  { n: 'broken file', broken: true, files: { 'other.ts': 'export const x = A;\nexport const y = {{' }, pre: "import { x } from './other';", x: 'x' },
  { n: 'missing file', broken: true, pre: "import { x } from './nowhere';", x: 'x' },
  { n: 'missing export', broken: true, files: { 'other.ts': 'export const y = A;' }, pre: "import { x } from './other';", x: 'x' },
  { n: 'missing export through star', broken: true, files: { 'other.ts': "export * from './third';", 'third.ts': 'const x = A;\nexport const y = x;' }, pre: "import { x } from './other';", x: 'x' },
  { n: 'missing name', broken: true, x: 'Nowhere' },
  { n: 'missing member', broken: true, pre: 'const box: any = { a: A };', x: 'box.b' },
  { n: 'missing namespace member', broken: true, files: { 'other.ts': 'export const y = A;' }, pre: "import * as other from './other';", x: 'other.x' },
  { n: 'missing library member', broken: true, x: '(t as any).nope' },
  { n: 'missing package', broken: true, pre: "import { x } from 'no-such-package';", x: 'x' },
  { n: 'missing package with local name', broken: true, pre: "import { x as y } from 'no-such-package';\nexport const x = A;", x: 'y' },
  { n: 'not exported', broken: true, files: { 'other.ts': 'export const z = A;\nconst x = A;' }, pre: "import { z, x } from './other';", x: 'x' },
];
// what stands for a codec; A and B are codecs
const CODECS = [
  { n: 'new type', pre: "const Own = new t.Type<any>('Own', (x): x is any => true, (x) => t.success(x as any), t.identity);", x: 'Own' },
  { n: 'new type in place', x: "new t.Type<any>('Own', (x): x is any => true, (x) => t.success(x as any), t.identity)" },
  { n: 'class type', pre: "class OwnType extends t.Type<any> { constructor() { super('Own', (x): x is any => true, (x) => t.success(x as any), t.identity); } }", x: 'new OwnType()' },
  { n: 'pipe', x: 'A.pipe(t.unknown as any)' },
  { n: 'refinement', x: 't.refinement(A as any, () => true)' },
  { n: 'tuple', x: 't.tuple([A, B])' },
  { n: 'readonly', x: 't.readonly(A)' },
  { n: 'recursion', x: "t.recursion('R', () => A as any)" },
  { n: 'Int', x: 't.Int' },
  { n: 'never', x: 't.never' },
  { n: 'unknown library codec', x: 'tt.BooleanFromString.pipe(t.unknown as any)' },
  { n: 'mapOutput', x: 'tt.mapOutput(A as any, (x: any) => x)' },
  { n: 'either', x: 'tt.option(A)' },
  { n: 'clone', x: "tt.clone(A as any)" },
  { n: 'union of mapped', x: "t.union(['a', 'b'].map((x) => t.literal(x)) as any)" },
  { n: 'union of variable', pre: 'const members: any = [A, B];', x: 't.union(members)' },
  { n: 'union of spread', pre: 'const members = [A] as const;', x: 't.union([...members, B])' },
  { n: 'union of spread call', pre: 'const members = () => [A] as any;', x: 't.union([...members(), B] as any)' },
  { n: 'union of concatenation', x: 't.union([A].concat([B as any]) as any)' },
  { n: 'union of filtered', x: 't.union([A, B, t.string].filter((x) => x !== t.string) as any)' },
  { n: 'union with conditional spread', pre: 'const flag = Date.now() > 0;', x: 't.union([...(flag ? [A] : []), B] as any)' },
  { n: 'numeric enum member', pre: 'enum E { One, Two }', x: 't.literal(E.Two)' },
  { n: 'started enum member', pre: 'enum E { One = 5, Two }', x: 't.literal(E.Two)' },
  { n: 'string enum member', pre: "enum E { One = 'one', Two = 'two' }", x: 't.literal(E.Two)' },
  { n: 'mixed enum member', pre: "enum E { One = 'one', Two = 2, Three }", x: 't.literal(E.Three)' },
  { n: 'computed enum member', pre: "enum E { One = 1 << 3, Two = 'abc'.length }", x: 't.literal(E.One)' },
  { n: 'negative enum member', pre: 'enum E { One = -1, Two }', x: 't.literal(E.Two)' },
  { n: 'enum member by enum member', pre: 'enum E { One = 3, Two = One }', x: 't.literal(E.Two)' },
  { n: 'enum member in brackets', pre: "enum E { One = 'one', 'two words' = 'two' }", x: "t.literal(E['two words'])" },
  { n: 'union of enum members', pre: 'enum E { One, Two }', x: 't.union([t.literal(E.One), t.literal(E.Two)])' },
  { n: 'keyof string enum', pre: "enum E { One = 'one', Two = 'two' }", x: 't.keyof(E)' },
  { n: 'keyof quoted enum', pre: "enum E { One = 'one', 'two words' = 'two' }", x: 't.keyof(E)' },
  { n: 'key', pre: "const K = t.keyof({ one: 'one', two: 'two' });", x: 't.literal(K.keys.one)' },
  { n: 'key of other value', pre: "const K = t.keyof({ one: 'two', two: 'x' });", x: 't.literal(K.keys.one)' },
  { n: 'key of number', pre: 'const K = t.keyof({ one: 1, two: 2 });', x: 't.literal(K.keys.one)' },
  { n: 'key in brackets', pre: "const K = t.keyof({ 'a b': 'ab', two: 2 });", x: "t.literal(K.keys['a b'])" },
  { n: 'key by constant', pre: "const K = t.keyof({ one: 'two', two: 2 }); const two = 'one';", x: 't.literal(K.keys[two])' },
  { n: 'key of constant', pre: "const of = { one: 'two', two: 2 } as const; const K = t.keyof(of); const L = K;", x: 't.literal(L.keys.one)' },
  { n: 'key of enum', pre: "enum E { one = 'two', two = 'x' } const K = t.keyof(E);", x: 't.literal(K.keys.one)' },
  { n: 'key of spread', pre: "const of = { one: 'two' }; const K = t.keyof({ one: 'x', ...of });", x: 't.literal(K.keys.one as any)' },
  { n: 'key of conditional spread', pre: "const flag = Date.now() > 0; const of = { one: 'two' }; const K = t.keyof({ one: 'x', ...(flag ? of : {}) });", x: 't.literal(K.keys.one as any)' },
  { n: 'key of computed', pre: "const K = t.keyof({ one: 'two'.toUpperCase(), two: 2 });", x: 't.literal(K.keys.one as any)' },
  { n: 'key of file', files: { 'other.ts': "export const K = t.keyof({ one: 'two', two: 2 });" }, pre: "import { K } from './other';", x: 't.literal(K.keys.one)' },
  { n: 'key of namespace', files: { 'other.ts': "export const K = t.keyof({ one: 'two', two: 2 });" }, pre: "import * as other from './other';", x: 't.literal(other.K.keys.one)' },
  { n: 'key of plain object', pre: "const K = { keys: { one: 'two' } };", x: 't.literal(K.keys.one as any)' },
  { n: 'key of call', pre: "const make = (x: any) => t.keyof({ one: 'two' }); const K = make({ one: 'x' });", x: 't.literal(K.keys.one as any)' },
  { n: 'key of own keyof', pre: "const keyof = (x: any) => ({ keys: { one: 'two' } }); const K = keyof({ one: 'x' });", x: 't.literal(K.keys.one as any)' },
  { n: 'key of brand', pre: "const K: any = t.brand(t.keyof({ one: 'two' }), (x): x is any => true, 'B');", x: 't.literal(K.type.keys.one)' },
  { n: 'missing key', broken: true, pre: "const K: any = t.keyof({ one: 'one' });", x: 't.literal(K.keys.toString)' },
  { n: 'key of missing', broken: true, x: 't.literal(Nowhere.keys.one)' },
  { n: 'key of missing file', broken: true, pre: "import { K } from './nowhere';", x: 't.literal(K.keys.one)' },
  { n: 'keyof mapped', x: "t.keyof(Object.fromEntries(['a', 'b'].map((x) => [x, null])))" },
  { n: 'keyof of codec', pre: 'const T = t.type({ a: A, b: B });', x: 't.keyof(T.props)' },
  { n: 'keyof spread', pre: 'const K = { a: 1 };', x: 't.keyof({ ...K, b: 2 })' },
  { n: 'keyof conditional spread', pre: 'const flag = Date.now() > 0; const K = { a: 1 };', x: 't.keyof({ ...(flag ? K : {}), b: 2 })' },
  { n: 'negative literal', x: 't.literal(-1)' },
  { n: 'positive literal', x: 't.literal(+1)' },
  { n: 'not literal', x: 't.literal(!0 as any)' },
  { n: 'big literal', x: 't.literal(1_000)' },
  { n: 'hex literal', x: 't.literal(0x10)' },
  { n: 'exponent literal', x: 't.literal(1e21)' },
  { n: 'escaped literal', x: "t.literal('a\\n\\u00e9\\'')" },
  { n: 'template literal', pre: "const WORD = 'w';", x: 't.literal(`a-${WORD}-b` as any)' },
  { n: 'number template literal', pre: 'const N = 3;', x: 't.literal(`a${N}` as any)' },
  { n: 'function template literal', x: "t.literal(`a${'b'.toUpperCase()}` as any)" },
  { n: 'tagged template literal', x: 't.literal(String.raw`a\\n` as any)' },
  { n: 'upper case literal', x: "t.literal('a'.toUpperCase() as any)" },
  { n: 'concatenated literal', x: "t.literal(('a' + 'b') as any)" },
  { n: 'conditional literal', x: "t.literal((Date.now() > 0 ? 'a' : 'b') as any)" },
  { n: 'brand', x: "t.brand(A as any, (x: any): x is any => true, 'B')" },
  { n: 'exact', x: 't.exact(t.type({ a: A }))' },
  { n: 'record over brand', x: "t.record(t.brand(t.string, (x): x is any => true, 'B'), A)" },
  { n: 'setFromArray', x: 'tt.setFromArray(A as any, { equals: () => false, compare: () => 1 } as any)' },
];
// what stands for an object of codecs; A and B are the insides of two such objects
const OBJECTS = [
  { n: 'written out', x: '{ A }' },
  { n: 'constant', pre: 'const parts = { A };', x: 'parts' },
  { n: 'spread', pre: 'const parts = { A };', x: '{ ...parts, B }' },
  { n: 'spread last', pre: 'const parts = { A };', x: '{ B, ...parts }' },
  { n: 'spread twice', pre: 'const parts = { A };', x: '{ ...parts, ...{ B } }' },
  { n: 'conditional spread', pre: 'const flag = Date.now() > 0; const parts = { A };', x: '{ ...(flag ? parts : {}), B }' },
  { n: 'and spread', pre: 'const flag = Date.now() > 0; const parts = { A };', x: '{ ...(flag && parts), B }' },
  { n: 'or spread', pre: 'const parts: any = { A };', x: '{ ...(parts || {}), B }' },
  { n: 'spread call', pre: 'const parts = () => ({ A });', x: '{ ...parts(), B }' },
  { n: 'spread call with argument', pre: 'const parts = (x: any) => x;', x: '{ ...parts({ A }), B }' },
  { n: 'spread omit', pre: 'const omit = (x: any, k: string) => { const { [k]: _, ...rest } = x; return rest; }; const parts = { A };', x: "{ ...omit(parts, 'none'), B }" },
  { n: 'spread member', pre: 'const box = { parts: { A } };', x: '{ ...box.parts, B }' },
  { n: 'assign', pre: 'const parts = { A };', x: 'Object.assign({}, parts, { B })' },
  { n: 'assign onto', pre: 'const parts = { A };', x: 'Object.assign(parts, { B })' },
  { n: 'assign of condition', pre: 'const flag = Date.now() > 0; const parts = { A };', x: 'Object.assign({}, { B }, flag ? parts : {})' },
  { n: 'assign of and', pre: 'const flag = Date.now() > 0; const parts = { A };', x: 'Object.assign({}, { B }, flag && parts)' },
  { n: 'assign onto condition', pre: 'const flag = Date.now() > 0; const parts: any = { A };', x: 'Object.assign(flag ? parts : {}, { B })' },
  { n: 'assign of call', pre: 'const parts = () => ({ A });', x: 'Object.assign({}, { B }, parts())' },
  { n: 'assign of call with argument', pre: 'const parts = (x: any) => x;', x: 'Object.assign({}, { B }, parts({ A }))' },
  { n: 'assign of list', pre: 'const list: any[] = [{ A }];', x: 'Object.assign({}, { B }, ...list)' },
  { n: 'assign spread list', pre: 'const list = [{ A }, { B }] as const;', x: 'Object.assign({}, ...list)' },
  { n: 'fromEntries', x: 'Object.fromEntries(Object.entries({ A }))' },
  { n: 'spread fromEntries', x: '{ ...Object.fromEntries(Object.entries({ A })), B }' },
  { n: 'pick', pre: 'const pick = (x: any) => ({ ...x });', x: 'pick({ A })' },
  { n: 'conditional', pre: 'const flag = Date.now() > 0;', x: 'flag ? { A } : { B }' },
  { n: 'function', pre: 'const make = () => ({ A });', x: 'make()' },
  { n: 'function with if', pre: 'const make = (): any => { if (Date.now() > 0) { return { A }; } return { B }; };', x: 'make()' },
  { n: 'getters', x: '{ get z() { return t.string; }, A }' , only: 'type' },
  { n: 'methods', x: '{ B, z: (() => t.string)() }', only: 'type' },
  { n: 'frozen', x: 'Object.freeze({ A })' },
  { n: 'props', pre: 'const T = t.type({ A });', x: 'T.props' , only: 'type' },
  { n: 'spread props', pre: 'const T = t.type({ A });', x: '{ ...T.props, B }', only: 'type' },
  { n: 'spread codec member', pre: 'const T = { props: { A } };', x: '{ ...T.props, B }' },
  { n: 'other file', files: { 'other.ts': 'export const parts = { A };' }, pre: "import { parts } from './other';", x: '{ ...parts, B }' },
  { n: 'namespace', files: { 'other.ts': 'export const parts = { A };' }, pre: "import * as other from './other';", x: '{ ...other.parts, B }' },
  { n: 'missing spread', broken: true, x: '{ ...nowhere, B }' },
  { n: 'missing file', broken: true, pre: "import { parts } from './nowhere';", x: '{ ...parts, B }' },
];
// what stands for a string (A and B are string literals)
const STRINGS = [
  { n: 'concatenation', x: "A + ''" },
  { n: 'concatenation of constant', pre: 'const word = A;', x: "'' + word" },
  { n: 'template', pre: 'const word = A;', x: '`${word}`' },
  { n: 'template of number', pre: 'const word = A; const n = 7;', x: '`${word}${n}`' },
  { n: 'template of call', x: '`${A.toString()}`' },
  { n: 'template of condition', x: '`${Date.now() > 0 ? A : B}`' },
  { n: 'template of two', pre: 'const one = A;\nconst two = `${one}`;', x: '`${two}`' },
  { n: 'call', x: 'A.trim()' },
  { n: 'joined', x: "[A].join('')" },
  { n: 'enum', pre: 'enum E { X = A, Y = B }', x: 'E.X' },
  { n: 'numberless enum', pre: 'enum E { GET = A }', x: 'E.GET' },
  { n: 'const object', pre: 'const E = { X: A, Y: B } as const;', x: 'E.X' },
  { n: 'raw', x: 'String(A)' },
  { n: 'template of string', x: '`${A}`' },
  { n: 'template of strings', x: "`${''}${A}`" },
  { n: 'template of numbers', x: '`${A}${1}`' },
  { n: 'template of true', x: '`${A}${true}`' },
  { n: 'template of enum', pre: 'enum E { X = A, Y = B }', x: '`${E.X}`' },
  { n: 'template of object', pre: 'const E = { X: A };', x: '`${E.X}`' },
  { n: 'template of key', pre: 'const K = t.keyof({ x: A, y: B });', x: '`${K.keys.x as any}`' },
  { n: 'key', pre: 'const K = t.keyof({ x: A, y: B });', x: 'K.keys.x as any' },
  { n: 'chain of constants', pre: 'const one = A;\nconst two = one;\nconst three = two;', x: 'three' },
  { n: 'constant in file', files: { 'other.ts': 'export const word = A;' }, pre: "import { word } from './other';", x: 'word' },
  { n: 'constant behind constant in file', files: { 'other.ts': 'const inner = A;\nexport const word = inner;' }, pre: "import { word } from './other';\nconst inner = B;", x: 'word' },
  { n: 'template in file', files: { 'other.ts': 'const inner = A;\nexport const word = `${inner}`;' }, pre: "import { word } from './other';\nconst inner = B;", x: 'word' },
];
// what stands in an API specification; A and B are routes
const SPECS = [
  { n: 'plain', x: '{ a: { get: A }, b: { get: B } }' },
  { n: 'spread', pre: 'const part = { a: { get: A } };', x: '{ ...part, b: { get: B } }' },
  { n: 'spread spec', pre: 'const part = h.apiSpec({ a: { get: A } });', x: '{ ...part, b: { get: B } }' },
  { n: 'spread condition', pre: 'const flag = Date.now() > 0; const part = { a: { get: A } };', x: '{ ...(flag ? part : {}), b: { get: B } }' },
  { n: 'spread other condition', pre: 'const flag = Date.now() < 0; const part = { a: { get: A } };', x: '{ ...(flag ? {} : part), b: { get: B } }' },
  { n: 'spread and', pre: 'const flag = Date.now() > 0; const part = { a: { get: A } };', x: '{ ...(flag && part), b: { get: B } }' },
  { n: 'spread assign', pre: 'const part = { a: { get: A } };', x: '{ ...Object.assign({}, part), b: { get: B } }' },
  { n: 'spread assign two', pre: 'const part = { a: { get: A } };', x: '{ ...Object.assign({ b: { get: B } }, part) }' },
  { n: 'spread function', pre: 'const part = () => ({ a: { get: A } });', x: '{ ...part(), b: { get: B } }' },
  { n: 'spread identity', pre: 'const same = (x: any) => x; const part = { a: { get: A } };', x: '{ ...same(part), b: { get: B } }' },
  { n: 'spread first of two', pre: 'const join = (x: any, y: any) => ({ ...x, ...y });', x: '{ ...join({ a: { get: A } }, { b: { get: B } }) }' },
  { n: 'spread without', pre: 'const without = (x: any, k: string) => Object.fromEntries(Object.entries(x).filter(([n]) => n !== k)) as any; const both = { a: { get: A }, b: { get: B } };', x: "{ ...without(both, 'a') }" },
  { n: 'spread wrapper', pre: 'const prefixed = (x: any) => Object.fromEntries(Object.entries(x).map(([k, v]) => [k, v])) as any;', x: '{ ...prefixed({ a: { get: A } }), b: { get: B } }' },
  { n: 'spread literal', x: '{ ...{ a: { get: A } }, b: { get: B } }' },
  { n: 'spread in brackets', pre: 'const parts = { one: { a: { get: A } } };', x: "{ ...parts['one'], b: { get: B } }" },
  { n: 'spread member', pre: 'const parts = { one: { a: { get: A } } };', x: '{ ...parts.one, b: { get: B } }' },
  { n: 'condition', pre: 'const flag = Date.now() > 0;', x: '(flag ? { a: { get: A } } : { b: { get: B } })' },
  { n: 'assign', x: 'Object.assign({ a: { get: A } }, { b: { get: B } })' },
  { n: 'function', pre: 'const make = () => ({ a: { get: A } });', x: 'make()' },
  { n: 'group condition', pre: 'const flag = Date.now() > 0;', x: '{ a: flag ? { get: A } : {}, b: { get: B } }' },
  { n: 'group function', pre: 'const group = () => ({ get: A });', x: '{ a: group(), b: { get: B } }' },
  { n: 'group spread', pre: 'const group = { get: A };', x: '{ a: { ...group, post: B } }' },
  { n: 'group assign', pre: 'const group = { get: A };', x: '{ a: Object.assign({}, group), b: { get: B } }' },
  { n: 'group constant', pre: 'const group = { get: A };', x: '{ a: group, b: { get: B } }' },
  { n: 'group shorthand', pre: 'const a = { get: A };', x: '{ a, b: { get: B } }' },
  { n: 'route shorthand', pre: 'const get = A;', x: '{ a: { get }, b: { get: B } }' },
  { n: 'route condition', pre: 'const flag = Date.now() < 0;', x: '{ a: { get: flag ? B : A } }' },
  { n: 'route function', pre: 'const make = () => A;', x: '{ a: { get: make() }, b: { get: B } }' },
  { n: 'route function with argument', pre: 'const make = (x: any) => x;', x: '{ a: { get: make(A) }, b: { get: B } }' },
  { n: 'route function with if', pre: 'const make = (): any => { if (Date.now() > 0) return A; return B; };', x: '{ a: { get: make() } }' },
  { n: 'route method', x: '{ a: { get get() { return A; } }, b: { get: B } }' },
  { n: 'computed action', pre: "const key = 'a';", x: '{ [key]: { get: A }, b: { get: B } }' },
  { n: 'computed method', pre: "const key = 'get';", x: '{ a: { [key]: A }, b: { get: B } }' },
  { n: 'missing route', broken: true, x: '{ a: { get: nowhere }, b: { get: B } }' },
  { n: 'missing group', broken: true, x: '{ a: nowhere, b: { get: B } }' },
  { n: 'missing spread', broken: true, x: '{ ...nowhere, b: { get: B } }' },
  { n: 'other file', files: { 'other.ts': 'export const part = { a: { get: A } };' }, pre: "import { part } from './other';", x: '{ ...part, b: { get: B } }' },
  { n: 'broken file', broken: true, files: { 'other.ts': 'export const part = { a: { get: A } };\n}}' }, pre: "import { part } from './other';", x: '{ ...part, b: { get: B } }' },
  { n: 'missing file', broken: true, pre: "import { part } from './nowhere';", x: '{ ...part, b: { get: B } }' },
];
// request codecs, and the parameters they have (in the order query, path, header; undefined: some)
const part = (n, x, names) => ['query', 'params', 'headers'].map((p, i) => ({
  n: `${n} as ${p}`, x: `t.type({ ${['query', 'params'].filter((y) => y !== p).map((y) => `${y}: t.type({}), `).join('')}${p}: ${x} })`, pre: "const Q = t.type({ q: t.string }), R = { r: t.string }; enum E { Q = 'q' }",
  has: [[], [], []].map((y, j) => (j === i ? names : y)), path: p === 'params' ? '/a' + (names || ['q', 'r']).map((y) => `/{${y}}`).join('') : '/a',
}));
const REQUESTS = [
  ...part('type', 't.type({ q: t.string })', ['q']),
  ...part('partial', 't.partial({ q: t.string })', ['q']),
  ...part('strict', 't.strict({ q: t.string })', ['q']),
  ...part('exact', 't.exact(t.type({ q: t.string }))', ['q']),
  ...part('optionalized', 'h.optionalized({ q: t.string, r: h.optional(t.string) })', ['q', 'r']),
  ...part('brand', "t.brand(t.type({ q: t.string }), (x): x is any => true, 'B')", ['q']),
  ...part('constant', 'Q', ['q']),
  ...part('exact constant', 't.exact(Q)', ['q']),
  ...part('props', 't.type(R)', ['r']),
  ...part('member props', 't.type(Q.props)', ['q']),
  ...part('intersection', 't.intersection([t.type({ q: t.string }), t.type({ r: t.string })])', ['q', 'r']),
  ...part('intersection with constant', 't.intersection([Q, t.type({ r: t.string })])', ['q', 'r']),
  ...part('union', 't.union([t.type({ q: t.string }), t.type({ r: t.string })])'),
  ...part('record', 't.record(t.string, t.string)'),
  ...part('record over names', "t.record(t.keyof({ q: 1, r: 1 }), t.string)", ['q', 'r']),
  ...part('computed', 't.type({ [E.Q]: t.string })', ['q']),
  ...part('conditional', "(Date.now() > 0 ? t.type({ q: t.string }) : t.type({ r: t.string }))", ['q']),
  ...part('refinement', 't.refinement(t.type({ q: t.string }), () => true)', ['q']),
  { n: 'httpRequest', x: 'h.httpRequest({ query: { q: t.string }, headers: { r: t.string } })', has: [['q'], [], ['r']] },
  { n: 'renamed httpRequest', x: "h.httpRequest({ query: { q: t.string } }, 'Name')", has: [['q'], [], []] },
  { n: 'undefined part', x: 'h.httpRequest({ query: { q: t.string }, headers: undefined })', has: [['q'], [], []] },
  { n: 'spread parts', pre: 'const parts = { query: { q: t.string }, headers: { r: t.string } };', x: 'h.httpRequest({ ...parts, headers: { ...parts.headers, s: t.string } })', has: [['q'], [], ['r', 's']] },
  { n: 'overridden parts', pre: 'const parts = { query: { q: t.string }, headers: { r: t.string } };', x: 'h.httpRequest({ ...parts, headers: { s: t.string } })', has: [['q'], [], ['s']] },
  { n: 'constant parts', pre: 'const parts = { query: { q: t.string }, headers: { r: t.string } };', x: 'h.httpRequest(parts)', has: [['q'], [], ['r']] },
  { n: 'assigned parts', pre: 'const parts = { query: { q: t.string } };', x: 'h.httpRequest(Object.assign({}, parts, { headers: { r: t.string } }))', has: [['q'], [], ['r']] },
  { n: 'shorthand parts', pre: 'const query = { q: t.string }, headers = { r: t.string };', x: 'h.httpRequest({ query, headers })', has: [['q'], [], ['r']] },
  { n: 'part by condition', pre: 'const flag = Date.now() > 0;', x: 'h.httpRequest({ query: { q: t.string }, ...(flag ? { headers: { r: t.string } } : {}) })', has: [['q'], [], ['r']] },
  { n: 'exact request', x: 't.exact(t.type({ params: t.type({}), query: t.type({ q: t.string }) }))', has: [['q'], [], []] },
  { n: 'strict request', x: 't.strict({ params: t.type({}), query: t.type({ q: t.string }) })', has: [['q'], [], []] },
  { n: 'partial request', x: 't.intersection([t.type({ params: t.type({}), query: t.type({ q: t.string }) }), t.partial({ headers: t.type({ r: t.string }) })])', has: [['q'], [], ['r']] },
  { n: 'optionalized request', x: 'h.optionalized({ params: t.type({}), query: t.type({ q: t.string }) })', has: [['q'], [], []] },
  { n: 'brand request', x: "t.brand(h.httpRequest({ query: { q: t.string } }) as any, (x): x is any => true, 'B')", has: [['q'], [], []] },
  { n: 'flattened request', x: "h.flattened('F', { query: { q: t.string }, params: {} })", has: [['q'], [], []] },
  { n: 'optional part', x: 't.type({ params: t.type({}), query: t.type({ q: t.string }), headers: h.optional(t.type({ r: t.string })) })', has: [['q'], [], ['r']] },
  { n: 'any', x: 't.any', has: [undefined, undefined, undefined] },
  { n: 'union with intersection', x: "t.union([t.intersection([h.httpRequest({ query: { q: t.string } }), h.httpRequest({ query: { r: t.string } })]), h.httpRequest({ query: { s: t.string } })])", has: [undefined, [], []] },
  { n: 'union with union', x: "t.union([t.union([h.httpRequest({ query: { q: t.string } }), h.httpRequest({ query: { r: t.string } })]), h.httpRequest({ query: { s: t.string } })])", has: [undefined, [], []] },
  { n: 'union of alias', pre: 'const One = h.httpRequest({ query: { q: t.string } }); const Two = One;', x: 't.union([Two, h.httpRequest({ headers: { r: t.string } })])', has: [undefined, [], ['r']] },
  { n: 'alias', pre: 'const One = h.httpRequest({ query: { q: t.string } }); const Two = One; const Three = Two;', x: 'Three', has: [['q'], [], []] },
  { n: 'missing', broken: true, x: 'Nowhere' },
  { n: 'missing in union', broken: true, x: 't.union([Nowhere, h.httpRequest({})])' },
  { n: 'missing in intersection', broken: true, x: 't.intersection([Nowhere, h.httpRequest({})])' },
  { n: 'missing part', broken: true, x: 'h.httpRequest({ query: Nowhere })' },
  { n: 'missing parts', broken: true, x: 'h.httpRequest(Nowhere)' },
  { n: 'missing spread', broken: true, x: 'h.httpRequest({ ...Nowhere })' },
];
// entry points without an API spec, and examples
const NO_SPEC = {
  'empty file': '', 'comment only': '// nothing\n', 'codecs only': LIBS + 'export const A = t.string;\nexport const B = t.type({ a: A });\n',
  'routes only': LIBS + "export { route } from './other';\n", 'an own apiSpecs': LIBS + "import { route } from './other';\nconst apiSpecs = (x: any) => x;\nexport const api = apiSpecs({ a: { get: route } });\n",
  'declared only': LIBS + 'declare const api: any;\nexport { api };\n', 'not called': LIBS + 'export const api = h.apiSpec;\n', 'a type': LIBS + 'export type Api = ReturnType<typeof h.apiSpec>;\n',
};
const EXAMPLES = ['{"a": 1}', '[1, {"b": []}]', '{}', '{ bad', '{"a": 1', '{"a": 1}}', '[1, 2', "{'a': 1}", '{a: 1}', '[1,]', '{', '[', '{"a": undefined}', '[a]'];
const WRAPS = ['@', 't.array(@)', 't.type({ p: @, zz: t.string })', 't.partial({ p: @ })', 't.strict({ p: @ })', 't.record(t.string, @)', "t.record(t.keyof({ a: 1 }), @)", 't.union([@, t.type({ zz: t.number })])', 't.union([t.null, @])', 't.intersection([t.type({ zz: t.string }), t.type({ p: @ })])', 'h.optional(@)', 'h.optionalized({ p: @, zz: t.string })', 'tt.nonEmptyArray(@)', 't.array(t.type({ p: @ }))', "t.brand(@ as any, (x): x is any => true, 'B')"];
const PLACES = ['response', 'shared response', 'body', 'body property', 'query', 'header', 'shared in file'];
const JUNK = [null, 'a', 'b', 'ab', 'A', '', 'x', 'one', 'two', 'One', 'Two', 'a-w-b', 'a3', 'aB', 'a\né\'', 'a\\n', '7', 0, 1, -1, 2, 3, 4, 5, 6, 8, 16, 1000, 1e21, 1.5, true, false, [], ['a'], [1], [0, 'a'], {}, { a: 'a' }, { zz: 'x' }, { zz: 3 }, { a: 1, b: 'x' }, { p: 'a' }, { p: 1, zz: 'x' }];

const put = (text, a, b) => text.replace(/\bA\b/g, () => a).replace(/\bB\b/g, () => b);
function project(form, a, b, body, { subject = 'codec' } = {}) {
  const files = {};
  const js = (f) => f.endsWith('.js');
  for (const [f, s] of Object.entries(form.files || {})) files[f] = (js(f) ? '' : LIBS) + put(s, a, b) + '\n';
  const pre = form.pre ? put(form.pre, a, b) + '\n' : '';
  const x = put(form.x, a, b);
  const imports = (pre.match(/^import .*$/gm) || []).join('\n');
  const rest = pre.replace(/^import .*$/gm, '');
  files['index.ts'] = `${LIBS}${imports ? imports + '\n' : ''}${rest}${body(x, files)}`;
  return files;
}
const listing = (files) => Object.entries(files).map(([f, s]) => `--- ${f}\n${s}`).join('\n').slice(0, 4000);

// every codec in reach of a schema that says anything about objects: the names of properties
const isAny = (s) => Object.keys(s).every((k) => ['title', 'description', 'deprecated', 'x-internal', 'nullable'].includes(k)) && s.enum === undefined;
function names(doc, s, depth = 0) {
  if (depth > 20) return undefined;
  if (s.$ref) return names(doc, doc.components.schemas[s.$ref.replace('#/components/schemas/', '')], depth + 1);
  if (s.allOf) { const xs = s.allOf.map((y) => names(doc, y, depth + 1)); const known = xs.filter((x) => x !== undefined); return known.length && known.length === xs.filter((x, i) => x !== undefined || !s.allOf[i].title).length ? new Set(known.flatMap((x) => [...x])) : undefined; }
  if (s.type === 'object' && s.properties && s.additionalProperties === undefined) return new Set(Object.keys(s.properties));
  return undefined;
}
function propNames(codec) {
  switch (codec._tag) {
    case 'InterfaceType': case 'PartialType': case 'StrictType': return new Set(Object.keys(codec.props));
    case 'ExactType': case 'RefinementType': return propNames(codec.type);
    case 'IntersectionType': { const xs = codec.types.map(propNames); return xs.every(Boolean) ? new Set(xs.flatMap((x) => [...x])) : undefined; }
    default: return undefined;
  }
}
// the schema must let through what the codec lets through, and list the properties it has
function judge(t, doc, schema, codec, values, E, what, src) {
  for (const v of values) {
    if (v === undefined) continue;
    if (!E.isRight(codec.decode(v))) continue;
    t.assert(G.accepts(doc, schema, v), () => `${what}: the code accepts ${JSON.stringify(v)}, the document does not: ${JSON.stringify(schema)} ${JSON.stringify(doc.components.schemas)}\n${src()}`);
  }
  const has = propNames(codec), said = names(doc, schema);
  if (has && said) for (const n of has) t.assert(said.has(n), () => `${what}: the code has a property ${n}, the document only ${show([...said])}\n${src()}`);
}
// whether some of it is documented as anything
async function leftOpen(env, form) {
  if (!OPEN.has(form.n)) {
    const files = project(form, 't.string', 't.number', (x) => `export const api = h.apiSpec({ x: { post: h.httpRoute({ path: '/x', method: 'POST', request: h.httpRequest({}), response: { 200: ${x} } }) } });\n`);
    const { doc } = await G.generate(env, files);
    const any = (x) => Array.isArray(x) ? x.some(any) : x !== null && typeof x === 'object' && (isAny(x) || Object.values(x).some(any));
    OPEN.set(form.n, doc === undefined || any([doc.paths['/x'].post.responses[200].content, ...Object.values(doc.components.schemas)]));
  }
  return OPEN.get(form.n);
}
const OPEN = new Map();
const refusal = (r) => r.doc === undefined && r.exit !== 0;
async function outcome(env, files, form, t) {
  const r = await G.generate(env, files);
  const src = () => listing(files);
  if (refusal(r)) {
    t.assert(/\S/.test(r.stderr.replace(/\[INFO\].*/g, '')) || r.threw !== undefined, () => `it ends with ${r.exit} and no message\n${src()}`);
    t.assert(!(r.threw instanceof RangeError), () => `it runs out of stack: ${r.threw}\n${src()}`);
    t.label('refused');
    t.label('refused: ' + form.n);
    return undefined;
  }
  t.assert(r.doc !== undefined, () => `exit ${r.exit} without a document: ${r.stdout.slice(0, 300)}\n${src()}`);
  t.assert(!form.broken, () => `there is no such thing, but a document is printed: ${JSON.stringify(r.doc)}\n${src()}`);
  const bad = problems(r.doc);
  t.assert(bad.length === 0, () => `not a document of OpenAPI 3.0.3: ${bad.slice(0, 3).join('; ')}\n${src()}`);
  t.label('documented: ' + form.n);
  return r.doc;
}
module.exports = {
  rule: 'A case is a project with one construct (named in the labels) in one place, given to the command line and executed. Every case counts as non-trivial; how many were refused and how many documented is in the labels.',
  assumptions: [
    'A document is wrong if it refuses a value that the code accepts, leaves out a route, parameter, status or property, or has one that the code does not have; a schema that leaves everything open ({}) is not wrong.',
    'Whether a construct that is read today could be refused tomorrow is not decided here (C20 to C26 say what must be read).',
  ],
  props: [
    {
      name: 'codecs',
      runs: { quick: 3200, thorough: 48000 },
      arb: (fc) => {
        const inner = G.codecArb(fc, { depth: 1, leaves: G.EXACT, refs: [] });
        return fc.record({ form: fc.constantFrom(...GENERAL, ...CODECS).map((f) => f.n), a: inner, b: inner, wrap: fc.constantFrom(...WRAPS, '@', '@', '@'), place: fc.constantFrom(...PLACES), seed: fc.integer() });
      },
      async check({ form: n, a, b, wrap: given, place, seed }, t, env) {
        let wrap = given;
        const form = [...GENERAL, ...CODECS].find((f) => f.n === n);
        const style = new G.Printer({ imports: { t: 'star', h: 'star', tt: 'star' } });
        const codec = (c) => style.codec(c);
        // what cannot be read is documented as anything; that it may be absent, or that it is one of several
        // alternatives, is lost with it (as the tests have it)
        if (!['@', 't.array(@)'].includes(wrap) && (await leftOpen(env, form))) wrap = '@';
        const A = codec(a), B = codec(b);
        const files = project(form, A, B, (x) => {
          const y = wrap.split('@').join(x);
          const [pre, use] = place === 'shared response' ? [`const Shared = ${y};\n`, 'Shared'] : ['', y];
          const request = place === 'body' ? `t.type({ body: ${use} })` : place === 'body property' ? `h.httpRequest({ body: { p: ${use} } })` : place === 'query' ? `h.httpRequest({ query: { p: ${use} } })` : place === 'header' ? `h.httpRequest({ headers: { p: ${use} } })` : 'h.httpRequest({})';
          const res = ['response', 'shared response', 'shared in file'].includes(place) ? use : 't.string';
          return `${pre}export const subject: any = ${y};\nexport const api = h.apiSpec({ x: { post: h.httpRoute({ path: '/x', method: 'POST', request: ${request}, response: { 200: ${res} } }) } });\n`;
        });
        if (place === 'shared in file') {
          files['codecs.ts'] = files['index.ts'].replace(/export const api[^]*$/, 'export const Shared = subject;\n').replace('subject: any', 'subject');
          files['index.ts'] = LIBS + "import { Shared } from './codecs';\nexport { subject } from './codecs';\nexport const api = h.apiSpec({ x: { post: h.httpRoute({ path: '/x', method: 'POST', request: h.httpRequest({}), response: { 200: Shared } }) } });\n";
        }
        t.nontrivial();
        const doc = await outcome(env, files, form, t);
        if (doc === undefined) return;
        const src = () => listing(files);
        const { subject } = G.evaluate(env, files);
        const E = env.req('fp-ts/Either');
        const op = doc.paths['/x'].post;
        const vs = [...G.values(a, [], seed, 8), ...G.values(b, [], seed, 8)];
        const values = [...JUNK, ...vs, ...vs.map((v) => [v]), ...vs.map((v) => ({ p: v, zz: 'x' })), ...vs.map((v) => ({ p: v })), ...vs.map((v) => ({ a: v })), ...vs.map((v) => [{ p: v }])];
        const optional = E.isRight(subject.decode(undefined));
        if (['query', 'header'].includes(place)) {
          const p = op.parameters.find((y) => y.name === 'p');
          t.assert(p !== undefined && op.parameters.length === 1, () => `parameters ${show(op.parameters)}\n${src()}`);
          t.assert(!(optional && p.required && !isAny(p.schema)), () => `a parameter that may be left out is required\n${src()}`);
          judge(t, doc, p.schema, subject, values.filter((v) => v !== null), E, place, src);
        } else if (place === 'body property') {
          const s = op.requestBody.content[JSON_TYPE].schema;
          if (!(s.properties && s.properties.p)) { t.assert(!values.some((v) => v !== undefined && E.isRight(subject.decode(v))), () => `the property is not documented: ${JSON.stringify(s)}\n${src()}`); return; }
          t.assert(!(optional && (s.required || []).includes('p') && !isAny(s.properties.p)), () => `a property that may be left out is required\n${src()}`);
          judge(t, doc, s.properties.p, subject, values, E, place, src);
        } else {
          const s = place === 'body' ? op.requestBody && op.requestBody.content[JSON_TYPE].schema : op.responses[200].content[JSON_TYPE].schema;
          if (s === undefined) { t.assert(!values.some((v) => v !== undefined && E.isRight(subject.decode(v))), () => `no schema\n${src()}`); return; }
          judge(t, doc, s, subject, values, E, place, src);
        }
      },
    },
    {
      name: 'objects',
      runs: { quick: 1000, thorough: 12000 },
      arb: (fc) => {
        const inner = G.codecArb(fc, { depth: 1, leaves: G.EXACT, refs: [] });
        return fc.record({ form: fc.constantFrom(...OBJECTS.map((f) => f.n)), place: fc.constantFrom('type', 'partial', 'strict', 'optionalized', 'response', 'query', 'body', 'headers'), a: fc.tuple(inner, inner), b: inner, same: fc.boolean(), seed: fc.integer() });
      },
      async check({ form: n, place, a, b, same, seed }, t, env) {
        const form = OBJECTS.find((f) => f.n === n);
        const style = new G.Printer({ imports: { t: 'star', h: 'star', tt: 'star' } });
        const k = place === 'response' ? ['200', '201', '404'] : ['one', 'two', 'three'];
        // the second may say something else about a name of the first
        const A = `${k[0]}: ${style.codec(a[0])}, ${k[1]}: ${style.codec(a[1])}`, B = `${same ? k[1] : k[2]}: ${style.codec(b)}`;
        if (form.only && place === 'response') { t.label('does not fit'); return; }
        const files = project(form, A, B, (x) => {
          const f = { type: 't.type', partial: 't.partial', strict: 't.strict', optionalized: 'h.optionalized' }[place];
          const request = f ? 'h.httpRequest({})' : place === 'response' ? 'h.httpRequest({})' : `h.httpRequest({ ${place}: ${x} })`;
          const res = f ? `{ 200: ${f}(${x}) }` : place === 'response' ? x : '{ 200: t.string }';
          return `export const subject: any = ${f ? `${f}(${x})` : x};\nexport const api = h.apiSpec({ x: { post: h.httpRoute({ path: '/x', method: 'POST', request: ${request}, response: ${res} }) } });\n`;
        });
        t.nontrivial();
        const doc = await outcome(env, files, form, t);
        if (doc === undefined) return;
        const src = () => listing(files);
        const { subject } = G.evaluate(env, files);
        const E = env.req('fp-ts/Either');
        const op = doc.paths['/x'].post;
        const vs = [...G.values(a[0], [], seed, 6), ...G.values(a[1], [], seed + 1, 6), ...G.values(b, [], seed + 2, 6)];
        const r = G.prng(seed);
        const objects = Array.from({ length: 30 }, () => { const o = {}; for (const y of [...k, 'z']) if (r.chance(0.8)) o[y] = y === 'z' ? 'x' : r.pick(vs); for (const y of Object.keys(o)) if (o[y] === undefined) delete o[y]; return o; });
        if (['type', 'partial', 'strict', 'optionalized'].includes(place)) return judge(t, doc, op.responses[200].content[JSON_TYPE].schema, subject, objects, E, place, src);
        const keys = Object.keys(subject).sort();
        if (place === 'response') {
          t.assert(show(Object.keys(op.responses).sort()) === show(keys), () => `statuses ${show(Object.keys(op.responses))}, expected ${show(keys)}\n${src()}`);
          for (const y of keys) if (op.responses[y].content[JSON_TYPE].schema) judge(t, doc, op.responses[y].content[JSON_TYPE].schema, subject[y], vs, E, y, src);
        } else if (place === 'body') {
          const s = op.requestBody.content[JSON_TYPE].schema;
          for (const y of keys) { t.assert(s.properties[y] !== undefined, () => `property ${y} is not documented: ${JSON.stringify(s)}\n${src()}`); judge(t, doc, s.properties[y], subject[y], vs, E, y, src); t.assert(!(E.isRight(subject[y].decode(undefined)) && (s.required || []).includes(y)), () => `${y} is required\n${src()}`); }
          for (const y of Object.keys(s.properties)) t.assert(keys.includes(y), () => `property ${y} is documented, but not there\n${src()}`);
        } else {
          t.assert(show(op.parameters.map((p) => p.name).sort()) === show(keys), () => `parameters ${show(op.parameters.map((p) => p.name))}, expected ${show(keys)}\n${src()}`);
          for (const p of op.parameters) { judge(t, doc, p.schema, subject[p.name], vs.filter((v) => v !== null), E, p.name, src); t.assert(!(E.isRight(subject[p.name].decode(undefined)) && p.required), () => `${p.name} is required\n${src()}`); }
        }
      },
    },
    {
      name: 'strings',
      enumerate() {
        const out = [];
        for (const f of [...GENERAL, ...STRINGS]) for (const place of ['path', 'method', 'literal', 'key', 'parameter', 'constant path']) out.push({ form: f.n, place });
        return out;
      },
      async check({ form: n, place }, t, env) {
        const form = [...STRINGS, ...GENERAL].find((f) => f.n === n);
        const [A, B] = place === 'path' || place === 'constant path' ? ["'/one'", "'/two'"] : place === 'method' ? ["'PUT'", "'GET'"] : ["'one'", "'two'"];
        const files = project(form, A, B, (x) => {
          const path = place === 'path' ? x : place === 'constant path' ? 'PATH' : "'/x'";
          const res = place === 'literal' ? `t.literal(${x} as any)` : place === 'key' ? `t.type({ [${x}]: t.string } as any)` : 't.string';
          return `${place === 'constant path' ? `const PATH = ${x};\n` : ''}export const subject: any = ${x};\nexport const api = h.apiSpec({ x: { post: h.httpRoute({ path: ${path}, method: ${place === 'method' ? x : "'POST'"}, request: h.httpRequest({${place === 'parameter' ? ` query: { [${x}]: t.string } ` : ''}}), response: { 200: ${res} } }) } });\n`;
        });
        t.nontrivial();
        const doc = await outcome(env, files, form, t);
        if (doc === undefined) return;
        const src = () => listing(files);
        const { subject } = G.evaluate(env, files);
        const path = /path/.test(place) ? subject : '/x', method = place === 'method' ? subject.toLowerCase() : 'post';
        t.assert(show(Object.keys(doc.paths)) === show([path]), () => `paths ${show(Object.keys(doc.paths))}, expected ${path}\n${src()}`);
        t.assert(show(Object.keys(doc.paths[path])) === show([method]), () => `methods ${show(Object.keys(doc.paths[path]))}, expected ${method}\n${src()}`);
        const op = doc.paths[path][method];
        const s = op.responses[200].content[JSON_TYPE].schema;
        if (place === 'literal') for (const v of JUNK) t.assert(!(v === subject && !G.accepts(doc, s, v)), () => `${JSON.stringify(v)} is not accepted: ${JSON.stringify(s)}\n${src()}`);
        if (place === 'literal') t.assert(G.accepts(doc, s, subject), () => `${JSON.stringify(subject)} is not accepted: ${JSON.stringify(s)}\n${src()}`);
        if (place === 'key') t.assert(isAny(s) || show(Object.keys(s.properties || {})) === show([String(subject)]), () => `properties ${JSON.stringify(s)}, expected ${subject}\n${src()}`);
        if (place === 'parameter') t.assert(show(op.parameters.map((p) => p.name)) === show([String(subject)]), () => `parameters ${show(op.parameters)}, expected ${subject}\n${src()}`);
      },
    },
    {
      name: 'specs',
      enumerate() {
        const out = [];
        for (const f of SPECS) for (const how of ['argument', 'constant', 'in file']) for (const routes of ['in place', 'constants']) out.push({ form: f.n, how, routes });
        for (const f of GENERAL) for (const how of ['route', 'group', 'spread', 'request', 'response', 'route object']) out.push({ form: f.n, how, general: true });
        return out;
      },
      async check({ form: n, how, routes, general }, t, env) {
        const form = (general ? GENERAL : SPECS).find((f) => f.n === n);
        const route = (p, more = '') => `h.httpRoute({ path: '${p}', method: 'GET', request: h.httpRequest({ query: { q: t.string${more} } }), response: { 200: t.string } })`;
        let A = route('/a'), B = route('/b', ', r: t.string');
        let files;
        if (general) {
          if (how === 'group') { A = `{ get: ${A} }`; B = `{ get: ${B} }`; }
          if (how === 'spread') { A = `{ one: { get: ${A} } }`; B = `{ one: { get: ${B} } }`; }
          if (how === 'request') { A = 'h.httpRequest({ query: { q: t.string } })'; B = 'h.httpRequest({ query: { q: t.string, r: t.string } })'; }
          if (how === 'response') { A = '{ 200: t.string, 400: t.number }'; B = '{ 201: t.string }'; }
          if (how === 'route object') { A = A.slice('h.httpRoute('.length, -1); B = B.slice('h.httpRoute('.length, -1); }
          files = project(form, A, B, (x) => {
            const inside = { route: `one: { get: ${x} }`, group: `one: ${x}`, spread: `...${x}`, request: `one: { get: h.httpRoute({ path: '/a', method: 'GET', request: ${x}, response: { 200: t.string } }) }`, response: `one: { get: h.httpRoute({ path: '/a', method: 'GET', request: h.httpRequest({ query: { q: t.string } }), response: ${x} }) }`, 'route object': `one: { get: h.httpRoute(${x}) }` }[how];
            return `export const api = h.apiSpec({ ${inside} });\n`;
          });
        } else {
          let pre = '';
          if (routes === 'constants') { pre = `const routeA = ${A};\nconst routeB = ${B};\n`; A = 'routeA'; B = 'routeB'; }
          files = project({ ...form, pre: undefined, files: undefined }, A, B, (x) => '');
          const others = {};
          for (const [f, s] of Object.entries(form.files || {})) others[f] = LIBS + pre + put(s, A, B) + '\n';
          const own = form.pre ? put(form.pre, A, B) + '\n' : '';
          const imports = (own.match(/^import .*$/gm) || []).join('\n') + '\n', rest = own.replace(/^import .*$/gm, '');
          const x = put(form.x, A, B);
          const main = how === 'constant' ? `const all = ${x};\nexport const api = h.apiSpec(all);\n` : how === 'in file' ? `export const all = ${x};\n` : `export const api = h.apiSpec(${x});\n`;
          const text = LIBS + imports + pre + rest + main;
          files = { ...others, ...(how === 'in file' ? { 'all.ts': text, 'index.ts': `${LIBS}import { all } from './all';\nexport const api = h.apiSpec(all);\n` } : { 'index.ts': text }) };
        }
        t.nontrivial();
        const doc = await outcome(env, files, form, t);
        if (doc === undefined) return;
        const src = () => listing(files);
        const { api } = G.evaluate(env, files);
        const expected = {};
        for (const group of Object.values(api)) for (const r of Object.values(group)) expected[`${r.method} ${r.path}`] = r;
        const said = Object.entries(doc.paths).flatMap(([p, ms]) => Object.keys(ms).map((m) => `${m.toUpperCase()} ${p}`)).sort();
        t.assert(show(said) === show(Object.keys(expected).sort()), () => `the document has ${show(said)}, the code ${show(Object.keys(expected).sort())}\n${src()}`);
        for (const [key, r] of Object.entries(expected)) {
          const op = doc.paths[r.path][r.method.toLowerCase()];
          const E = env.req('fp-ts/Either');
          t.assert(show(Object.keys(op.responses).sort()) === show(Object.keys(r.response).sort()), () => `${key}: statuses ${show(Object.keys(op.responses))}, expected ${show(Object.keys(r.response))}\n${src()}`);
          const query = op.parameters.filter((p) => p.in === 'query').map((p) => p.name).sort();
          const real = ['q', 'r'].filter((y) => E.isLeft(r.request.decode({ params: {}, query: Object.fromEntries(['q', 'r'].filter((z) => z !== y).map((z) => [z, 'x'])) })));
          t.assert(show(query) === show(real), () => `${key}: query parameters ${show(query)}, expected ${show(real)}\n${src()}`);
        }
      },
    },
    {
      name: 'rest',
      enumerate() {
        const out = [];
        for (const n of Object.keys(NO_SPEC)) out.push({ none: n });
        for (const text of EXAMPLES) for (const layout of ['line', 'lines', 'tag after', 'tag before', 'text before']) for (const place of ['route', 'query', 'header', 'body', 'response', 'shared']) out.push({ text, layout, place });
        return out;
      },
      async check({ none, text, layout, place }, t, env) {
        t.nontrivial();
        if (none !== undefined) {
          await outcome(env, { 'other.ts': LIBS + 'export const route = h.httpRoute({ path: "/", method: "GET", request: h.httpRequest({}), response: { 200: t.string } });\n', 'index.ts': NO_SPEC[none] }, { n: none, broken: true }, t);
          return;
        }
        // an example that starts like JSON is JSON
        const lines = { line: [`@example ${text}`], lines: text.length > 1 ? [`@example ${text[0]}`, text.slice(1)] : [`@example ${text}`], 'tag after': [`@example ${text}`, '@tag T'], 'tag before': ['@title T', `@example ${text}`], 'text before': ['Some text', '', `@example ${text}`] }[layout];
        const comment = layout === 'line' ? `/** ${lines[0]} */\n` : `/**\n${lines.map((l) => ` * ${l}`).join('\n')}\n */\n`;
        const at = (p) => (p === place ? comment : '');
        const files = { 'index.ts': `${LIBS}${at('shared')}const Shared = t.type({ a: t.string });\n${at('route')}const route = h.httpRoute({ path: '/a', method: 'POST', request: h.httpRequest({ query: { ${at('query')}q: t.string }, headers: { ${at('header')}r: t.string }, body: { ${at('body')}b: t.type({}), s: Shared } }), response: { 200: t.type({ ${at('response')}c: t.type({}) }) } });\nexport const api = h.apiSpec({ a: { post: route } });\n` };
        let json; try { json = JSON.parse(text); } catch { /* none */ }
        const doc = await outcome(env, files, { n: 'example', broken: json === undefined }, t);
        if (doc === undefined) { t.assert(json === undefined, () => `refused, although the example is JSON\n${listing(files)}`); return; }
        const found = [];
        const walk = (x) => { if (x !== null && typeof x === 'object') for (const [k, y] of Object.entries(x)) { if (k === 'example') found.push(y); else walk(y); } };
        walk(doc);
        t.assert(found.length === 1 && show(found[0]) === show(json), () => `the examples are ${show(found)}, expected ${show(json)}\n${listing(files)}`);
      },
    },
    {
      name: 'requests',
      enumerate() {
        const out = [];
        for (const f of REQUESTS) for (const how of ['in place', 'constant', 'in file', 'namespace', 'intersected']) out.push({ form: f.n, how });
        return out;
      },
      async check({ form: n, how }, t, env) {
        const form = REQUESTS.find((f) => f.n === n);
        const pre = form.pre ? form.pre + '\n' : '';
        const route = (x) => `export const api = h.apiSpec({ a: { get: h.httpRoute({ path: '${form.path || '/a'}', method: 'GET', request: ${x}, response: { 200: t.string } }) } });\n`;
        const files = {
          'in place': { 'index.ts': LIBS + pre + route(form.x) },
          constant: { 'index.ts': `${LIBS}${pre}const Req: any = ${form.x};\n${route('Req')}` },
          'in file': { 'req.ts': `${LIBS}${pre}export const Req: any = ${form.x};\n`, 'index.ts': `${LIBS}import { Req } from './req';\nconst Q = 1, R = 2, parts = 3, query = 4, One = 5;\n${route('Req')}` },
          namespace: { 'req.ts': `${LIBS}${pre}export const Req: any = ${form.x};\n`, 'index.ts': `${LIBS}import * as req from './req';\n${route('req.Req')}` },
          intersected: { 'index.ts': `${LIBS}${pre}${route(`t.intersection([${form.x}, h.httpRequest({ query: { more: t.string } })])`)}` },
        }[how];
        t.nontrivial();
        const doc = await outcome(env, files, form, t);
        if (doc === undefined) return;
        const src = () => listing(files);
        const ps = doc.paths[form.path || '/a'].get.parameters;
        ['query', 'path', 'header'].forEach((place, i) => {
          const said = ps.filter((p) => p.in === place).map((p) => p.name).filter((x) => !(how === 'intersected' && place === 'query' && x === 'more')).sort();
          t.assert(form.has[i] !== undefined ? show(said) === show([...form.has[i]].sort()) : said.length > 0, () => `${place} parameters ${show(said)}, expected ${show(form.has[i] || 'some')}\n${src()}`);
        });
      },
    },
  ],
};
