'use strict';
// Type-checks programs against the sources of the packages with the repository's TypeScript and settings
const path = require('path');
const { REPO } = require('./build');

let checker;
function make() {
  const ts = require(path.join(REPO, 'node_modules/typescript'));
  const { config } = ts.readConfigFile(path.join(REPO, 'tsconfig.json'), ts.sys.readFile);
  const parsed = ts.parseJsonConfigFileContent(config, { ...ts.sys, readDirectory: () => [] }, REPO).options;
  const options = { ...parsed, noEmit: true, composite: false, incremental: false, noUnusedLocals: false, noUnusedParameters: false, skipLibCheck: true, types: ['node'] };
  // where all packages and their dependencies can be imported
  const file = path.join(REPO, 'packages/express-wrapper/src/__case.ts');
  const base = ts.createCompilerHost(options);
  const files = new Map(), modules = new Map();
  let text = '', program;
  const host = {
    ...base,
    getSourceFile(f, l) {
      if (f === file) return ts.createSourceFile(f, text, l, true);
      if (!files.has(f)) files.set(f, base.getSourceFile(f, l));
      return files.get(f);
    },
    fileExists: (f) => f === file || base.fileExists(f),
    readFile: (f) => (f === file ? text : base.readFile(f)),
    resolveModuleNames: (names, from) => names.map((n) => {
      const m = /^@api-ts\/([\w-]+)$/.exec(n);
      if (m) return { resolvedFileName: path.join(REPO, 'packages', m[1], 'src/index.ts'), isExternalLibraryImport: false };
      const key = path.dirname(from) + '\0' + n;
      if (!modules.has(key)) modules.set(key, ts.resolveModuleName(n, from, options, host).resolvedModule);
      return modules.get(key);
    }),
  };
  return (source) => {
    text = source;
    program = ts.createProgram({ rootNames: [file], options, host, oldProgram: program });
    const sf = program.getSourceFile(file);
    return [...program.getSyntacticDiagnostics(sf), ...program.getSemanticDiagnostics(sf)].map((d) => ({ line: sf.getLineAndCharacterOfPosition(d.start).line, message: ts.flattenDiagnosticMessageText(d.messageText, '\n') }));
  };
}
// the errors in a program: [{line (from 0), message}]
function typecheck(source) {
  checker = checker || make();
  return checker(source);
}

const PRELUDE = `import * as t from 'io-ts';
import * as tt from 'io-ts-types';
import type { Option } from 'fp-ts/Option';
import type * as E from 'fp-ts/Either';
import express from 'express';
import superagent from 'superagent';
import * as h from '@api-ts/io-ts-http';
import { Response, KeyedResponse, Status, KeyedStatus } from '@api-ts/response';
import { createRouter, wrapRouter, TypedRequestHandler, UncheckedRequestHandler } from '@api-ts/typed-express-router';
import { createServer, routerForApiSpec, routeHandler, middlewareFn, ServiceFunction, KeyedResponseType } from '@api-ts/express-wrapper';
import { buildApiClient, superagentRequestFactory, DecodedResponse } from '@api-ts/superagent-wrapper';
type IsAny<T> = 0 extends 1 & T ? true : false;
type Norm<T> = IsAny<T> extends true ? { 'any': never } : T extends Date | Function ? T : T extends readonly unknown[] ? { [K in keyof T]: Norm<T[K]> } : T extends object ? { [K in keyof T]-?: [Norm<T[K]>, {} extends Pick<T, K> ? 'optional' : 'required'] } : T;
type Same<A, B> = [Norm<A>] extends [Norm<B>] ? ([Norm<B>] extends [Norm<A>] ? true : false) : false;
declare function same<A, B>(ok: Same<A, B>): void;
declare function typeOf<A>(x: A): A;
`;
// statements: [{ code (one line), bad: boolean }]; all good ones must compile, each bad one must not
function judge(statements, t) {
  const head = PRELUDE.split('\n').length - 1;
  const source = PRELUDE + statements.map((s) => s.code.replace(/\n/g, ' ')).join('\n') + '\n';
  const errors = typecheck(source);
  const at = new Map();
  for (const e of errors) { t.assert(e.line >= head, () => `the preamble does not compile: ${e.message}`); const i = e.line - head; if (!at.has(i)) at.set(i, e.message); }
  const listing = () => statements.map((s) => s.code).join('\n').slice(0, 5000);
  statements.forEach((s, i) => {
    if (s.bad) t.assert(at.has(i), () => `this compiles, but ${s.bad}: ${s.code}\n${listing()}`);
    else t.assert(!at.has(i), () => `this does not compile: ${s.code}\n${at.get(i)}\n${listing()}`);
  });
  return errors.length;
}
module.exports = { typecheck, judge, PRELUDE };
