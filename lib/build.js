'use strict';
// Transpiles the current working tree of /repo/packages/*/src into a throw-away directory laid
// out like a built monorepo, so that a check always runs the code as it is now (never a stale dist/).
const fs = require('fs');
const path = require('path');

const REPO = process.env.VERIF_REPO || '/repo';

function walk(dir, out = []) {
  for (const e of fs.readdirSync(dir, { withFileTypes: true })) {
    const p = path.join(dir, e.name);
    if (e.isDirectory()) walk(p, out);
    else out.push(p);
  }
  return out;
}

function compilerOptions(ts, pkgDir) {
  const read = (f) => {
    const { config, error } = ts.readConfigFile(f, ts.sys.readFile);
    if (error) throw new Error(`cannot read ${f}`);
    return config;
  };
  const parsed = ts.parseJsonConfigFileContent(
    read(path.join(pkgDir, 'tsconfig.json')),
    { ...ts.sys, readDirectory: () => [] },
    pkgDir,
  );
  const o = { ...parsed.options };
  for (const k of ['composite', 'incremental', 'declaration', 'declarationMap', 'outDir', 'rootDir', 'tsBuildInfoFile', 'sourceMap', 'configFilePath', 'noEmit', 'emitDeclarationOnly'])
    delete o[k];
  o.module = ts.ModuleKind.CommonJS;
  o.inlineSourceMap = false;
  return o;
}

function buildTree(dest) {
  const ts = require(path.join(REPO, 'node_modules/typescript'));
  const nm = path.join(dest, 'node_modules');
  fs.mkdirSync(path.join(nm, '@api-ts'), { recursive: true });
  for (const e of fs.readdirSync(path.join(REPO, 'node_modules'))) {
    if (e === '@api-ts' || e.startsWith('.')) continue;
    fs.symlinkSync(path.join(REPO, 'node_modules', e), path.join(nm, e));
  }
  for (const name of fs.readdirSync(path.join(REPO, 'packages'))) {
    const pkgDir = path.join(REPO, 'packages', name);
    const pj = path.join(pkgDir, 'package.json');
    if (!fs.existsSync(pj)) continue;
    const out = path.join(dest, 'packages', name);
    fs.mkdirSync(out, { recursive: true });
    fs.copyFileSync(pj, path.join(out, 'package.json'));
    const scoped = JSON.parse(fs.readFileSync(pj, 'utf8')).name;
    fs.symlinkSync(out, path.join(nm, scoped));
    if (fs.existsSync(path.join(pkgDir, 'node_modules')))
      fs.symlinkSync(path.join(pkgDir, 'node_modules'), path.join(out, 'node_modules'));
    const options = compilerOptions(ts, pkgDir);
    for (const f of walk(path.join(pkgDir, 'src'))) {
      const rel = path.relative(pkgDir, f);
      const to = path.join(out, 'dist', rel);
      fs.mkdirSync(path.dirname(to), { recursive: true });
      if (/\.d\.ts$/.test(f)) continue;
      if (/\.ts$/.test(f)) {
        const r = ts.transpileModule(fs.readFileSync(f, 'utf8'), {
          fileName: f,
          compilerOptions: options,
          reportDiagnostics: true,
        });
        if (r.diagnostics && r.diagnostics.length)
          throw new Error(`cannot transpile ${f}: ${ts.flattenDiagnosticMessageText(r.diagnostics[0].messageText, '\n')}`);
        fs.writeFileSync(to.replace(/\.ts$/, '.js'), r.outputText);
      } else fs.copyFileSync(f, to);
    }
  }
  return dest;
}

module.exports = { buildTree, REPO };
