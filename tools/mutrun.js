'use strict';
// used by mutrun.sh
const fs = require('fs'), { spawnSync } = require('child_process');
const [, , list, out] = process.argv;
const CHECKS = [
  [/io-ts-http\/src\/(combinators|httpRequest)/, 'C01 C02 C03 C04 C13 C15'], [/io-ts-http\/src\/(utils|httpRoute)/, 'C15 C13 C01 C02'], [/io-ts-http\/src/, 'C05 C13 C10'],
  [/typed-express-router\/src/, 'C06 C07 C08 C09 C13'], [/express-wrapper\/src/, 'C10 C11 C12 C13'], [/superagent-wrapper\/src/, 'C14 C15 C13'], [/response\/src/, 'C05 C10'],
  [/openapi-generator\/src\/(jsdoc|comments)/, 'C24 C27 C28 C20 C26 C23 C25 C22'], [/openapi-generator\/src\/(route|apiSpec)/, 'C22 C25 C26 C20 C24 C23 C27 C28'],
  [/openapi-generator\/src\/(resolveInit|ref|project|symbol|sourceFile)/, 'C23 C26 C25 C28 C20 C24 C22 C27'], [/openapi-generator\/src\/(cli|packageInfo)/, 'C28 C23 C22 C25 C26 C27 C24 C20'],
  [/openapi-generator\/src\/(ir|openapi|optimize)/, 'C21 C20 C24 C27 C28 C26 C25 C22'], [/openapi-generator/, 'C25 C20 C24 C28 C26 C27 C23 C22'],
];
const sh = (cmd, env = {}) => spawnSync('bash', ['-c', cmd], { encoding: 'utf8', env: { ...process.env, ...env }, maxBuffer: 1 << 28 });
for (const line of fs.readFileSync(list, 'utf8').split('\n').filter(Boolean)) {
  const m = JSON.parse(line), file = '/repo/packages/' + m.file, src = fs.readFileSync(file, 'utf8');
  fs.writeFileSync(file, src.slice(0, m.start) + m.text + src.slice(m.end));
  const r = { ...m };
  try {
    const pkg = file.replace(/\/src\/.*/, ''), fast = process.env.MUTFAST;
    r.build = sh(fast ? `cd ${pkg}; npx tsc --noEmit -p .` : 'bash /opt/vp/build.sh').status === 0;
    if (r.build) {
      const t = sh(!fast ? 'bash /verif/tools/tests.sh' : /generator/.test(pkg) ? `cd ${pkg}; node --require @swc-node/register --test test/*.test.ts test/**/*.test.ts` : `bash /opt/vp/build.sh; bash /verif/tools/tests.sh`);
      r.tests = t.status === 0;
      if (r.tests && !process.env.MUTNOCHECK) {
        r.caught = null;
        for (const c of (/^type/.test(m.what) ? 'C16 C17' : CHECKS.find(([re]) => re.test(m.file))[1]).split(' ')) {
          const k = sh(`timeout 900 node lib/run.js ${c} 2>&1`, { VERIF_SEED: '1', VERIF_TIER: 'quick', VERIF_SHRINK_MS: '500' });
          if (k.status !== 0) { r.caught = c; r.why = (k.stdout || '').slice(0, 300); break; }
        }
      }
    }
  } finally { fs.writeFileSync(file, src); }
  fs.appendFileSync(out, JSON.stringify(r) + '\n');
}
