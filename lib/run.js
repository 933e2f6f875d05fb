'use strict';
// node lib/run.js <property> [--replay FILE]
// exit 0: held on everything explored; exit 1 + VIOLATION line: broken; exit 2: the check itself failed.
const fs = require('fs');
const os = require('os');
const path = require('path');
const { spawn, spawnSync } = require('child_process');
const { buildTree } = require('./build');
const { deser, ser, show } = require('./ser');

const ROOT = path.join(__dirname, '..');
const id = process.argv[2];
const replayFile = process.argv[3] === '--replay' ? process.argv[4] : undefined;
const tier = process.env.VERIF_TIER === 'thorough' ? 'thorough' : 'quick';
const seed = Number.parseInt(process.env.VERIF_SEED || '1', 10) || 0;
const SHARDS = 8; // fixed, so that a run is a function of the code and the seed only
const HANG_MS = 120000;
const t0 = Date.now();

function findings() {
  const f = path.join(ROOT, 'known-findings.jsonl');
  if (!fs.existsSync(f)) return [];
  return fs.readFileSync(f, 'utf8').split('\n').filter((l) => l.trim().startsWith('{')).map((l) => JSON.parse(l));
}

function spawnWorker(args, log) {
  return new Promise((resolve) => {
    const fd = fs.openSync(log, 'w');
    const p = spawn(process.execPath, ['--max-old-space-size=3000', '--no-warnings', path.join(__dirname, 'worker.js'), ...args], {
      stdio: ['ignore', fd, fd],
      env: { ...process.env, TZ: 'UTC', NODE_ENV: 'test' },
    });
    current.add(p);
    p.on('exit', (code, sig) => { current.delete(p); fs.closeSync(fd); resolve({ code, sig }); });
  });
}
const current = new Set();

async function main() {
  const scratch = fs.mkdtempSync(path.join(os.tmpdir(), `verif-${id}-`));
  const cleanup = () => { for (const p of current) p.kill('SIGKILL'); spawnSync('rm', ['-rf', '--', scratch], { stdio: 'ignore', timeout: 60000 }); };
  process.on('exit', cleanup);
  for (const s of ['SIGINT', 'SIGTERM']) process.on(s, () => process.exit(2));
  const build = path.join(scratch, 'build');
  buildTree(build);
  const check = require(path.join(ROOT, 'checks', id + '.js'));

  const replayDir = path.join(ROOT, 'replays');
  fs.mkdirSync(replayDir, { recursive: true });
  const { makeEnv, runCase } = require('./harness');

  const violation = (f) => {
    const file = path.join(replayDir, `${id}-${f.prop}-${Date.now()}.json`);
    fs.writeFileSync(file, JSON.stringify({ property: id, prop: f.prop, case: f.case, message: f.message, fc: f.fc, seed, tier }, null, 1));
    console.log(`[${id}/${f.prop}] ${String(f.message).slice(0, 3000)}`);
    console.log(`case: ${JSON.stringify(f.case).slice(0, 3000)}`);
    console.log(`VIOLATION property=${id} replay=${file}`);
  };

  if (replayFile) {
    const r = JSON.parse(fs.readFileSync(replayFile, 'utf8'));
    const prop = check.props.find((p) => p.name === r.prop);
    const env = makeEnv(build);
    if (prop.setup) await prop.setup(env);
    try {
      await runCase(prop, deser(r.case), env);
      console.log('replay: the property holds on this case');
      process.exit(0);
    } catch (e) {
      console.log(`[${id}/${r.prop}] ${e.stack}`);
      console.log(`VIOLATION property=${id} replay=${replayFile}`);
      process.exit(1);
    }
  }

  const only = process.env.VERIF_ONLY || '';
  const results = [], errors = [], failures = [];
  const shards = check.shards || SHARDS;
  await Promise.all(
    Array.from({ length: shards }, async (_, i) => {
      const out = path.join(scratch, `out.${i}.json`), log = path.join(scratch, `log.${i}`);
      const limit = setInterval(() => {
        try {
          const b = out + '.beat';
          if (fs.existsSync(b) && !fs.existsSync(out) && Date.now() - fs.statSync(b).mtimeMs > HANG_MS) {
            const c = JSON.parse(fs.readFileSync(b, 'utf8'));
            failures.push({ ...c, message: `this case did not finish within ${HANG_MS / 1000} s (cases of this property take milliseconds)` });
            for (const p of current) p.kill('SIGKILL');
          }
        } catch {}
      }, 2000);
      const { code, sig } = await spawnWorker([id, build, i, shards, tier, seed, out, only].map(String), log);
      clearInterval(limit);
      if (code !== 0) {
        if (failures.length) return;
        const err = fs.existsSync(out + '.err') ? fs.readFileSync(out + '.err', 'utf8') : '';
        errors.push(`worker ${i} ended with ${code ?? sig}: ${err || fs.readFileSync(log, 'utf8').slice(-2000)}`);
        return;
      }
      const rs = JSON.parse(fs.readFileSync(out, 'utf8'));
      for (const r of rs) {
        results.push(r);
        if (r.failure) failures.push(r.failure);
      }
      if (failures.length) for (const p of current) p.kill('SIGKILL');
      if (process.env.VERIF_LOGS) process.stderr.write(fs.readFileSync(log, 'utf8'));
    }),
  );

  // Re-run each listed finding: it must still be the case that is listed, and only that.
  const known = findings().filter((k) => k.property === id && k.status === 'known');
  const confirmed = [];
  if (known.length) {
    const env = makeEnv(build);
    for (const k of known) {
      const prop = check.props.find((p) => p.name === k.prop);
      if (prop.setup) await prop.setup(env);
      let what;
      try { await runCase(prop, deser(k.case), env); } catch (e) { what = e.message; }
      if (prop.teardown) await prop.teardown(env);
      if (what) { console.log(`KNOWN-FINDING: property=${id} ${k.what}`); confirmed.push(k.what); }
      else console.log(`note: listed finding no longer occurs: ${k.what}`);
    }
  }

  const labels = {}, excluded = {}, perProp = {};
  const nontrivial = new Set();
  let evaluations = 0;
  const samples = [];
  for (const r of results) {
    evaluations += r.evaluations;
    for (const h of r.nontrivial) nontrivial.add(h);
    for (const [k, v] of Object.entries(r.labels)) labels[`${r.prop}: ${k}`] = (labels[`${r.prop}: ${k}`] || 0) + v;
    for (const [k, v] of Object.entries(r.excluded)) excluded[k] = (excluded[k] || 0) + v;
    const p = (perProp[r.prop] = perProp[r.prop] || { evaluations: 0, nontrivial: new Set(), max_ms: 0, enumerated: r.enumerated });
    p.evaluations += r.evaluations;
    for (const h of r.nontrivial) p.nontrivial.add(h);
    p.max_ms = Math.max(p.max_ms, r.ms);
  }
  const seen = {};
  for (const r of results) for (const s of r.samples) if ((seen[s.prop] = (seen[s.prop] || 0) + 1) <= 3) samples.push(s);
  for (const p of Object.values(perProp)) p.nontrivial = p.nontrivial.size;
  const evidence = {
    property: id,
    tier,
    seed,
    level: 'exploration',
    coverage: {
      evaluations,
      distinct_nontrivial: nontrivial.size,
      rule: check.rule,
      samples,
      per_property: perProp,
      classes: Object.fromEntries(Object.entries(labels).sort()),
      excluded_known: excluded,
      shards,
      known_findings_confirmed: confirmed,
    },
    assumptions: check.assumptions || [],
    wall_s: (Date.now() - t0) / 1000,
    violations: failures.length,
  };
  fs.mkdirSync(path.join(ROOT, 'evidence'), { recursive: true });
  fs.writeFileSync(path.join(ROOT, 'evidence', `${id}.json`), JSON.stringify(evidence, null, 1));

  if (failures.length) { violation(failures[0]); process.exit(1); }
  if (errors.length) { console.error(errors.join('\n')); process.exit(2); }
  if (!evaluations) { console.error('nothing was evaluated'); process.exit(2); }
  if (process.env.VERIF_STATS) console.log(JSON.stringify(evidence.coverage.classes, null, 1), JSON.stringify(perProp));
  console.log(`${id}: held on ${evaluations} cases (${nontrivial.size} distinct non-trivial), ${evidence.wall_s}s`);
  process.exit(0);
}

main().catch((e) => { console.error((e && e.stack) || e); process.exit(2); });
