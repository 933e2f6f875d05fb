'use strict';
const fs = require('fs');
const path = require('path');
const { runProp, makeEnv, current } = require('./harness');
const { ser } = require('./ser');

const [checkId, buildDir, shard, shards, tier, seed, outFile, only] = process.argv.slice(2);

const out = [];
function finish() {
  fs.writeFileSync(outFile, JSON.stringify(out));
  process.exit(0);
}
// An exception that escapes the code under test would end a real server or build process.
for (const ev of ['uncaughtException', 'unhandledRejection'])
  process.on(ev, (e) => {
    if (!current.prop) { fs.writeFileSync(outFile + '.err', (e && e.stack) || String(e)); process.exit(3); }
    out.push({
      prop: current.prop.name, evaluations: 1, nontrivial: [], labels: {}, samples: [], excluded: {}, ms: 0,
      failure: { prop: current.prop.name, case: ser(current.case), message: `${ev} escaped while this case ran: ${(e && e.stack) || String(e)}` },
    });
    finish();
  });
// The case being run is left in a file, so that the parent can name the one that never ends.
current.beat = (prop, c) => fs.writeFileSync(outFile + '.beat', JSON.stringify({ prop: prop.name, case: ser(c) }));

(async () => {
  const check = require(path.join(__dirname, '..', 'checks', checkId + '.js'));
  const env = makeEnv(buildDir);
  for (const prop of check.props) {
    if (only && prop.name !== only) continue;
    let sh = Number(shard), shs = Number(shards);
    if (prop.maxShards && prop.maxShards < shs) {
      if (sh >= prop.maxShards) continue;
      shs = prop.maxShards;
    }
    const t0 = Date.now();
    const { stats, failure } = await runProp(prop, env, { tier, seed, shard: sh, shards: shs });
    out.push({
      prop: prop.name,
      evaluations: stats.evaluations,
      nontrivial: [...stats.nontrivial],
      labels: stats.labels,
      samples: stats.samples,
      excluded: stats.excluded,
      enumerated: !!stats.enumerated,
      ms: Date.now() - t0,
      failure: failure && { ...failure, case: ser(failure.case) },
    });
    if (failure) break;
  }
  finish();
})().catch((e) => {
  fs.writeFileSync(outFile + '.err', (e && e.stack) || String(e));
  process.exit(3);
});
