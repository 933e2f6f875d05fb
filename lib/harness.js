'use strict';
// Executes the sub-properties of one check over generated cases, in one process (one shard).
const crypto = require('crypto');
const path = require('path');
const { createRequire } = require('module');
const { ser, deser, show } = require('./ser');

const FC_PATH = '/opt/veriftools/node/node_modules/fast-check';
const fc = require(FC_PATH);

class Violation extends Error {}
class Excluded extends Error {}

function hash(s) {
  return crypto.createHash('sha1').update(s).digest('hex').slice(0, 14);
}
function seedOf(...parts) {
  return crypto.createHash('sha1').update(parts.join('|')).digest().readInt32LE(0);
}

function makeEnv(buildDir) {
  const req = createRequire(path.join(buildDir, 'package.json'));
  return {
    buildDir,
    fc,
    req, // resolve a module as the built packages would
    pkg: (name) => req(path.join(buildDir, 'packages', name)),
    pkgDir: (name) => path.join(buildDir, 'packages', name),
  };
}

function newStats() {
  return { evaluations: 0, nontrivial: new Set(), trivial: 0, labels: {}, samples: [], excluded: {} };
}

// t: the object a property's check function reports to.
function reporter() {
  return {
    labels: new Set(),
    nt: false,
    key: undefined,
    count: 1,
    label(...l) { for (const x of l) if (x) this.labels.add(String(x)); },
    nontrivial(key) { this.nt = true; if (key !== undefined) this.key = key; },
    fail(msg) { throw new Violation(msg); },
    assert(c, msg) { if (!c) throw new Violation(typeof msg === 'function' ? msg() : msg); },
    exclude(why) { throw new Excluded(why); },
  };
}

const current = { prop: undefined, case: undefined, beat: undefined };

async function runCase(prop, c, env) {
  const t = reporter();
  current.prop = prop;
  current.case = c;
  if (prop.watch && current.beat) current.beat(prop, c);
  await prop.check(deser(ser(c)), t, env); // a copy: the code under test may write to what it is given
  return t;
}

function record(stats, prop, c, t) {
  stats.evaluations += t.count;
  for (const l of t.labels) stats.labels[l] = (stats.labels[l] || 0) + 1;
  if (t.nt) {
    const k = hash(prop.name + '|' + (t.key !== undefined ? t.key : show(c, 1e9)));
    if (!stats.nontrivial.has(k)) {
      stats.nontrivial.add(k);
      if (stats.samples.length < 2 || (stats.samples.length < 4 && stats.nontrivial.size % 50 === 0)) {
        const s = prop.sample ? prop.sample(c) : ser(c);
        const str = JSON.stringify(s);
        stats.samples.push({ prop: prop.name, case: str.length > 1500 ? str.slice(0, 1500) + '…' : s });
      }
    }
  }
}

const SHRINK_MS = Number(process.env.VERIF_SHRINK_MS || 30000);

// Runs prop's share of cases for this shard; returns undefined or a failure {case, message}.
async function runProp(prop, env, { tier, seed, shard, shards }) {
  const stats = newStats();
  let failure;
  const fail = (c, e) => ({
    prop: prop.name,
    case: c,
    message: e instanceof Violation ? e.message : (e && e.stack) || String(e),
  });
  if (prop.setup) await prop.setup(env);
  try {
    if (prop.enumerate) {
      const all = prop.enumerate(env, tier);
      for (let i = shard; i < all.length; i += shards) {
        try {
          const t = await runCase(prop, all[i], env);
          record(stats, prop, all[i], t);
        } catch (e) {
          if (e instanceof Excluded) { stats.excluded[e.message] = (stats.excluded[e.message] || 0) + 1; continue; }
          failure = fail(all[i], e);
          break;
        }
      }
      stats.enumerated = true;
      return { stats, failure };
    }
    const total = (tier === 'thorough' ? prop.runs.thorough : prop.runs.quick) || 100;
    const n = Math.floor(total / shards) + (shard < total % shards ? 1 : 0);
    if (n === 0) return { stats };
    let failedAt = 0;
    const arb = prop.arb(fc, env, tier);
    const p = fc.asyncProperty(arb, async (c) => {
      if (failedAt && Date.now() - failedAt > SHRINK_MS) return; // stop shrinking: keep the best so far
      try {
        const t = await runCase(prop, c, env);
        if (!failedAt) record(stats, prop, c, t);
      } catch (e) {
        if (e instanceof Excluded) {
          if (!failedAt) stats.excluded[e.message] = (stats.excluded[e.message] || 0) + 1;
          return;
        }
        if (!failedAt) failedAt = Date.now();
        throw e;
      }
    });
    const details = await fc.check(p, {
      seed: seedOf(seed, prop.name, shard),
      numRuns: n,
      endOnFailure: false,
      verbose: 0,
    });
    if (details.failed) {
      const c = details.counterexample && details.counterexample[0];
      failure = fail(c, details.errorInstance || new Error('failed'));
      failure.fc = { seed: details.seed, path: details.counterexamplePath, numShrinks: details.numShrinks };
    }
    return { stats, failure };
  } finally {
    if (prop.teardown) await prop.teardown(env);
  }
}

module.exports = { current, runProp, runCase, makeEnv, Violation, Excluded, hash, seedOf, newStats, fc };
