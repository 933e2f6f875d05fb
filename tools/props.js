'use strict';
// Writes properties.jsonl and MANIFEST.json from the one list below.   node tools/props.js
const fs = require('fs');
const path = require('path');
const ROOT = path.join(__dirname, '..');
const PBT = 'property-based testing';
const P = [];
const prop = (id, title, statement, over, text, why, files, mechanism, check) =>
  P.push({ id, title, statement, quantifier: { over, text }, why_tests_cant: why, anchors: { files, mechanism: mechanism.map(([name, where]) => ({ name, where })) }, check });
module.exports = { prop };
require('./props-list')(prop);
P.sort((a, b) => (a.id < b.id ? -1 : 1));

fs.writeFileSync(path.join(ROOT, 'properties.jsonl'), P.map(({ check, ...p }) => JSON.stringify(p)).join('\n') + '\n');
const built = P.filter((p) => fs.existsSync(path.join(ROOT, 'checks', p.id + '.js')));
const manifest = {
  version: 1,
  setup_cmd: 'node lib/selftest.js',
  checks: built.map((p) => ({
    property: p.id,
    quick_cmd: `node lib/run.js ${p.id}`,
    thorough_cmd: `VERIF_TIER=thorough node lib/run.js ${p.id}`,
    evidence_file: `evidence/${p.id}.json`,
    technique: `${PBT} (fast-check): ${p.check.technique}`,
    level: 'exploration',
    level_note: p.check.note,
  })),
  not_applicable: P.filter((p) => !built.includes(p)).map((p) => ({ property: p.id, reason: p.check.reason || 'the check for this property is not built yet' })),
};
fs.writeFileSync(path.join(ROOT, 'MANIFEST.json'), JSON.stringify(manifest, null, 1) + '\n');
console.log(`${P.length} properties, ${built.length} claimed`);
