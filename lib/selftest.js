'use strict';
// setup_cmd: confirms that what the checks need is here and that /repo can be transpiled. Nothing is kept.
const fs = require('fs');
const os = require('os');
const path = require('path');
const { buildTree } = require('./build');
const dir = fs.mkdtempSync(path.join(os.tmpdir(), 'verif-selftest-'));
try {
  buildTree(path.join(dir, 'build'));
  require('./harness');
  const { ser, deser, eq } = require('./ser');
  const v = { a: [1n, undefined, new Date(0), -0], b: { c: 'x' } };
  if (!eq(deser(ser(v)), v)) throw new Error('ser/deser');
  console.log('ok');
} finally {
  fs.rmSync(dir, { recursive: true, force: true });
}
