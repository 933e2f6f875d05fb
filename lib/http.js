'use strict';
// One loopback server per process whose handler is replaced for every case, and a raw HTTP/1.1 client.
const http = require('http');

let state;
async function server() {
  if (state) return state;
  const s = http.createServer((req, res) => state.handler(req, res));
  s.keepAliveTimeout = 0;
  s.requestTimeout = 0;
  s.headersTimeout = 0;
  s.timeout = 0;
  s.on('clientError', (e, sock) => sock.destroy());
  await new Promise((r) => s.listen(0, '127.0.0.1', r));
  s.unref();
  state = { s, port: s.address().port, agent: new http.Agent({ keepAlive: true, maxSockets: 64 }), handler: undefined };
  return state;
}

// Sends one request; resolves to {status, headers, text} or {error}.
async function send({ method = 'GET', path = '/', headers = {}, body, timeout = 15000 }) {
  const st = await server();
  return new Promise((resolve) => {
    const req = http.request({ host: '127.0.0.1', port: st.port, method, path, headers, agent: st.agent }, (res) => {
      const chunks = [];
      res.on('data', (c) => chunks.push(c));
      res.on('end', () => resolve({ status: res.statusCode, headers: res.headers, text: Buffer.concat(chunks).toString('utf8') }));
      res.on('aborted', () => resolve({ error: 'response aborted' }));
      res.on('error', (e) => resolve({ error: String(e.code || e.message) }));
    });
    req.setTimeout(timeout, () => { resolve({ error: `no response within ${timeout} ms` }); req.destroy(); });
    req.on('error', (e) => resolve({ error: String(e.code || e.message) }));
    if (body !== undefined) req.write(body);
    req.end();
  });
}

async function use(handler) {
  const st = await server();
  st.handler = handler;
  return st;
}

// Express prints unhandled route errors unless the environment is "test", which the runner sets.
module.exports = { server, send, use };
