'use strict';
// Generated route paths, their parameters, and requests for them.
const C = require('./codec');
const { fc } = require('./harness');

const PARAM_NAMES = ['id', 'name', 'a', 'b0', 'foo_bar', 'X1', 'type', 'p'];
const SEGMENTS = ['api', 'v1', 'users', 'a', 'foo-bar', 'x_y', 'Foo', '0', 'query'];

// a path as segments: {lit} | {param}, the latter possibly with literal text around it (pre, post)
const pathDesc = ({ maxSeg = 4, maxParams = 3 } = {}) =>
  fc.tuple(fc.array(fc.oneof({ weight: 7, arbitrary: fc.constantFrom(...SEGMENTS).map((lit) => ({ lit })) }, { weight: 4, arbitrary: fc.record({ param: fc.constant(true), pre: fc.constantFrom('', '', '', '', 'v', 'x-'), post: fc.constantFrom('', '', '', '', '.json', '-end') }) }), { maxLength: maxSeg }), fc.shuffledSubarray(PARAM_NAMES, { minLength: maxParams, maxLength: maxParams })).map(([segs, names]) => {
    let i = 0;
    return segs.map((s) => (s.param && i < names.length ? { param: names[i++], ...(s.pre && { pre: s.pre }), ...(s.post && { post: s.post }) } : s.param ? { lit: 'x' } : s));
  });
const pathString = (segs) => '/' + segs.map((s) => (s.lit !== undefined ? s.lit : `${s.pre || ''}{${s.param}}${s.post || ''}`)).join('/');
const paramsOf = (segs) => segs.filter((s) => s.param !== undefined).map((s) => s.param);
const fill = (segs, values, enc = encodeURIComponent) => '/' + segs.map((s) => enc(segmentText(s, values))).join('/');
const segmentText = (s, values) => (s.lit !== undefined ? s.lit : `${s.pre || ''}${values[s.param]}${s.post || ''}`);

// query string in the form clients send: repeated keys for arrays
const queryString = (q) => {
  const parts = [];
  for (const [k, v] of Object.entries(q)) for (const x of Array.isArray(v) ? v : [v]) parts.push(`${encodeURIComponent(k)}=${encodeURIComponent(x)}`);
  return parts.length ? '?' + parts.join('&') : '';
};
// characters that may appear in an HTTP header value
const headerValue = (s) => /^[\x20-\x7e]*$/.test(s) && s.trim() === s;

module.exports = { PARAM_NAMES, SEGMENTS, pathDesc, pathString, paramsOf, fill, segmentText, queryString, headerValue };
