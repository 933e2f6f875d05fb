'use strict';
// The structure the OpenAPI Specification 3.0.3 prescribes for a document. problems(doc) lists what is wrong.
// One convention of this generator is let through: { nullable: true, enum: [] } stands for null.
const has = (o, k) => Object.prototype.hasOwnProperty.call(o, k);
const isObj = (x) => x !== null && typeof x === 'object' && !Array.isArray(x);
const METHODS = new Set(['get', 'put', 'post', 'delete', 'options', 'head', 'patch', 'trace']);
const TYPES = new Set(['string', 'number', 'integer', 'boolean', 'object', 'array']);
const SCHEMA = {
  title: 'string', description: 'string', format: 'string', pattern: 'pattern',
  multipleOf: 'positive', maximum: 'number', minimum: 'number', exclusiveMaximum: 'boolean', exclusiveMinimum: 'boolean',
  maxLength: 'count', minLength: 'count', maxItems: 'count', minItems: 'count', uniqueItems: 'boolean', maxProperties: 'count', minProperties: 'count',
  required: 'names', enum: 'enum', type: 'type', not: 'schema', allOf: 'schemas', oneOf: 'schemas', anyOf: 'schemas', items: 'schema', properties: 'map', additionalProperties: 'additional',
  nullable: 'boolean', readOnly: 'boolean', writeOnly: 'boolean', deprecated: 'boolean', default: 'any', example: 'any', discriminator: 'any', xml: 'any', externalDocs: 'any',
};

function problems(doc) {
  const out = [];
  const bad = (at, what) => { if (out.length < 20) out.push(`${at}: ${what}`); };
  const keys = (o, at, allowed) => { for (const k of Object.keys(o)) if (!allowed.includes(k) && !k.startsWith('x-')) bad(at, `unknown field ${k}`); };
  const text = (v, at) => { if (typeof v !== 'string') bad(at, `not a string: ${JSON.stringify(v)}`); };
  const schemas = (isObj(doc.components) && doc.components.schemas) || {};

  const schema = (s, at) => {
    if (!isObj(s)) return bad(at, `not a schema: ${JSON.stringify(s)}`);
    if (has(s, '$ref')) {
      if (Object.keys(s).length > 1) bad(at, `$ref beside ${Object.keys(s).filter((k) => k !== '$ref')}`);
      const m = /^#\/components\/schemas\/([A-Za-z0-9._-]+)$/.exec(s.$ref);
      if (!m) bad(at, `$ref ${JSON.stringify(s.$ref)}`);
      else if (!has(schemas, m[1])) bad(at, `$ref to ${m[1]}, which does not exist`);
      return;
    }
    const isNull = s.nullable === true && Array.isArray(s.enum) && s.enum.length === 0;
    for (const [k, v] of Object.entries(s)) {
      if (k.startsWith('x-')) continue;
      const here = `${at}.${k}`;
      switch (has(SCHEMA, k) ? SCHEMA[k] : undefined) {
        case 'string': text(v, here); break;
        case 'pattern': text(v, here); try { new RegExp(v, 'u'); } catch (e) { try { new RegExp(v); } catch (f) { bad(here, `not a regular expression: ${v}`); } } break;
        case 'boolean': if (typeof v !== 'boolean') bad(here, `not a boolean: ${JSON.stringify(v)}`); break;
        case 'number': if (typeof v !== 'number') bad(here, `not a number: ${JSON.stringify(v)}`); break;
        case 'positive': if (typeof v !== 'number' || v <= 0) bad(here, `not a positive number: ${JSON.stringify(v)}`); break;
        case 'count': if (!Number.isInteger(v) || v < 0) bad(here, `not a count: ${JSON.stringify(v)}`); break;
        case 'names': if (!Array.isArray(v) || v.length === 0 || v.some((x) => typeof x !== 'string') || new Set(v).size !== v.length) bad(here, `not a list of different names: ${JSON.stringify(v)}`); break;
        case 'enum': if (!Array.isArray(v) || (v.length === 0 && !isNull) || new Set(v.map((x) => JSON.stringify(x))).size !== v.length) bad(here, `not a list of different values: ${JSON.stringify(v)}`); break;
        case 'type': if (!TYPES.has(v)) bad(here, `unknown type ${JSON.stringify(v)}`); break;
        case 'schema': schema(v, here); break;
        case 'schemas': if (!Array.isArray(v) || v.length === 0) bad(here, `not a list of schemas: ${JSON.stringify(v)}`); else v.forEach((x, i) => schema(x, `${here}[${i}]`)); break;
        case 'map': if (!isObj(v)) bad(here, 'not a map'); else for (const [n, x] of Object.entries(v)) schema(x, `${here}.${n}`); break;
        case 'additional': if (typeof v !== 'boolean') schema(v, here); break;
        case 'any': break;
        default: bad(at, `unknown field ${k}`);
      }
    }
    if (s.type === 'array' && !has(s, 'items')) bad(at, 'an array without items');
    if (s.enum && s.type) for (const e of s.enum) { const ty = e === null ? 'null' : Array.isArray(e) ? 'array' : typeof e; if (ty !== (s.type === 'integer' ? 'number' : s.type) && !(e === null && s.nullable)) bad(at, `${JSON.stringify(e)} is not a ${s.type}`); }
  };
  const content = (c, at) => {
    if (!isObj(c) || Object.keys(c).length === 0) return bad(at, 'no media types');
    for (const [m, x] of Object.entries(c)) {
      if (!/^[\w!#$&^.+-]+\/[\w!#$&^.+-]+$/.test(m)) bad(at, `media type ${m}`);
      if (!isObj(x)) { bad(`${at}.${m}`, 'not an object'); continue; }
      keys(x, `${at}.${m}`, ['schema', 'example', 'examples', 'encoding']);
      if (has(x, 'schema')) schema(x.schema, `${at}.${m}.schema`);
    }
  };

  keys(doc, 'document', ['openapi', 'info', 'servers', 'paths', 'components', 'security', 'tags', 'externalDocs']);
  if (doc.openapi !== '3.0.3') bad('openapi', JSON.stringify(doc.openapi));
  if (!isObj(doc.info)) bad('info', 'missing');
  else { keys(doc.info, 'info', ['title', 'description', 'termsOfService', 'contact', 'license', 'version']); text(doc.info.title, 'info.title'); text(doc.info.version, 'info.version'); if (has(doc.info, 'description')) text(doc.info.description, 'info.description'); }
  if (has(doc, 'servers')) {
    if (!Array.isArray(doc.servers) || !doc.servers.length) bad('servers', 'not a list of servers');
    else doc.servers.forEach((s, i) => { keys(s, `servers[${i}]`, ['url', 'description', 'variables']); text(s.url, `servers[${i}].url`); if (has(s, 'description')) text(s.description, `servers[${i}].description`); });
  }
  if (has(doc, 'components')) {
    keys(doc.components, 'components', ['schemas', 'responses', 'parameters', 'examples', 'requestBodies', 'headers', 'securitySchemes', 'links', 'callbacks']);
    for (const [n, s] of Object.entries(schemas)) {
      if (!/^[A-Za-z0-9._-]+$/.test(n)) bad('components.schemas', `a component cannot be called ${JSON.stringify(n)}`);
      schema(s, `components.schemas.${n}`);
    }
  }
  if (!isObj(doc.paths)) bad('paths', 'missing');
  for (const [path, item] of Object.entries(doc.paths || {})) {
    if (!path.startsWith('/')) bad('paths', `path ${path}`);
    const vars = [...path.matchAll(/\{([^}]*)\}/g)].map((m) => m[1]);
    for (const [method, op] of Object.entries(item)) {
      const at = `${method} ${path}`;
      if (!METHODS.has(method)) { bad(at, 'not a method'); continue; }
      keys(op, at, ['tags', 'summary', 'description', 'externalDocs', 'operationId', 'parameters', 'requestBody', 'responses', 'callbacks', 'deprecated', 'security', 'servers']);
      for (const k of ['summary', 'description', 'operationId']) if (has(op, k)) text(op[k], `${at} ${k}`);
      if (has(op, 'tags') && (!Array.isArray(op.tags) || op.tags.some((x) => typeof x !== 'string'))) bad(at, `tags ${JSON.stringify(op.tags)}`);
      const seen = new Set();
      if (has(op, 'parameters') && !Array.isArray(op.parameters)) bad(at, 'parameters');
      for (const p of op.parameters || []) {
        const pa = `${at} parameter ${p.in} ${p.name}`;
        keys(p, pa, ['name', 'in', 'description', 'required', 'deprecated', 'allowEmptyValue', 'style', 'explode', 'allowReserved', 'schema', 'example', 'examples', 'content']);
        text(p.name, pa);
        if (!['path', 'query', 'header', 'cookie'].includes(p.in)) bad(pa, `in ${p.in}`);
        if (has(p, 'description')) text(p.description, pa);
        if (has(p, 'required') && typeof p.required !== 'boolean') bad(pa, 'required');
        if (p.in === 'path' && p.required !== true) bad(pa, 'a path parameter that is not required');
        if (p.in === 'path' && !vars.includes(p.name)) bad(pa, 'is not in the path');
        if (!has(p, 'schema') && !has(p, 'content')) bad(pa, 'no schema');
        else schema(p.schema, pa);
        const id = JSON.stringify([p.in, p.in === 'header' ? String(p.name).toLowerCase() : p.name]);
        if (seen.has(id)) bad(pa, 'declared twice');
        seen.add(id);
      }
      for (const v of vars) if (!seen.has(JSON.stringify(['path', v]))) bad(at, `the path has {${v}}, which is no parameter`);
      if (has(op, 'requestBody')) {
        if (!isObj(op.requestBody)) bad(at, 'requestBody');
        else { keys(op.requestBody, `${at} requestBody`, ['description', 'content', 'required']); content(op.requestBody.content, `${at} requestBody`); }
      }
      if (!isObj(op.responses) || !Object.keys(op.responses).length) bad(at, 'no responses');
      for (const [code, r] of Object.entries(op.responses || {})) {
        const ra = `${at} response ${code}`;
        if (!/^([1-5]\d\d|[1-5]XX|default)$/.test(code)) bad(ra, 'not a status');
        keys(r, ra, ['description', 'headers', 'content', 'links']);
        text(r.description, ra);
        if (has(r, 'content')) content(r.content, ra);
      }
    }
  }
  return out;
}
module.exports = { problems };
