'use strict';
const IO = 'packages/io-ts-http/src/', TER = 'packages/typed-express-router/src/', EW = 'packages/express-wrapper/src/', SA = 'packages/superagent-wrapper/src/', RS = 'packages/response/src/', OG = 'packages/openapi-generator/src/';
module.exports = (prop) => {
  prop('C01', 'HTTP request codecs round-trip every value through the wire form',
    'For every request codec built with httpRequest (or flattened) and every value of its decoded type, encoding puts each field, encoded by its own codec, into exactly the part that declares it and puts nothing undeclared anywhere. Decoding that wire form (also after a JSON round trip of the body) succeeds and gives back the fields as their own codecs decode them, with absent and undefined optional fields absent. A name that several parts declare is written to each of them by that part\'s own codec, and comes back if they all carry the same value. GenericHttpRequest accepts exactly the wire forms (string parameters, queries of strings or string arrays, optional string headers and JSON body) and keeps them as they are.',
    ['inputs', 'programs'], 'all request codecs over the io-ts/io-ts-types codec algebra (0-7 fields in 4 parts, optional or not, arrays, records, unions, intersections, nested optionalized) and all values of their decoded types, with extra keys and explicit undefined',
    'The existing tests round-trip a handful of fixed codecs with one value each; the guarantee is over all codecs and all values.',
    [IO + 'combinators.ts', IO + 'httpRequest.ts', IO + 'utils.ts'], [['flattened', IO + 'combinators.ts'], ['optionalized', IO + 'combinators.ts'], ['httpRequest', IO + 'httpRequest.ts']],
    { technique: 'generated codecs and values, field-by-field reference model and round trip', note: 'Random search over generated codecs and values against a model that composes field codecs independently; the field codecs of io-ts and io-ts-types are trusted.' });

  prop('C02', 'A request is accepted exactly when every declared field is valid',
    'Decoding an HTTP request (of any shape, trusted or hostile) succeeds exactly when query and params and every declared part are objects and each declared field is accepted by its own codec, where an absent field counts as undefined; it never throws. On success the result has exactly the declared fields with their decoded values: nothing undeclared, nothing inherited from prototypes, and no field that decoded to undefined; on failure the error is a non-empty list of validation errors.',
    ['inputs', 'programs'], 'all generated request codecs and all JSON-like inputs: near-valid, corrupted, missing or non-object parts, undeclared keys such as constructor and __proto__, prototype-less objects',
    'Tests decode a few valid and invalid requests; acceptance must match the declared fields for every codec and every possible request.',
    [IO + 'combinators.ts', IO + 'httpRequest.ts', IO + 'utils.ts'], [['flattened validate/is', IO + 'combinators.ts'], ['optionalized', IO + 'combinators.ts']],
    { technique: 'generated codecs and adversarial inputs against a reference decoder', note: 'Random search; the oracle composes what each declared field codec decides on its own. Own __proto__ keys are only checked for safety.' });

  prop('C03', 'optionalized objects: only fields that allow undefined may be missing',
    'An object codec built with optionalized (and optional) decodes, recognises and encodes exactly like the plain object type in which every property whose codec admits undefined may be absent and every other property is required. Properties that are absent or undefined are absent from decoded and encoded results, and present ones carry their own codec\'s result.',
    ['inputs', 'programs'], 'all optionalized codecs over 0-5 properties with generated codecs (admitting undefined directly, through unions, or not) and all inputs with missing, undefined, corrupt and undeclared properties',
    'Tests cover a few fixed property sets; which properties are optional is computed from arbitrary codecs.',
    [IO + 'combinators.ts', IO + 'utils.ts'], [['optionalized', IO + 'combinators.ts'], ['optional', IO + 'combinators.ts'], ['partitioning of properties', IO + 'utils.ts']],
    { technique: 'generated codecs and inputs, differential against plain io-ts type/partial', note: 'Random search with a plain io-ts codec and a field-wise model as oracles.' });

  prop('C04', 'Decoding and encoding never modify their input and are repeatable',
    'Decoding or encoding any value with an HTTP request, flattened or optionalized codec leaves that value exactly as it was (frozen inputs work as well as mutable ones), and doing it again gives an equal result.',
    ['inputs', 'programs', 'histories'], 'all generated codecs and inputs, decoded and encoded repeatedly as mutable and as deeply frozen objects',
    'No test compares an input with its state before the call; mutation only shows with particular undefined or undeclared properties.',
    [IO + 'combinators.ts'], [['removal of undefined properties', IO + 'combinators.ts']],
    { technique: 'generated codecs and inputs, deep-freeze and before/after comparison', note: 'Random search; invariant over before/after snapshots.' });

  prop('C05', 'Status names, status codes and response helpers agree everywhere',
    'Every status name maps to the one HTTP status code it denotes, that code maps back to it, and the keyed and the numeric response helpers of the response package, the io-ts-http tables and the OpenAPI generator agree on it. A response helper returns its status with exactly the payload it was given, for any payload and any sequence of calls.',
    ['inputs', 'histories'], 'every status name (enumerated) and all sequences of helper calls with arbitrary payloads',
    'Only a few statuses are used by tests; the tables are separate copies in several packages that must stay in agreement.',
    [IO + 'statusCode.ts', IO + 'httpResponse.ts', RS + 'response.ts', RS + 'keyed-response.ts', OG + 'httpStatus.ts'], [['HttpToKeyStatus and KeyToHttpStatus', IO + 'statusCode.ts'], ['Response', RS + 'response.ts'], ['KeyedResponse', RS + 'keyed-response.ts']],
    { technique: 'exhaustive enumeration of statuses plus generated call sequences against a reference table', note: 'All names enumerated against an independent table; helper behaviour by random call histories.' });

  prop('C06', 'typed-express-router: handlers run only for valid requests, with decoded data',
    'For every route and every real HTTP request matching it, the handlers of a checked route run exactly when path, query, headers and body decode under the route\'s request codec, and they see exactly that decoded value. Otherwise no handler runs and exactly one response is sent, with the status and body of the decode-error hooks (route-level before router-level before the default 400), which are given the validation errors and the request.',
    ['inputs', 'configurations', 'programs'], 'all generated routes (paths, methods, codecs), hook configurations at both levels and requests over a real server',
    'Tests send a few requests to two fixed routes; the gate must hold for any codec, any hook configuration and any bytes on the wire.',
    [TER + 'index.ts', TER + 'errors.ts', TER + 'path.ts'], [['validateMiddleware', TER + 'index.ts'], ['wrapReqAndRes', TER + 'index.ts'], ['default error hooks', TER + 'errors.ts']],
    { technique: 'generated routes and real HTTP requests against a reference decoder', note: 'Random search over a loopback server; express and body-parser are trusted to parse requests.' });

  prop('C07', 'typed-express-router: only payloads of the declared type are sent',
    'sendEncoded with a declared status and a payload of its codec\'s type sends exactly one response with that status code (numeric or by name) and the encoded payload as JSON, and then calls the post-response hook once (route-level before router-level) with the status code and payload. For an undeclared or unknown status, or a payload that is not of the declared type or cannot be encoded, it never throws and instead sends the status and body of the encode-error hooks (route-level before router-level before the default 500), and the post-response hook is not called.',
    ['inputs', 'configurations', 'programs'], 'all response specifications over generated codecs, statuses by number and name, hook configurations at both levels, payloads of right and wrong types, synchronous and late handlers',
    'Tests send a few payloads with a couple of codecs; wrong payloads, hook precedence and status names are an open space.',
    [TER + 'index.ts', TER + 'errors.ts', IO + 'statusCode.ts'], [['res.sendEncoded', TER + 'index.ts'], ['default error hooks', TER + 'errors.ts']],
    { technique: 'generated response specs and payloads over real HTTP against a reference model', note: 'Random search over a loopback server; response codecs of io-ts are trusted; hooks are assumed not to throw.' });

  prop('C08', 'typed-express-router: every history of router operations routes correctly',
    'For every API spec and every sequence of router operations (use, checked and unchecked routes with aliases and several handlers, native routes) and every set of concurrent requests, each request runs, in order, the middleware added before its route and then the route\'s handlers, with next, next("route"), next("router"), errors and fall-through behaving as in Express. Middleware and unchecked handlers see the decode result as an Either and run even if it failed, checked handlers see the decoded value, and every one sees the api name and route it is registered for; adding a route that the spec lacks throws.',
    ['histories', 'schedules', 'inputs', 'configurations'], 'all specs over overlapping paths, operation sequences of up to 8 operations, router options (strict, caseSensitive, mergeParams), mount paths and up to 4 concurrent requests with deferred handlers',
    'Tests exercise single fixed routers with one request at a time; ordering of use and routes, fall-through between routes and concurrent requests are histories.',
    [TER + 'index.ts', TER + 'path.ts'], [['makeAddUncheckedRoute', TER + 'index.ts'], ['makeAddRoute', TER + 'index.ts'], ['router.use override', TER + 'index.ts'], ['apiTsPathToExpress', TER + 'path.ts']],
    { technique: 'stateful: generated operation histories and concurrent requests against a model of Express routing', note: 'Random histories over a loopback server compared with a reference model of Express 4 routing for literal and parameter segments.' });

  prop('C09', 'Tracing: one span per decode and per sendEncoded, always ended, no side effects',
    'With OpenTelemetry available, each entry of a request into a route produces exactly one decode span and each sendEncoded exactly one encode span; every started span ends exactly once and carries the operation id, method, path and (for encode and for failed decode) the HTTP status that the route\'s hooks decide. Spans of failed operations have error status and a recorded exception and spans of successful ones do not; responses are identical when the OpenTelemetry API is not installed.',
    ['histories', 'schedules', 'configurations', 'inputs'], 'all generated routers (checked and unchecked routes, aliases, fall-through, hooks) and up to 5 concurrent requests with deferred handlers, with and without the OpenTelemetry API',
    'Tests look at the spans of single requests; leaks, double ends and cross-talk appear only with concurrent requests, fall-through or failing encodes.',
    [TER + 'telemetry.ts', TER + 'index.ts'], [['createDecodeSpan', TER + 'telemetry.ts'], ['createSendEncodedSpan', TER + 'telemetry.ts'], ['endSpan', TER + 'telemetry.ts']],
    { technique: 'generated routers and concurrent requests, multiset of recorded spans against a model, differential without the API', note: 'Random search with the OpenTelemetry SDK as the recorder.' });

  prop('C10', 'express-wrapper answers with the status and encoding the handler returned',
    'For every API spec served by createServer or routerForApiSpec, each declared method of each operation reaches its own handler with the decoded request, and the response has the returned status (a number or a status name) and the payload encoded by that status\'s codec as JSON. A returned status that is unknown or undeclared, or a payload that cannot be encoded, gives a 500; a request that does not decode gives, without running the handler, the configured decode-error status and body, by default 400 with an error string. A custom response encoder gets the route and the handler\'s response and alone decides what is sent.',
    ['inputs', 'configurations', 'programs'], 'all generated specs with 1-3 operations, numeric response codecs, statuses by number and by name, sync and async handlers in all four forms, hooks and encoders',
    'Tests use one spec with two routes and a handful of payloads.',
    [EW + 'index.ts', EW + 'request.ts', EW + 'response.ts'], [['defaultResponseEncoder', EW + 'response.ts'], ['routerForApiSpec', EW + 'index.ts'], ['handleRequest', EW + 'request.ts']],
    { technique: 'generated specs and handlers over real HTTP against a reference model', note: 'Random search over a loopback server; payload validation beyond what the codec\'s encode does is not claimed.' });

  prop('C11', 'express-wrapper: middleware chains run in order and feed the handler',
    'For every chain of up to seven middleware, they run in order, each once and only after the previous one has called next (at once or later, with no or a falsy error), and then the handler runs once. A route made with routeHandler gets the decoded request overlaid with the properties the middlewareFn middleware returned, later ones winning; any other form of route handler gets the decoded request unchanged. If a middleware fails or answers the request itself, neither later middleware nor the handler run. req.decoded stays the decoded request throughout.',
    ['programs', 'histories', 'schedules', 'inputs'], 'all chains of 0-7 plain and value-producing middleware, synchronous and deferred, failing and answering, in every handler form, with concurrent requests',
    'Tests run chains of one or two middleware in isolation with stubbed requests.',
    [EW + 'middleware.ts', EW + 'request.ts'], [['runMiddlewareChain', EW + 'middleware.ts'], ['runMiddlewareChainIgnoringResults', EW + 'middleware.ts'], ['middlewareFn', EW + 'middleware.ts'], ['routeHandler', EW + 'request.ts']],
    { technique: 'generated middleware chains over real HTTP against a model', note: 'Random search; middleware calls next at most once.' });

  prop('C12', 'express-wrapper: every failure becomes exactly one error response',
    'Whatever a handler or middleware does wrong (throwing or rejecting with any value or none, returning something that is not a response or cannot be encoded, failing after setting an error status or after answering), the client gets exactly one complete response: the one already sent, or else an error status that was set before, or else 500. The failure affects neither concurrent or later requests nor anything mounted behind the router.',
    ['fault_sequences', 'inputs', 'configurations', 'schedules'], 'all generated failing handlers and middleware, synchronous and deferred, with concurrent requests and with catch-all and error handlers behind the router',
    'No test covers failing handlers over HTTP; each failure mode, timing and surrounding app is a separate path.',
    [EW + 'request.ts', EW + 'middleware.ts', EW + 'response.ts'], [['handleRequest', EW + 'request.ts'], ['defaultResponseEncoder', EW + 'response.ts']],
    { technique: 'fault injection: generated failing handlers and middleware over real HTTP', note: 'Random search over injected faults.' });

  prop('C13', 'API clients and servers of the same spec agree end to end',
    'For every API spec, a call through a client made by buildApiClient (superagent with any base URL, or supertest) with any value of the request type reaches exactly the right handler of a typed-express-router or express-wrapper server for the same spec, exactly once and with an equal decoded value. The status and payload the handler sends come back from decode and decodeExpecting as an equal decoded payload.',
    ['inputs', 'programs', 'configurations', 'schedules'], 'all generated routes (paths with 0-3 parameters, methods, query, header and JSON body codecs, 1-2 responses), base URLs, both factories, both servers, and concurrent calls with generated values',
    'Tests call three fixed routes with one value each; escaping, encodings and positions of values are an open space.',
    [SA + 'request.ts', SA + 'routes.ts', TER + 'index.ts', TER + 'path.ts', EW + 'index.ts', IO + 'httpRequest.ts'], [['requestForRoute', SA + 'request.ts'], ['substitutePathParams', SA + 'request.ts'], ['superagentRequestFactory', SA + 'request.ts'], ['apiTsPathToExpress', TER + 'path.ts']],
    { technique: 'generated specs and values, full client-server round trip', note: 'Random search over a loopback server; superagent, Express, body-parser and qs are trusted; values HTTP cannot carry (empty path parameters, one-element query arrays, non-ASCII headers) are not sent.' });

  prop('C14', 'API clients classify every JSON response correctly',
    'For every JSON response with a numeric status, decode resolves to that status with the decoded body if the spec declares a codec for the status that accepts the body, and otherwise to a decodeError with a message and the raw body, in both cases with the original response; it never rejects because of the status. decodeExpecting(s) resolves exactly when the response has status s and decodes, and otherwise rejects with a DecodeError that carries the decoded response; the request is sent only once.',
    ['inputs', 'programs', 'configurations'], 'all response specs of 1-4 statuses over generated codecs, all statuses and JSON bodies (valid, corrupted, null, false, 0, ""), both factories, all uses of decode and decodeExpecting',
    'Tests look at four fixed responses.',
    [SA + 'request.ts'], [['patchRequest', SA + 'request.ts'], ['hasCodecForStatus', SA + 'request.ts'], ['DecodeError', SA + 'request.ts']],
    { technique: 'generated response specs and raw server responses against a reference classifier', note: 'Random search over a loopback server; redirects, bodiless statuses and non-JSON bodies are not claimed.' });

  prop('C15', 'API clients send exactly the request that the route codec encodes',
    'A client has exactly the operations and supported methods of its spec. Each call sends one request with the route\'s method, whose path is the base URL followed by the route path with every parameter percent-encoded in its own segment, whose query string and headers are exactly the encoded query and headers, and whose body is the encoded body as JSON (bigints as strings of digits) with a JSON content type, or absent if the codec has none.',
    ['inputs', 'programs', 'configurations'], 'all generated routes (also unions of requests and non-object JSON bodies), base URLs and values; all spec objects including inherited, undefined and unknown entries',
    'Tests do not look at the raw request; escaping of arbitrary values and placement of every field is unbounded.',
    [SA + 'request.ts', SA + 'routes.ts'], [['requestForRoute', SA + 'request.ts'], ['substitutePathParams', SA + 'request.ts'], ['buildApiClient', SA + 'routes.ts']],
    { technique: 'generated routes and values, raw recorded requests against a reference encoder', note: 'Random search with a raw HTTP server as the observer.' });

  prop('C16', 'The static types of requests, responses, clients and handlers are what the codecs say',
    'For every API spec, the compiler gives each place the type that the spec\'s codecs describe, exactly: optional keys exactly where a field admits undefined, decoded types for handler parameters and client arguments, one type per status for responses, narrowing of a decoded response by its status to the body of that status (unknown for decode errors), the wire form for encoded requests, the names and methods of a client, the statuses that sendEncoded takes, and either the request or the validation errors for unchecked routes. No type is any.',
    ['programs'], 'all generated codecs (to depth 2, all combinators of io-ts, optional and optionalized) and all routes with up to 16 fields in 4 parts, intersections and unions of requests, and up to 3 statuses',
    'Tests use a few fixed specs, and one that compiles with too wide a type (any, or an optional key) shows nothing when it runs.',
    [IO + 'utils.ts', IO + 'combinators.ts', IO + 'httpRequest.ts', IO + 'httpRoute.ts', IO + 'httpResponse.ts', SA + 'request.ts', SA + 'routes.ts', TER + 'types.ts', EW + 'request.ts'],
    [['OptionalizedC and its helpers', IO + 'utils.ts'], ['flattened, optionalized', IO + 'combinators.ts'], ['RequestType, ResponseType', IO + 'httpRoute.ts'], ['DecodedResponse', SA + 'request.ts'], ['BoundRequestFactory', SA + 'routes.ts'], ['TypedRequestHandler', TER + 'types.ts']],
    { technique: 'generated API specs, compiled; the types of all uses against types written out independently', note: 'Random search; the deciding step is the repository\'s own compiler on generated programs. A name that several parts declare has one type in all of them.' });

  prop('C17', 'Wrong uses of an API spec do not compile, and right ones do',
    'Given any API spec, what follows it compiles: handlers for all its routes with or without middleware, requests with all required fields, responses with a declared status and a payload of its type (by helper, by code or by name). One mistake is a compile-time error where it is made: a missing, wrong or undeclared request field, operation, method or handler, an undeclared status, a wrong or missing payload, use of a response body before its status is known or of an unchecked request before it is known to have decoded, a handler that wants what neither the request nor its middleware provides (later middleware override earlier ones), path, query and header codecs that do not encode to strings, and a route under another method\'s key. The 60 status names and codes belong together one to one.',
    ['programs'], 'all generated API specs with up to 4 routes, 4 fields each and up to 7 middleware, with 20-100 right and wrong uses each; all 60 statuses',
    'Tests cannot contain programs that do not compile, but for a few lines marked @ts-expect-error; what must be refused is an open set.',
    [IO + 'httpRequest.ts', IO + 'httpRoute.ts', IO + 'httpResponse.ts', IO + 'combinators.ts', IO + 'utils.ts', SA + 'request.ts', SA + 'routes.ts', TER + 'types.ts', EW + 'request.ts', EW + 'middleware.ts', EW + 'response.ts', EW + 'index.ts', RS + 'response.ts', RS + 'keyed-response.ts'],
    [['httpRequest constraints', IO + 'httpRequest.ts'], ['apiSpec', IO + 'httpRoute.ts'], ['MiddlewareChainOutput', EW + 'middleware.ts'], ['routeHandler', EW + 'request.ts'], ['RequestHandler types', TER + 'types.ts'], ['ExpectedDecodedResponse', SA + 'request.ts']],
    { technique: 'generated API specs with generated right and wrong uses, judged by the repository\'s compiler', note: 'Random search (statuses: complete). Each wrong use has one mistake. Excess fields count only in object literals, as everywhere in TypeScript.' });

  prop('C20', 'The OpenAPI document accepts exactly what the code accepts',
    'For every API spec the openapi-generator can read, the schema it documents for each request body, response, query parameter, header and shared component accepts a JSON value exactly when the io-ts codec in the source accepts it (string- or number-coded codecs such as NumberFromString are documented by their JSON type, with bounds that no acceptable value violates). A parameter is documented as required exactly when a request without it is rejected.',
    ['inputs', 'programs'], 'all codecs over the supported io-ts, io-ts-types and io-ts-http combinators (literals, keyof, arrays, objects, partials, optionals, records, unions, intersections, brands, references), in bodies, responses and parameters, and all JSON values; every library codec in every wrapper',
    'Tests compare hand-written schemas for single codecs; nothing compares a document with what the code accepts, and combinations (optional unions, intersected properties, nested arrays) are an open space.',
    [OG + 'knownImports.ts', OG + 'codec.ts', OG + 'optimize.ts', OG + 'openapi.ts', OG + 'route.ts'], [['KNOWN_IMPORTS', OG + 'knownImports.ts'], ['optimize', OG + 'optimize.ts'], ['schemaToOpenAPI', OG + 'openapi.ts'], ['parseRequestObject', OG + 'route.ts']],
    { technique: 'generated codecs and JSON values, differential between the documented schema and the executed source', note: 'Random search plus enumeration of library codecs. io-ts-numbers and io-ts-bigint are stand-ins; oneOf is read as "any of"; forms that the generator documents differently on purpose (and pins in its tests) are not generated.' });

  prop('C21', 'Every schema definition keeps its meaning, unchanged and wherever it is used',
    'For every schema in the form that custom codec definitions and the library functions of the openapi-generator use (any nesting of primitives, enumerations, arrays, objects, records, unions, intersections, references, with constraints and comments), optimize() and convertRoutesToOpenAPI() give schemas that accept exactly the JSON values the definition accepts, as a request body, a response, a parameter, a field, an item and a shared component; titles, descriptions and formats are kept. No function changes its arguments, the document does not depend on the order of routes and schemas, and getRefs finds each reference, at the location it resolves to.',
    ['inputs', 'programs'], 'all schemas of the intermediate representation up to nesting depth 4 with 0-3 shared schemas (names that clash are mapped), all JSON values, all orders of routes',
    'Tests convert a few fixed schemas. The rules for optional members, folding, consolidation and merging interact, and definitions from custom codec files reach them in combinations that no source code test produces.',
    [OG + 'optimize.ts', OG + 'openapi.ts', OG + 'ir.ts', OG + 'ref.ts'], [['optimize', OG + 'optimize.ts'], ['convertRoutesToOpenAPI', OG + 'openapi.ts'], ['getRefs', OG + 'ref.ts']],
    { technique: 'generated schemas and JSON values against an independent evaluator of schemas, deep-freeze, order permutation', note: 'Random search from choice sequences. Forms that the tests of the generator pin to another meaning (integers, tuples, unions with unknown, boolean unions, empty objects in intersections) are modelled or not generated.' });

  prop('C22', 'The OpenAPI document lists exactly the declared operations',
    'The document of an API project has exactly one operation for every route of its exported API specs and none for other routes, under the declared path and method. The operation has exactly the declared path, query and header parameters, each under its own name and place and required exactly when a request without it is rejected, a JSON body exactly if the request has one, and one response per declared status, described by its standard reason phrase, whose schemas accept what the declared codecs accept. This also holds for requests that are intersections or unions of requests or plain types, in place or named, where a union is documented by the convention of the generator (the query as one parameter named "union", the headers of all members, and the path parameters of the first member that has any); the @url of an API spec becomes a server.',
    ['inputs', 'programs'], 'all generated sets of 1-4 routes in up to two API specs, with requests in all combined forms, all standard statuses, and generated codecs',
    'Tests have one route per request form; how parameters and bodies of combined requests merge is a product of forms.',
    [OG + 'route.ts', OG + 'openapi.ts', OG + 'apiSpec.ts', OG + 'cli.ts'], [['parseRoute', OG + 'route.ts'], ['parseRequestUnion', OG + 'route.ts'], ['parseRequestIntersection', OG + 'route.ts'], ['routeToOpenAPI', OG + 'openapi.ts'], ['parseApiSpec', OG + 'apiSpec.ts']],
    { technique: 'generated routes, documented operations against the description they were rendered from', note: 'Random search. A union of requests is documented by the generator\'s convention (one exploded query parameter); responses keyed by status name are a known finding.' });

  prop('C23', 'References in the OpenAPI document lead to the codecs the code means',
    'Every $ref in the document leads to a component, and that component accepts exactly what the codec at that place in the source accepts, even if several files and packages declare codecs of the same name and import them directly, under other names, as namespaces or through re-exports. A shared codec has at most one component, codecs that no route uses have none, and a component is called and titled like its codec, followed by a number only if names clash. A reference to a codec that cannot be found is an error that names it, never a reference that leads nowhere or to another codec.',
    ['inputs', 'programs', 'configurations'], 'all generated projects of up to 6 codecs that refer to each other, spread over up to 4 files and 2 installed packages (scoped or not, with source, types or typings entry points), with clashing names',
    'Tests have a few fixed files; a wrong target shows only if names clash across particular import paths.',
    [OG + 'resolveInit.ts', OG + 'ref.ts', OG + 'project.ts', OG + 'codec.ts', OG + 'symbol.ts', OG + 'cli.ts', OG + 'openapi.ts'], [['findSymbolInitializer', OG + 'resolveInit.ts'], ['resolveExternalReference', OG + 'resolveInit.ts'], ['getRefs', OG + 'ref.ts'], ['codecIdentifier', OG + 'codec.ts'], ['getUniqueComponentName', OG + 'cli.ts']],
    { technique: 'generated multi-file projects with clashing names, documented references against the executed codecs', note: 'Random search. Codecs exported under a second name from their own file, and several versions of one package are not generated.' });

  prop('C24', 'JSDoc comments reach the OpenAPI document, each at its place and unchanged',
    'Comments change nothing in the document but what they say: the text and tags of the JSDoc comment right in front of a route, parameter, property, response, enum value or shared codec appear at that place, with the value written (text kept as it is, numbers, booleans and JSON as such), and nowhere else. That holds for single-line and multi-line comments, LF and CRLF files, text outside ASCII, properties that are spread, shorthand or nested, and whatever other comments stand around. A comment marked both @public and @private is an error.',
    ['inputs', 'programs'], 'all generated projects with comments at up to about 30 places, all documented tags with values of their kind, among line comments, block comments and comments that belong to nothing',
    'Tests look at one tag at one place each; which comment belongs to which node depends on byte offsets of everything before it.',
    [OG + 'jsdoc.ts', OG + 'comments.ts', OG + 'codec.ts', OG + 'openapi.ts', OG + 'route.ts', OG + 'sourceFile.ts'], [['parseCommentBlock', OG + 'jsdoc.ts'], ['leadingComment', OG + 'comments.ts'], ['combineComments', OG + 'comments.ts'], ['schemaToOpenAPI', OG + 'openapi.ts'], ['routeToOpenAPI', OG + 'openapi.ts']],
    { technique: 'metamorphic: generated projects with and without comments, the difference against the comments', note: 'Random search. Tags that are given twice, tags in the middle of a line and non-JSON examples that begin with a bracket are not generated.' });

  prop('C25', 'What the openapi-generator cannot read is an error or left open, never documented wrongly',
    'Source that needs more than reading - conditional expressions and spreads, functions with parameters or several return statements, computed values, method calls, destructuring, classes, namespaces, unusual enums and declarations, files, exports, packages or names that do not exist, files with syntax errors - makes the generator stop with an error exit and a message, or is documented correctly, or (codecs only) left open as a schema that accepts anything. The document never refuses a value that the code accepts, and never lacks or invents a route, status, parameter or property, wherever the construct stands: as a codec, an object of codecs, a path, method, key or literal, a response, a request, a route, a group of routes or a part of an API spec.',
    ['programs', 'faults'], 'about 300 constructs around generated codecs, in every place where a codec, an object, a string, a request or a part of an API spec may stand, compared with the executed source',
    'Tests give a handful of unsupported constructs and look at the message; that nothing unsupported is silently misread is a statement about all programs.',
    [OG + 'codec.ts', OG + 'resolveInit.ts', OG + 'apiSpec.ts', OG + 'symbol.ts', OG + 'knownImports.ts', OG + 'route.ts', OG + 'project.ts', OG + 'cli.ts'], [['parsePlainInitializer', OG + 'codec.ts'], ['codecIdentifier', OG + 'codec.ts'], ['parseApiSpec', OG + 'apiSpec.ts'], ['findSymbolInitializer', OG + 'resolveInit.ts'], ['parseTopLevelSymbols', OG + 'symbol.ts']],
    { technique: 'differential: generated programs of constructs beyond the supported subset, documented and executed', note: 'Random search over codecs and places, complete over constructs for strings and API specs. Constructs whose misreading is pinned by tests or documentation are left out (DESIGN.md).' });

  prop('C26', 'The OpenAPI document does not depend on how the source is written or ordered',
    'Two API projects that mean the same give the same OpenAPI document. It does not matter how packages are imported, whether codecs, routes, requests, properties, paths, methods and responses are written in place or as constants, grouped or spread, whether codecs are in one file or several and reach their user directly, renamed, as default export or through re-exports, nor are parentheses, casts, computed keys, template strings, enum members, functions without parameters, unrelated code and comments, and the order of routes of any effect. (A codec moved into a constant of its own becomes a component and is then referred to.) Giving the same files to the generator again prints the same document byte by byte, whatever was processed before.',
    ['programs', 'histories', 'configurations'], 'all generated projects (up to 4 shared codecs, 1-4 routes) in all combinations of 17 source style choices, with arbitrary expressions moved into constants, functions, objects and other files, in all orders of routes, and in sequences of runs',
    'Tests give one spelling of each feature; combinations of import style, re-exports, spreads and aliases across files are an open space.',
    [OG + 'resolveInit.ts', OG + 'codec.ts', OG + 'symbol.ts', OG + 'apiSpec.ts', OG + 'project.ts', OG + 'openapi.ts', OG + 'cli.ts'], [['findSymbolInitializer', OG + 'resolveInit.ts'], ['codecIdentifier', OG + 'codec.ts'], ['parseTopLevelSymbols', OG + 'symbol.ts'], ['parseApiSpec', OG + 'apiSpec.ts'], ['convertRoutesToOpenAPI', OG + 'openapi.ts']],
    { technique: 'metamorphic: generated projects written down in different ways, documents compared', note: 'Random search over projects and source styles; where moving an expression creates a component, documents are compared by the values they accept.' });

  prop('C27', 'The generated document is valid OpenAPI 3.0.3',
    'For every API project of supported codecs - degenerate ones included: unions and intersections without members, objects without properties, undefined or void anywhere, records over any domain, names that are no ASCII words, odd property names, every library codec of io-ts, io-ts-types, io-ts-numbers and io-ts-bigint in every place - the generator gives a document that OpenAPI 3.0.3 allows: the fixed fields with their kinds, known keywords only, no siblings of $ref, resolving references, unique non-empty required lists and enums, valid component names, path parameters that are required, unique parameters and operation ids, and documented responses.',
    ['inputs', 'programs'], 'all generated projects of up to 5 shared codecs and 3 routes in four request forms with comments and odd names, every library codec in every wrapper, and the projects of all other generator checks',
    'Tests compare whole documents with expected ones that nobody validated; the degenerate combinations are not among them.',
    [OG + 'openapi.ts', OG + 'optimize.ts', OG + 'codec.ts', OG + 'knownImports.ts', OG + 'route.ts', OG + 'cli.ts'], [['schemaToOpenAPI', OG + 'openapi.ts'], ['routeToOpenAPI', OG + 'openapi.ts'], ['convertRoutesToOpenAPI', OG + 'openapi.ts'], ['optimize', OG + 'optimize.ts'], ['getUniqueComponentName', OG + 'cli.ts']],
    { technique: 'generated projects and an exhaustive product of library codecs and wrappers against a hand-written validator of OpenAPI 3.0.3', note: 'Random search but for the product. The generator\'s empty enum for null is let through. Tags have values of their kind.' });

  prop('C28', 'The openapi-generator follows its options, package.json and custom codec definitions',
    'The title, version and description of the document are those of the options, else those of the package.json nearest above the input file, else the documented defaults, independently of each other and of the working directory. A codec defined in a codec file (given as option, or else by package.json, relative to it) or in the customCodecFile of the package it is imported from is documented exactly as defined, in every place and under every kind of import, for constants and for codecs with arguments; the codec file goes before the package\'s own definitions, which go before the package\'s source. Title, description, default, bounds and other metadata of a definition appear at each use, overridden only by what a comment at that place says. If a definition in use fails, or the codec file cannot be loaded, there is an error exit and no document.',
    ['inputs', 'programs', 'configurations'], 'all combinations of options and package.json files at four directory levels; generated projects with 1-6 custom codecs of two packages, from ten kinds of configuration, with all metadata keywords in nine kinds of place',
    'Tests define one string codec in one configuration each and never look at the info block; which source wins and whether metadata survives each codec kind and place is a product.',
    [OG + 'cli.ts', OG + 'packageInfo.ts', OG + 'project.ts', OG + 'codec.ts', OG + 'optimize.ts', OG + 'openapi.ts'], [['getPackageJsonPath', OG + 'packageInfo.ts'], ['getCustomCodecs', OG + 'project.ts'], ['resolveKnownImport', OG + 'project.ts'], ['optimize', OG + 'optimize.ts'], ['schemaToOpenAPI', OG + 'openapi.ts']],
    { technique: 'metamorphic: generated projects with custom codecs against the same projects with library codecs of the same meaning; reference model for precedence', note: 'Random search. Unions inside unions and members of intersections are merged, what is said about them alone is not claimed; nor are codec files that replace built-in packages.' });
};
