'use strict';
// The documented status names and the HTTP codes they stand for (RFC 9110 and the IANA registry).
module.exports = { continue: 100, switchingProtocols: 101, processing: 102, ok: 200, created: 201, accepted: 202, nonAuthoritativeInformation: 203, noContent: 204, resetContent: 205, partialContent: 206, multiStatus: 207, alreadyReported: 208, imUsed: 226, multipleChoices: 300, movedPermanently: 301, found: 302, seeOther: 303, notModified: 304, temporaryRedirect: 307, permanentRedirect: 308, invalidRequest: 400, unauthenticated: 401, paymentRequired: 402, permissionDenied: 403, notFound: 404, methodNotAllowed: 405, notAcceptable: 406, proxyAuthenticationRequired: 407, requestTimeout: 408, conflict: 409, gone: 410, lengthRequired: 411, preconditionFailed: 412, contentTooLarge: 413, uriTooLong: 414, unsupportedMediaType: 415, rangeNotSatisfiable: 416, exceptionFailed: 417, imATeapot: 418, misdirectedRequest: 421, unprocessableContent: 422, locked: 423, failedDependency: 424, tooEarly: 425, upgradeRequired: 426, preconditionRequired: 428, rateLimitExceeded: 429, requestHeaderFieldsTooLarge: 431, unavailableForLegalReasons: 451, internalError: 500, notImplemented: 501, badGateway: 502, serviceUnavailable: 503, gatewayTimeout: 504, httpVersionNotSupported: 505, variantAlsoNegotiates: 506, insufficientStorage: 507, loopDetected: 508, notExtended: 510, networkAuthenticationRequired: 511 };
