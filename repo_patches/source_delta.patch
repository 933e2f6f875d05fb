From 49db13967137b6c70a4d3a6df11d7d610d27f0a3 Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Thu, 19 Nov 2026 19:31:36 +0000
Subject: [PATCH 01/57] fix: optionalized codecs no longer modify their input
 or keep undefined properties

Properties whose value is undefined were deleted from the caller's own object (which fails
for frozen objects), and came back as explicit undefined values whenever another property's
codec changes its representation. Untrusted keys such as __proto__ made decoding throw.
---
 packages/io-ts-http/src/combinators.ts | 105 ++++++++++++-------------
 1 file changed, 52 insertions(+), 53 deletions(-)

diff --git a/packages/io-ts-http/src/combinators.ts b/packages/io-ts-http/src/combinators.ts
index 1990e20..18621b3 100644
--- a/packages/io-ts-http/src/combinators.ts
+++ b/packages/io-ts-http/src/combinators.ts
@@ -3,7 +3,6 @@ import * as E from 'fp-ts/Either';
 import * as R from 'fp-ts/Record';
 import * as t from 'io-ts';
 import {
-  DefinedValues,
   Flattened,
   NestedType,
   NestedOutputType,
@@ -14,49 +13,6 @@ import {
   Simplify,
 } from './utils';
 
-const partialWithoutUndefined = <P extends t.Props>(
-  props: P,
-  name?: string,
-): t.PartialType<
-  P,
-  DefinedValues<t.TypeOfPartialProps<P>>,
-  DefinedValues<t.OutputOfPartialProps<P>>,
-  unknown
-> => {
-  const partialCodec = t.partial(props, name);
-  return new t.PartialType(
-    partialCodec.name,
-    (i): i is DefinedValues<t.TypeOfPartialProps<P>> => partialCodec.is(i),
-    (i, ctx) => {
-      return pipe(
-        partialCodec.validate(i, ctx),
-        E.map((result) => {
-          for (const key of Object.keys(result)) {
-            if (result[key] === void 0) {
-              delete result[key];
-            }
-          }
-          return result as DefinedValues<t.TypeOfPartialProps<P>>;
-        }),
-      );
-    },
-    (a) => {
-      const result = partialCodec.encode(a);
-      if (result === undefined) {
-        // `t.partial` will return this when passed `undefined` even though it is not in the type
-        return result;
-      }
-      for (const key of Object.keys(result)) {
-        if (result[key] === void 0) {
-          delete result[key];
-        }
-      }
-      return result as DefinedValues<t.OutputOfPartialProps<P>>;
-    },
-    props,
-  );
-};
-
 export const optional = <C extends t.Mixed>(codec: C): t.UnionC<[C, t.UndefinedC]> =>
   t.union([codec, t.undefined]);
 
@@ -75,15 +31,58 @@ export const optionalized = <P extends t.Props>(
       requiredProps[key] = codec;
     }
   }
-  return t.intersection([
-    t.type(requiredProps, name ? `required_${name}` : undefined) as t.TypeC<
-      RequiredProps<P>
-    >,
-    partialWithoutUndefined(
-      optionalProps,
-      name ? `optional_${name}` : undefined,
-    ) as t.PartialC<OptionalProps<P>>,
-  ]);
+  const requiredCodec = t.type(
+    requiredProps,
+    name ? `required_${name}` : undefined,
+  ) as t.TypeC<RequiredProps<P>>;
+  const optionalCodec = t.partial(
+    optionalProps,
+    name ? `optional_${name}` : undefined,
+  ) as t.PartialC<OptionalProps<P>>;
+  const codec = t.intersection([requiredCodec, optionalCodec]);
+
+  // Unlike the merge done by `t.intersection`, this works for values with keys like `__proto__`, leaves out
+  // undefined properties, and never modifies `base`, which belongs to the caller
+  const merge = (base: any, requiredPart: any, optionalPart: any) => {
+    if (typeof base !== 'object' || base === null) {
+      // `t.type` and `t.partial` can pass `undefined` through `encode` even though it is not in the type
+      return base;
+    }
+    const result = { ...optionalPart };
+    for (const key of Object.keys(requiredProps)) {
+      result[key] = requiredPart[key];
+    }
+    for (const key of Object.keys(result)) {
+      if (result[key] === void 0) {
+        delete result[key];
+      }
+    }
+    return result;
+  };
+
+  return new t.IntersectionType(
+    codec.name,
+    codec.is,
+    (i, ctx) => {
+      const requiredPart = requiredCodec.validate(
+        i,
+        t.appendContext(ctx, '0', requiredCodec, i),
+      );
+      const optionalPart = optionalCodec.validate(
+        i,
+        t.appendContext(ctx, '1', optionalCodec, i),
+      );
+      if (E.isRight(requiredPart) && E.isRight(optionalPart)) {
+        return t.success(merge(i, requiredPart.right, optionalPart.right));
+      }
+      return t.failures([
+        ...(E.isLeft(requiredPart) ? requiredPart.left : []),
+        ...(E.isLeft(optionalPart) ? optionalPart.left : []),
+      ]);
+    },
+    (a) => merge(a, requiredCodec.encode(a), optionalCodec.encode(a)),
+    codec.types,
+  );
 };
 
 export const flattened = <Props extends NestedProps>(
-- 
2.43.0


From d894f38a0e264e541f17f05cd1883cecddea7850 Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Thu, 19 Nov 2026 19:31:36 +0000
Subject: [PATCH 02/57] fix: flattened codecs handle values without
 Object.prototype and undefined properties

Decoding threw for a request with a __proto__ key, encoding threw for inputs with a null
prototype, and explicitly undefined optional properties were encoded as undefined values.
---
 packages/io-ts-http/src/combinators.ts | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/packages/io-ts-http/src/combinators.ts b/packages/io-ts-http/src/combinators.ts
index 18621b3..3d411c1 100644
--- a/packages/io-ts-http/src/combinators.ts
+++ b/packages/io-ts-http/src/combinators.ts
@@ -115,10 +115,7 @@ export const flattened = <Props extends NestedProps>(
         nestedCodec.validate(input, context),
         E.map((nested) => {
           let flattened = {};
-          for (const key in nested) {
-            if (!nested.hasOwnProperty(key)) {
-              continue;
-            }
+          for (const key of Object.keys(nested)) {
             flattened = { ...flattened, ...nested[key] };
           }
           return flattened as Simplify<Flattened<NestedType<Props>>>;
@@ -132,9 +129,12 @@ export const flattened = <Props extends NestedProps>(
         }
         nested[o] = {};
         for (const i in props[o]) {
-          if ((input as {}).hasOwnProperty(i)) {
+          if (Object.prototype.hasOwnProperty.call(input, i)) {
             const codec = props[o]![i]!;
-            nested[o]![i] = codec.encode(input[i]);
+            const encoded = codec.encode(input[i]);
+            if (encoded !== void 0) {
+              nested[o]![i] = encoded;
+            }
           }
         }
       }
-- 
2.43.0


From bc173c201272b477ea6c251895bb4714af06b2c9 Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Thu, 19 Nov 2026 19:50:38 +0000
Subject: [PATCH 03/57] fix: errors in express-wrapper handlers and middleware
 are reported with an error status

A handler or middleware that failed was answered with 200 (res.statusCode is never 0), and next()
after the response made later catch-all handlers break the connection. Route handlers defined
without routeHandler ran even though their middleware had failed. A middlewareFn that rejects with
undefined counted as success, and next(null) counted as an error.
---
 packages/express-wrapper/src/middleware.ts | 6 +++---
 packages/express-wrapper/src/request.ts    | 5 ++---
 2 files changed, 5 insertions(+), 6 deletions(-)

diff --git a/packages/express-wrapper/src/middleware.ts b/packages/express-wrapper/src/middleware.ts
index 947760f..07cdf29 100644
--- a/packages/express-wrapper/src/middleware.ts
+++ b/packages/express-wrapper/src/middleware.ts
@@ -34,7 +34,7 @@ export function middlewareFn<T extends {}>(fn: MiddlewareFn<T>): MiddlewareHandl
   const result: express.RequestHandler = (req, res, next: MiddlewareNextFn) => {
     fn(req, res)
       .then((result) => next(undefined, result))
-      .catch((err) => next(err));
+      .catch((err) => next(err || new Error(`middleware failed: ${err}`)));
   };
   return result as MiddlewareHandler<T>;
 }
@@ -166,7 +166,7 @@ export async function runMiddlewareChain<
   for (const middleware of chain) {
     const middlewareResult: {} = await new Promise((resolve, reject) => {
       const next = (value?: unknown, middlewareResult?: {}) => {
-        if (value !== undefined) {
+        if (value) {
           reject(value);
         } else if (middlewareResult !== undefined) {
           resolve(middlewareResult);
@@ -210,7 +210,7 @@ export async function runMiddlewareChainIgnoringResults<
   for (const middleware of chain) {
     await new Promise((resolve, reject) => {
       try {
-        middleware(req, res, resolve);
+        middleware(req, res, (err?: unknown) => (err ? reject(err) : resolve(undefined)));
       } catch (err) {
         reject(err);
       }
diff --git a/packages/express-wrapper/src/request.ts b/packages/express-wrapper/src/request.ts
index c9d61ff..99fc629 100644
--- a/packages/express-wrapper/src/request.ts
+++ b/packages/express-wrapper/src/request.ts
@@ -144,12 +144,11 @@ export const handleRequest = (
         const response = await serviceFn(handlerParams);
         responseEncoder(httpRoute, response)(req, res, next);
       } catch (err) {
-        if (!res.statusCode) {
+        // An error status that was set before the error is kept
+        if (!res.headersSent && res.statusCode < 400) {
           res.status(500);
         }
         res.end();
-        next();
-        return;
       }
     },
   );
-- 
2.43.0


From 58f1a9625b2fd197979ee85cdcffc91f343a3232 Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Thu, 19 Nov 2026 19:52:24 +0000
Subject: [PATCH 04/57] fix: API clients send path parameters and falsy JSON
 bodies as they are

Path parameters were not percent-encoded, and values with $ patterns or with another parameter's
placeholder were substituted wrongly. Request and response bodies such as 0, false and "" were
dropped or replaced by their text.
---
 packages/superagent-wrapper/src/request.ts | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/packages/superagent-wrapper/src/request.ts b/packages/superagent-wrapper/src/request.ts
index 20d6631..54e9db6 100644
--- a/packages/superagent-wrapper/src/request.ts
+++ b/packages/superagent-wrapper/src/request.ts
@@ -65,12 +65,11 @@ export interface SuperagentRequest<Res extends Response> extends Promise<Res> {
 }
 
 export const substitutePathParams = (path: string, params: Record<string, string>) => {
-  for (const key in params) {
-    if (params.hasOwnProperty(key)) {
-      path = path.replace(`{${key}}`, params[key]);
-    }
-  }
-  return path;
+  return path.replace(/\{([^{}]+)\}/g, (placeholder, key) =>
+    Object.prototype.hasOwnProperty.call(params, key)
+      ? encodeURIComponent(params[key])
+      : placeholder,
+  );
 };
 
 export type RequestFactory<Req> = <Route extends h.HttpRoute>(
@@ -128,7 +127,8 @@ const patchRequest = <
   patchedReq.decode = () =>
     req.then((res) => {
       const { body, text, status } = res;
-      const bodyOrText = body || text;
+      // `body` is null for a JSON null as well as for content that superagent does not parse
+      const bodyOrText = body ?? (text === 'null' ? null : text);
 
       if (!hasCodecForStatus(route.response, status)) {
         return decodedResponse({
@@ -207,7 +207,7 @@ export const requestForRoute =
       }
     }
 
-    if (reqProps.body) {
+    if (reqProps.body !== undefined) {
       request.set('content-type', 'application/json');
       request = request.send(stringify(reqProps.body));
     }
-- 
2.43.0


From ad9c368dbacc05348350eaaa63bddcd214ea8633 Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Thu, 19 Nov 2026 20:36:48 +0000
Subject: [PATCH 05/57] fix: openapi-generator keeps every member's constraint
 on a property shared by intersected objects

---
 packages/openapi-generator/src/optimize.ts | 26 ++++++++++++++++++++--
 1 file changed, 24 insertions(+), 2 deletions(-)

diff --git a/packages/openapi-generator/src/optimize.ts b/packages/openapi-generator/src/optimize.ts
index cb877d4..5d4c392 100644
--- a/packages/openapi-generator/src/optimize.ts
+++ b/packages/openapi-generator/src/optimize.ts
@@ -3,6 +3,12 @@ import { isPrimitive, type CombinedType, type Primitive, type Schema } from './i
 
 export type OptimizeFn = (schema: Schema) => Schema;
 
+function isSameType(a: Schema, b: Schema): boolean {
+  const { comment: _a, ...restA } = a;
+  const { comment: _b, ...restB } = b;
+  return JSON.stringify(restA) === JSON.stringify(restB);
+}
+
 export function foldIntersection(schema: Schema, optimize: OptimizeFn): Schema {
   if (schema.type !== 'intersection') {
     return schema;
@@ -17,8 +23,24 @@ export function foldIntersection(schema: Schema, optimize: OptimizeFn): Schema {
   let result: Schema = combinedObject;
   innerSchemas.forEach((innerSchema) => {
     if (innerSchema.type === 'object') {
-      Object.assign(combinedObject.properties, innerSchema.properties);
-      combinedObject.required.push(...innerSchema.required);
+      for (const [key, prop] of Object.entries(innerSchema.properties)) {
+        const existing = Object.prototype.hasOwnProperty.call(
+          combinedObject.properties,
+          key,
+        )
+          ? combinedObject.properties[key]
+          : undefined;
+        // A property declared by several members has to satisfy all of them
+        combinedObject.properties[key] =
+          existing === undefined || isSameType(existing, prop)
+            ? prop
+            : optimize({ type: 'intersection', schemas: [existing, prop] });
+      }
+      for (const key of innerSchema.required) {
+        if (!combinedObject.required.includes(key)) {
+          combinedObject.required.push(key);
+        }
+      }
     } else if (result.type === 'intersection') {
       result.schemas.push(innerSchema);
     } else {
-- 
2.43.0


From 52676d77922108eaf5455816b91159e099713ead Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Thu, 19 Nov 2026 20:36:48 +0000
Subject: [PATCH 06/57] fix: openapi-generator documents the minimum length of
 non-empty arrays

---
 packages/openapi-generator/src/knownImports.ts | 2 +-
 packages/openapi-generator/src/optimize.ts     | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/packages/openapi-generator/src/knownImports.ts b/packages/openapi-generator/src/knownImports.ts
index 29042a3..13138bb 100644
--- a/packages/openapi-generator/src/knownImports.ts
+++ b/packages/openapi-generator/src/knownImports.ts
@@ -396,7 +396,7 @@ export const KNOWN_IMPORTS: KnownImports = {
       E.right({ type: 'array', items: innerSchema, minItems: 1 }),
     NonEmptyString: () => E.right({ type: 'string', minLength: 1 }),
     readonlyNonEmptyArray: (_, innerSchema) =>
-      E.right({ type: 'array', items: innerSchema }),
+      E.right({ type: 'array', items: innerSchema, minItems: 1 }),
     UUID: () => E.right({ type: 'string', title: 'uuid' }),
     Json: () => E.right({ type: 'any', title: 'JSON' }),
     JsonRecord: () => E.right({ type: 'record', codomain: { type: 'any' } }),
diff --git a/packages/openapi-generator/src/optimize.ts b/packages/openapi-generator/src/optimize.ts
index 5d4c392..d7c0a41 100644
--- a/packages/openapi-generator/src/optimize.ts
+++ b/packages/openapi-generator/src/optimize.ts
@@ -276,7 +276,7 @@ export function optimize(schema: Schema): Schema {
   } else if (schema.type === 'array') {
     const optimized = optimize(schema.items);
 
-    return withComment({ type: 'array', items: optimized }, schema);
+    return withComment({ ...schema, items: optimized }, schema);
   } else if (schema.type === 'record') {
     return withComment(
       {
-- 
2.43.0


From 20bd61a502c9b1c8484e053b8d5c0c5a4a6bd5f3 Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Thu, 19 Nov 2026 20:36:54 +0000
Subject: [PATCH 07/57] fix: openapi-generator keeps all alternatives of an
 optional union outside object properties

---
 packages/openapi-generator/src/openapi.ts | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/packages/openapi-generator/src/openapi.ts b/packages/openapi-generator/src/openapi.ts
index 3b4e6d5..9a53f65 100644
--- a/packages/openapi-generator/src/openapi.ts
+++ b/packages/openapi-generator/src/openapi.ts
@@ -144,7 +144,14 @@ export function schemaToOpenAPI(
 
         // If there are two schemas and one of the schemas is undefined, that means the union is a case of `optional` type
         const undefinedSchema = schema.schemas.find((s) => s.type === 'undefined');
-        const nonUndefinedSchema = schema.schemas.find((s) => s.type !== 'undefined');
+        const nonUndefinedSchemas = schema.schemas.filter(
+          (s) => s.type !== 'undefined',
+        );
+        // Several alternatives are left besides `undefined`: keep all of them
+        const nonUndefinedSchema: Schema | undefined =
+          nonUndefinedSchemas.filter((s) => s.type !== 'null').length > 1
+            ? { type: 'union', schemas: nonUndefinedSchemas }
+            : nonUndefinedSchemas[0];
         // If nullSchema exists, that means that the union is also nullable
         const nullSchema = schema.schemas.find((s) => s.type === 'null');
 
-- 
2.43.0


From a8a88e8458b45108cd8f31b92d3f898c24908f39 Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Thu, 19 Nov 2026 20:36:54 +0000
Subject: [PATCH 08/57] fix: openapi-generator no longer swaps minimum and
 maximum, and keeps zero bounds, false defaults and bare flag tags

---
 .../openapi-generator/src/knownImports.ts     |  2 +-
 packages/openapi-generator/src/openapi.ts     | 57 +++++++++++--------
 2 files changed, 34 insertions(+), 25 deletions(-)

diff --git a/packages/openapi-generator/src/knownImports.ts b/packages/openapi-generator/src/knownImports.ts
index 13138bb..6437e15 100644
--- a/packages/openapi-generator/src/knownImports.ts
+++ b/packages/openapi-generator/src/knownImports.ts
@@ -331,7 +331,7 @@ export const KNOWN_IMPORTS: KnownImports = {
       E.right({
         type: 'string',
         format: 'number',
-        maximum: 0,
+        minimum: 0,
         decodedType: 'bigint',
       }),
     NonPositiveBigInt: () =>
diff --git a/packages/openapi-generator/src/openapi.ts b/packages/openapi-generator/src/openapi.ts
index 9a53f65..5560c9b 100644
--- a/packages/openapi-generator/src/openapi.ts
+++ b/packages/openapi-generator/src/openapi.ts
@@ -84,7 +84,7 @@ export function schemaToOpenAPI(
 
         const siblings = {
           ...rest,
-          ...(!isArrayExample && example ? { example } : {}),
+          ...(!isArrayExample && example !== undefined ? { example } : {}),
         };
 
         // Handle case where innerSchema is a $ref with siblings
@@ -105,8 +105,8 @@ export function schemaToOpenAPI(
 
         return {
           type: 'array',
-          ...(minItems ? { minItems } : {}),
-          ...(maxItems ? { maxItems } : {}),
+          ...(minItems !== undefined ? { minItems } : {}),
+          ...(maxItems !== undefined ? { maxItems } : {}),
           ...(isArrayExample ? { example } : {}),
           items,
         };
@@ -283,8 +283,11 @@ export function schemaToOpenAPI(
    * @param fieldValue The value to parse
    * @returns the parsed value
    */
-  const parseField = (schema: Schema, fieldValue: string): any => {
-    if (schema.type === 'number' || schema.type === 'integer') {
+  const parseField = (schema: Schema, fieldValue: any): any => {
+    if (typeof fieldValue !== 'string') {
+      // Already a value, from a codec definition or from a JSON @example
+      return fieldValue;
+    } else if (schema.type === 'number' || schema.type === 'integer') {
       return Number(fieldValue);
     } else if (schema.type === 'boolean') {
       return fieldValue === 'true';
@@ -292,7 +295,7 @@ export function schemaToOpenAPI(
       return null;
     } else if (schema.type === 'string') {
       // Remove extraneous double quotes around the fieldValue
-      return fieldValue?.replace(/^"(.*)"$/, '$1');
+      return fieldValue.replace(/^"(.*)"$/, '$1');
     } else {
       return fieldValue;
     }
@@ -307,8 +310,8 @@ export function schemaToOpenAPI(
     const maxLength = jsdoc?.tags?.maxLength ?? schema.maxLength;
     const minLength = jsdoc?.tags?.minLength ?? schema.minLength;
     const pattern = jsdoc?.tags?.pattern ?? schema.pattern;
-    const minimum = jsdoc?.tags?.minimum ?? schema.maximum;
-    const maximum = jsdoc?.tags?.maximum ?? schema.minimum;
+    const minimum = jsdoc?.tags?.minimum ?? schema.minimum;
+    const maximum = jsdoc?.tags?.maximum ?? schema.maximum;
     const minItems = jsdoc?.tags?.minItems ?? schema.minItems;
     const maxItems = jsdoc?.tags?.maxItems ?? schema.maxItems;
     const minProperties = jsdoc?.tags?.minProperties ?? schema.minProperties;
@@ -332,26 +335,32 @@ export function schemaToOpenAPI(
     }
     const description = schema.comment?.description ?? schema.description;
 
+    // 0 and false are values like any other, an empty tag is not one
+    const isSet = (value: any): boolean => value !== undefined && value !== '';
+    // A flag can be given with or without a value: `@readOnly` or `@readOnly true`
+    const isFlag = (value: any): boolean =>
+      value !== undefined && value !== false && value !== 'false';
+
     const defaultOpenAPIObject = {
-      ...(defaultValue ? { default: parseField(schema, defaultValue) } : {}),
+      ...(isSet(defaultValue) ? { default: parseField(schema, defaultValue) } : {}),
       ...(deprecated ? { deprecated: true } : {}),
       ...(description ? { description } : {}),
-      ...(example ? { example: parseField(schema, example) } : {}),
-      ...(maxLength ? { maxLength: Number(maxLength) } : {}),
-      ...(minLength ? { minLength: Number(minLength) } : {}),
+      ...(isSet(example) ? { example: parseField(schema, example) } : {}),
+      ...(isSet(maxLength) ? { maxLength: Number(maxLength) } : {}),
+      ...(isSet(minLength) ? { minLength: Number(minLength) } : {}),
       ...(pattern ? { pattern } : {}),
-      ...(minimum ? { minimum: Number(minimum) } : {}),
-      ...(maximum ? { maximum: Number(maximum) } : {}),
-      ...(minItems ? { minItems: Number(minItems) } : {}),
-      ...(maxItems ? { maxItems: Number(maxItems) } : {}),
-      ...(minProperties ? { minProperties: Number(minProperties) } : {}),
-      ...(maxProperties ? { maxProperties: Number(maxProperties) } : {}),
-      ...(exclusiveMinimum ? { exclusiveMinimum: true } : {}),
-      ...(exclusiveMaximum ? { exclusiveMaximum: true } : {}),
-      ...(multipleOf ? { multipleOf: Number(multipleOf) } : {}),
-      ...(uniqueItems ? { uniqueItems: true } : {}),
-      ...(readOnly ? { readOnly: true } : {}),
-      ...(writeOnly ? { writeOnly: true } : {}),
+      ...(isSet(minimum) ? { minimum: Number(minimum) } : {}),
+      ...(isSet(maximum) ? { maximum: Number(maximum) } : {}),
+      ...(isSet(minItems) ? { minItems: Number(minItems) } : {}),
+      ...(isSet(maxItems) ? { maxItems: Number(maxItems) } : {}),
+      ...(isSet(minProperties) ? { minProperties: Number(minProperties) } : {}),
+      ...(isSet(maxProperties) ? { maxProperties: Number(maxProperties) } : {}),
+      ...(isFlag(exclusiveMinimum) ? { exclusiveMinimum: true } : {}),
+      ...(isFlag(exclusiveMaximum) ? { exclusiveMaximum: true } : {}),
+      ...(isSet(multipleOf) ? { multipleOf: Number(multipleOf) } : {}),
+      ...(isFlag(uniqueItems) ? { uniqueItems: true } : {}),
+      ...(isFlag(readOnly) ? { readOnly: true } : {}),
+      ...(isFlag(writeOnly) ? { writeOnly: true } : {}),
       ...(format ? { format } : {}),
       ...(title ? { title } : {}),
       ...(isPrivate ? { 'x-internal': true } : isPublic ? { 'x-internal': false } : {}),
-- 
2.43.0


From 69c6afaceadaea7284c42e9e4fa6fa4c3ab4917b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:47:03 +0000
Subject: [PATCH 09/57] fix: openapi-generator follows renamed re-exports and
 default exports, and spreads and templates defined in other files

---
 packages/openapi-generator/src/codec.ts       | 84 ++++++++++---------
 packages/openapi-generator/src/resolveInit.ts | 18 +++-
 packages/openapi-generator/src/symbol.ts      |  8 +-
 3 files changed, 64 insertions(+), 46 deletions(-)

diff --git a/packages/openapi-generator/src/codec.ts b/packages/openapi-generator/src/codec.ts
index 86f2e1c..dacdf27 100644
--- a/packages/openapi-generator/src/codec.ts
+++ b/packages/openapi-generator/src/codec.ts
@@ -3,7 +3,7 @@ import * as E from 'fp-ts/Either';
 import { pipe } from 'fp-ts/lib/function';
 
 import { leadingComment } from './comments';
-import type { Object, Schema } from './ir';
+import type { Object, Reference, Schema } from './ir';
 import type { DerefFn } from './knownImports';
 import type { Project } from './project';
 import { findSymbolInitializer } from './resolveInit';
@@ -14,6 +14,22 @@ import { errorLeft } from './error';
 
 type ResolvedIdentifier = Schema | { type: 'codec'; schema: KnownCodec };
 
+// A reference goes by its imported name, unless the file that declares it does not know the
+// declaration by that name, e.g. because it was renamed by a re-export
+function referenceName(
+  source: SourceFile,
+  importedName: string,
+  declaredName: string,
+): string {
+  const { declarations, exports } = source.symbols;
+  const isOwnExport = exports.some(
+    (e) => e.exportedName === importedName && e.localName === declaredName,
+  );
+  return isOwnExport && !declarations.some((d) => d.name === importedName)
+    ? importedName
+    : declaredName;
+}
+
 function codecIdentifier(
   project: Project,
   source: SourceFile,
@@ -44,11 +60,11 @@ function codecIdentifier(
     if (E.isLeft(initE)) {
       return initE;
     }
-    const [newSourceFile] = initE.right;
+    const [newSourceFile, , , declaredName] = initE.right;
 
     return E.right({
       type: 'ref',
-      name: imp.importedName,
+      name: referenceName(newSourceFile, imp.importedName, declaredName),
       location: newSourceFile.path,
     });
   } else if (id.type === 'MemberExpression') {
@@ -115,7 +131,13 @@ function codecIdentifier(
         return newInitE;
       }
 
-      return E.right({ type: 'ref', name, location: newInitE.right[0].path });
+      const [newSourceFile, , , declaredName] = newInitE.right;
+
+      return E.right({
+        type: 'ref',
+        name: referenceName(newSourceFile, name, declaredName),
+        location: newSourceFile.path,
+      });
     }
 
     // Parse member expressions that come from `import { foo } from 'foo'` imports
@@ -189,6 +211,20 @@ function codecIdentifier(
   return errorLeft(`Unimplemented identifier type ${id.type}`);
 }
 
+// Parse the declaration that a reference points to, which may be in another file
+function parseReferenced(
+  project: Project,
+  source: SourceFile,
+  schema: Reference,
+): E.Either<string, Schema> {
+  const refSource = project.get(schema.location) ?? source;
+  const realInitE = findSymbolInitializer(project, refSource, schema.name);
+  if (E.isLeft(realInitE)) {
+    return realInitE;
+  }
+  return parsePlainInitializer(project, realInitE.right[0], realInitE.right[1]);
+}
+
 function parseObjectExpression(
   project: Project,
   source: SourceFile,
@@ -223,15 +259,7 @@ function parseObjectExpression(
       }
       let schema = schemaE.right;
       if (schema.type === 'ref') {
-        const realInitE = findSymbolInitializer(project, source, schema.name);
-        if (E.isLeft(realInitE)) {
-          return realInitE;
-        }
-        const schemaE = parsePlainInitializer(
-          project,
-          realInitE.right[0],
-          realInitE.right[1],
-        );
+        const schemaE = parseReferenced(project, source, schema);
         if (E.isLeft(schemaE)) {
           return schemaE;
         }
@@ -270,15 +298,7 @@ function parseObjectExpression(
       }
       let schema = valueE.right;
       if (schema.type === 'ref') {
-        const realInitE = findSymbolInitializer(project, source, schema.name);
-        if (E.isLeft(realInitE)) {
-          return realInitE;
-        }
-        const schemaE = parsePlainInitializer(
-          project,
-          realInitE.right[0],
-          realInitE.right[1],
-        );
+        const schemaE = parseReferenced(project, source, schema);
         if (E.isLeft(schemaE)) {
           return schemaE;
         }
@@ -327,15 +347,7 @@ function parseArrayExpression(
     if (element.spread) {
       let init = valueE.right;
       if (init.type === 'ref') {
-        const realInitE = findSymbolInitializer(project, source, init.name);
-        if (E.isLeft(realInitE)) {
-          return realInitE;
-        }
-        const schemaE = parsePlainInitializer(
-          project,
-          realInitE.right[0],
-          realInitE.right[1],
-        );
+        const schemaE = parseReferenced(project, source, init);
         if (E.isLeft(schemaE)) {
           return schemaE;
         }
@@ -370,15 +382,7 @@ function parseTemplateLiteral(
     ) {
       return E.right(String(schema.enum[0]));
     } else if (schema.type === 'ref') {
-      const realInitE = findSymbolInitializer(project, source, schema.name);
-      if (E.isLeft(realInitE)) {
-        return realInitE;
-      }
-      const schemaE = parsePlainInitializer(
-        project,
-        realInitE.right[0],
-        realInitE.right[1],
-      );
+      const schemaE = parseReferenced(project, source, schema);
       if (E.isLeft(schemaE)) {
         return schemaE;
       }
diff --git a/packages/openapi-generator/src/resolveInit.ts b/packages/openapi-generator/src/resolveInit.ts
index eff1797..22bcb43 100644
--- a/packages/openapi-generator/src/resolveInit.ts
+++ b/packages/openapi-generator/src/resolveInit.ts
@@ -7,7 +7,8 @@ import type { Project } from './project';
 import type { SourceFile } from './sourceFile';
 import { errorLeft } from './error';
 
-type ResolvedInitializer = [SourceFile, swc.Expression, Block | undefined];
+// The file, initializer, comment and name of a declaration
+type ResolvedInitializer = [SourceFile, swc.Expression, Block | undefined, string];
 
 function resolveImportPath(
   project: Project,
@@ -58,7 +59,7 @@ export function findSymbolInitializer(
   project: Project,
   sourceFile: SourceFile,
   name: string | [string, string],
-): E.Either<string, [SourceFile, swc.Expression, Block | undefined]> {
+): E.Either<string, ResolvedInitializer> {
   if (Array.isArray(name)) {
     const [importName] = name;
     for (const imp of sourceFile.symbols.imports) {
@@ -74,7 +75,12 @@ export function findSymbolInitializer(
   }
   for (const declaration of sourceFile.symbols.declarations) {
     if (declaration.name === name) {
-      return E.right([sourceFile, declaration.init, declaration.comment]);
+      return E.right([
+        sourceFile,
+        declaration.init,
+        declaration.comment,
+        declaration.name,
+      ]);
     }
   }
   for (const imp of sourceFile.symbols.imports) {
@@ -89,6 +95,12 @@ export function findSymbolInitializer(
       return findExportedDeclaration(project, impSourceFile.right, imp.importedName);
     }
   }
+  // References to aliased and default exports go by their exported name
+  for (const exp of sourceFile.symbols.exports) {
+    if (exp.exportedName === name && exp.localName !== name) {
+      return findSymbolInitializer(project, sourceFile, exp.localName);
+    }
+  }
   return errorLeft(`Unknown identifier ${name}`);
 }
 
diff --git a/packages/openapi-generator/src/symbol.ts b/packages/openapi-generator/src/symbol.ts
index ddb7527..a2be7ee 100644
--- a/packages/openapi-generator/src/symbol.ts
+++ b/packages/openapi-generator/src/symbol.ts
@@ -81,16 +81,18 @@ function parseExportNamedDeclaration(decl: swc.ExportNamedDeclaration): SymbolTa
   decl.specifiers.forEach((specifier) => {
     switch (specifier.type) {
       case 'ExportSpecifier':
+        const exportedName = specifier.exported?.value ?? specifier.orig.value;
         result.exports.push({
           type: 'named',
-          exportedName: specifier.exported?.value ?? specifier.orig.value,
-          localName: specifier.orig.value,
+          exportedName,
+          // A re-export does not create a local name, and exported names are unique
+          localName: decl.source ? exportedName : specifier.orig.value,
         });
         if (decl.source) {
           result.imports.push({
             type: 'named',
             importedName: specifier.orig.value,
-            localName: specifier.orig.value,
+            localName: exportedName,
             from: decl.source.value,
           });
         }
-- 
2.43.0


From 60481f5264824fdf3a93adc6aff72bbbdfd40678 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:48:35 +0000
Subject: [PATCH 10/57] fix: openapi-generator reads through parentheses,
 satisfies and non-null assertions instead of documenting any value

---
 packages/openapi-generator/src/apiSpec.ts     |  4 +++-
 packages/openapi-generator/src/codec.ts       |  6 +++---
 packages/openapi-generator/src/resolveInit.ts | 16 ++++++++++++++++
 3 files changed, 22 insertions(+), 4 deletions(-)

diff --git a/packages/openapi-generator/src/apiSpec.ts b/packages/openapi-generator/src/apiSpec.ts
index 794e358..5563103 100644
--- a/packages/openapi-generator/src/apiSpec.ts
+++ b/packages/openapi-generator/src/apiSpec.ts
@@ -4,7 +4,7 @@ import type { Block } from 'comment-parser';
 
 import { parsePlainInitializer } from './codec';
 import type { Project } from './project';
-import { resolveLiteralOrIdentifier } from './resolveInit';
+import { resolveLiteralOrIdentifier, unwrapExpression } from './resolveInit';
 import { parseRoute, type Route } from './route';
 import { SourceFile } from './sourceFile';
 import { OpenAPIV3 } from 'openapi-types';
@@ -15,6 +15,8 @@ export function parseApiSpec(
   sourceFile: SourceFile,
   expr: swc.Expression,
 ): E.Either<string, Route[]> {
+  expr = unwrapExpression(expr);
+
   // If apiSpec is passed an identifier (variable), first resolve it to its actual value
   if (expr.type === 'Identifier') {
     const resolvedE = resolveLiteralOrIdentifier(project, sourceFile, expr);
diff --git a/packages/openapi-generator/src/codec.ts b/packages/openapi-generator/src/codec.ts
index dacdf27..fd8c7cb 100644
--- a/packages/openapi-generator/src/codec.ts
+++ b/packages/openapi-generator/src/codec.ts
@@ -6,7 +6,7 @@ import { leadingComment } from './comments';
 import type { Object, Reference, Schema } from './ir';
 import type { DerefFn } from './knownImports';
 import type { Project } from './project';
-import { findSymbolInitializer } from './resolveInit';
+import { findSymbolInitializer, unwrapExpression } from './resolveInit';
 import type { SourceFile } from './sourceFile';
 
 import type { KnownCodec } from './knownImports';
@@ -425,6 +425,7 @@ export function parsePlainInitializer(
   source: SourceFile,
   init: swc.Expression,
 ): E.Either<string, Schema> {
+  init = unwrapExpression(init);
   if (init.type === 'ObjectExpression') {
     return parseObjectExpression(project, source, init.span.start, init);
   } else if (init.type === 'ArrayExpression') {
@@ -439,8 +440,6 @@ export function parsePlainInitializer(
     return E.right({ type: 'null', enum: [null] });
   } else if (init.type === 'Identifier' && init.value === 'undefined') {
     return E.right({ type: 'undefined' });
-  } else if (init.type === 'TsConstAssertion' || init.type === 'TsAsExpression') {
-    return parsePlainInitializer(project, source, init.expression);
   } else if (init.type === 'TemplateLiteral') {
     return parseTemplateLiteral(project, source, init);
   } else if (
@@ -480,6 +479,7 @@ export function parseCodecInitializer(
   source: SourceFile,
   init: swc.Expression,
 ): E.Either<string, Schema> {
+  init = unwrapExpression(init);
   if (init.type === 'Identifier' || init.type === 'MemberExpression') {
     const identifierE = codecIdentifier(project, source, init);
     if (E.isLeft(identifierE)) {
diff --git a/packages/openapi-generator/src/resolveInit.ts b/packages/openapi-generator/src/resolveInit.ts
index 22bcb43..5a27679 100644
--- a/packages/openapi-generator/src/resolveInit.ts
+++ b/packages/openapi-generator/src/resolveInit.ts
@@ -104,12 +104,28 @@ export function findSymbolInitializer(
   return errorLeft(`Unknown identifier ${name}`);
 }
 
+// Remove syntax around an expression that does not change its value
+export function unwrapExpression(expr: swc.Expression): swc.Expression {
+  switch (expr.type) {
+    case 'ParenthesisExpression':
+    case 'TsAsExpression':
+    case 'TsConstAssertion':
+    case 'TsNonNullExpression':
+    case 'TsSatisfiesExpression':
+    case 'TsTypeAssertion':
+      return unwrapExpression(expr.expression);
+    default:
+      return expr;
+  }
+}
+
 export function resolveLiteralOrIdentifier(
   project: Project,
   sourceFile: SourceFile,
   expr: swc.Expression,
   comment?: Block,
 ): E.Either<string, [SourceFile, swc.Expression, Block | undefined]> {
+  expr = unwrapExpression(expr);
   if (expr.type === 'Identifier' || expr.type === 'MemberExpression') {
     let name: string | [string, string];
     if (expr.type === 'Identifier') {
-- 
2.43.0


From 9fbac068c70fba09aad9375366b031a91b265dd6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:49:24 +0000
Subject: [PATCH 11/57] fix: openapi-generator adds each of several components
 with the same name once and under a free name

---
 packages/openapi-generator/src/cli.ts | 23 ++++++++---------------
 1 file changed, 8 insertions(+), 15 deletions(-)

diff --git a/packages/openapi-generator/src/cli.ts b/packages/openapi-generator/src/cli.ts
index a51f8b7..f39c6b3 100644
--- a/packages/openapi-generator/src/cli.ts
+++ b/packages/openapi-generator/src/cli.ts
@@ -157,35 +157,29 @@ const app = command({
         ...Object.values(route.response),
       ];
     });
-    const componentLocations: Record<string, string> = {};
     const componentCollisionCounters: Record<string, number> = {};
     const componentNameMapping: Record<string, Record<string, string>> = {};
 
     // Helper to generate unique component names (name, name1, name2, ...)
     const getUniqueComponentName = (name: string): string => {
-      if (components[name] === undefined) {
-        return name;
+      let uniqueName = name;
+      while (components[uniqueName] !== undefined) {
+        const counter = (componentCollisionCounters[name] ?? 0) + 1;
+        componentCollisionCounters[name] = counter;
+        uniqueName = `${name}${counter}`;
       }
-      const counter = (componentCollisionCounters[name] ?? 0) + 1;
-      componentCollisionCounters[name] = counter;
-      return `${name}${counter}`;
+      return uniqueName;
     };
 
     let schema: Schema | undefined;
     while (((schema = queue.pop()), schema !== undefined)) {
       const refs = getRefs(schema, project.getTypes());
       for (const ref of refs) {
-        if (
-          components[ref.name] !== undefined &&
-          componentLocations[ref.name] === ref.location
-        ) {
+        if (componentNameMapping[ref.location]?.[ref.name] !== undefined) {
           continue;
         }
 
-        const componentName =
-          components[ref.name] !== undefined
-            ? getUniqueComponentName(ref.name)
-            : ref.name;
+        const componentName = getUniqueComponentName(ref.name);
 
         // Track the mapping: location -> originalName -> finalComponentName
         if (componentNameMapping[ref.location] === undefined) {
@@ -247,7 +241,6 @@ const app = command({
         }
 
         components[componentName] = codecE.right;
-        componentLocations[componentName] = ref.location;
         queue.push(codecE.right);
       }
     }
-- 
2.43.0


From 11a942c8bace49f2cadc33de724995ddfa991781 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:50:20 +0000
Subject: [PATCH 12/57] fix: openapi-generator finds codecs of other packages
 in the package they are imported from

---
 packages/openapi-generator/src/cli.ts         | 22 ++++++++++++++++---
 packages/openapi-generator/src/codec.ts       | 18 ++++++++++-----
 packages/openapi-generator/src/project.ts     | 13 +++++++++--
 packages/openapi-generator/src/ref.ts         | 18 ++++++++++-----
 packages/openapi-generator/src/resolveInit.ts | 19 ++++++++++++++++
 5 files changed, 74 insertions(+), 16 deletions(-)

diff --git a/packages/openapi-generator/src/cli.ts b/packages/openapi-generator/src/cli.ts
index f39c6b3..c946f39 100644
--- a/packages/openapi-generator/src/cli.ts
+++ b/packages/openapi-generator/src/cli.ts
@@ -11,11 +11,11 @@ import { parseApiSpec, parseApiSpecComment } from './apiSpec';
 import { getRefs } from './ref';
 import { convertRoutesToOpenAPI } from './openapi';
 import type { Route } from './route';
-import type { Schema } from './ir';
+import type { Reference, Schema } from './ir';
 import { getPackageJsonPath } from './packageInfo';
 import { Project } from './project';
 import { KNOWN_IMPORTS } from './knownImports';
-import { findSymbolInitializer } from './resolveInit';
+import { findSymbolInitializer, resolveExternalReference } from './resolveInit';
 import { parseCodecInitializer } from './codec';
 import { SourceFile } from './sourceFile';
 import { logError, logInfo, logWarn } from './error';
@@ -171,9 +171,19 @@ const app = command({
       return uniqueName;
     };
 
+    // References into other packages, and the declarations they stand for
+    const externalRefs: [Reference, Reference][] = [];
+    const resolveExternal = (ref: Reference): Reference | undefined => {
+      const resolved = resolveExternalReference(project, ref);
+      if (resolved !== undefined) {
+        externalRefs.push([ref, resolved]);
+      }
+      return resolved;
+    };
+
     let schema: Schema | undefined;
     while (((schema = queue.pop()), schema !== undefined)) {
-      const refs = getRefs(schema, project.getTypes());
+      const refs = getRefs(schema, project.getTypes(), resolveExternal);
       for (const ref of refs) {
         if (componentNameMapping[ref.location]?.[ref.name] !== undefined) {
           continue;
@@ -245,6 +255,12 @@ const app = command({
       }
     }
 
+    for (const [ref, { name, location }] of externalRefs) {
+      componentNameMapping[ref.location] ??= {};
+      componentNameMapping[ref.location]![ref.name] =
+        componentNameMapping[location]![name]!;
+    }
+
     const openapi = convertRoutesToOpenAPI(
       {
         title: name,
diff --git a/packages/openapi-generator/src/codec.ts b/packages/openapi-generator/src/codec.ts
index fd8c7cb..8a7b483 100644
--- a/packages/openapi-generator/src/codec.ts
+++ b/packages/openapi-generator/src/codec.ts
@@ -6,7 +6,11 @@ import { leadingComment } from './comments';
 import type { Object, Reference, Schema } from './ir';
 import type { DerefFn } from './knownImports';
 import type { Project } from './project';
-import { findSymbolInitializer, unwrapExpression } from './resolveInit';
+import {
+  findSymbolInitializer,
+  resolveExternalReference,
+  unwrapExpression,
+} from './resolveInit';
 import type { SourceFile } from './sourceFile';
 
 import type { KnownCodec } from './knownImports';
@@ -537,22 +541,24 @@ export function parseCodecInitializer(
         return E.right(schema);
       } else {
         let refSource = project.get(schema.location);
+        let refName = schema.name;
 
         if (refSource === undefined) {
-          // schema.location might be a package name -> need to resolve the path from the project types
-          const path = project.getTypes()[schema.name];
-          if (path === undefined)
+          // schema.location might be a package name -> need to find the file in the package
+          const resolved = resolveExternalReference(project, schema);
+          if (resolved === undefined)
             return errorLeft(
               `Cannot find external codec '${schema.name}' from module '${schema.location}'. ` +
                 `To fix this, add the codec definition to your codec config file. ` +
                 `See: https://github.com/BitGo/api-ts/tree/master/packages/openapi-generator#4-defining-custom-codecs`,
             );
-          refSource = project.get(path);
+          refSource = project.get(resolved.location);
           if (refSource === undefined) {
             return errorLeft(`Cannot find '${schema.name}' from '${schema.location}'`);
           }
+          refName = resolved.name;
         }
-        const initE = findSymbolInitializer(project, refSource, schema.name);
+        const initE = findSymbolInitializer(project, refSource, refName);
         if (E.isLeft(initE)) {
           return initE;
         }
diff --git a/packages/openapi-generator/src/project.ts b/packages/openapi-generator/src/project.ts
index 1075690..856db56 100644
--- a/packages/openapi-generator/src/project.ts
+++ b/packages/openapi-generator/src/project.ts
@@ -18,6 +18,7 @@ export class Project {
   private types: Record<string, string>;
   private typeCollisionCounters: Record<string, number>;
   private visitedPackages: Set<string>;
+  private packageEntryPoints: Record<string, string>;
 
   constructor(files: Record<string, SourceFile> = {}, knownImports = KNOWN_IMPORTS) {
     this.processedFiles = files;
@@ -26,6 +27,7 @@ export class Project {
     this.types = {};
     this.typeCollisionCounters = {};
     this.visitedPackages = new Set();
+    this.packageEntryPoints = {};
   }
 
   add(path: string, sourceFile: SourceFile): void {
@@ -99,8 +101,11 @@ export class Project {
             }
 
             const entryPoint = this.resolveEntryPoint(baseDir, sym.from);
-            if (E.isRight(entryPoint) && !this.has(entryPoint.right)) {
-              queue.push(entryPoint.right);
+            if (E.isRight(entryPoint)) {
+              this.packageEntryPoints[sym.from] ??= entryPoint.right;
+              if (!this.has(entryPoint.right)) {
+                queue.push(entryPoint.right);
+              }
             }
           } else {
             const absImportPathE = this.resolve(baseDir, sym.from);
@@ -185,6 +190,10 @@ export class Project {
     return this.knownImports[baseKey]?.[name];
   }
 
+  getPackageEntryPoint(packageName: string): string | undefined {
+    return this.packageEntryPoints[packageName];
+  }
+
   getTypes() {
     return this.types;
   }
diff --git a/packages/openapi-generator/src/ref.ts b/packages/openapi-generator/src/ref.ts
index 5e10ca4..5d6c3cf 100644
--- a/packages/openapi-generator/src/ref.ts
+++ b/packages/openapi-generator/src/ref.ts
@@ -1,10 +1,18 @@
 import type { Schema, Reference } from './ir';
 import fs from 'fs';
 
-export function getRefs(schema: Schema, typeMap: Record<string, string>): Reference[] {
+export function getRefs(
+  schema: Schema,
+  typeMap: Record<string, string>,
+  resolveExternal?: (ref: Reference) => Reference | undefined,
+): Reference[] {
   if (schema.type === 'ref') {
     if (!fs.existsSync(schema.location)) {
       // The location is a node module - we need to populate the location here
+      const resolved = resolveExternal?.(schema);
+      if (resolved !== undefined) {
+        return [resolved];
+      }
       const newPath = typeMap[schema.name];
       if (!newPath) {
         return [];
@@ -14,21 +22,21 @@ export function getRefs(schema: Schema, typeMap: Record<string, string>): Refere
     }
     return [schema];
   } else if (schema.type === 'array') {
-    return getRefs(schema.items, typeMap);
+    return getRefs(schema.items, typeMap, resolveExternal);
   } else if (
     schema.type === 'intersection' ||
     schema.type === 'union' ||
     schema.type === 'tuple'
   ) {
     return schema.schemas.reduce<Reference[]>((acc, member) => {
-      return [...acc, ...getRefs(member, typeMap)];
+      return [...acc, ...getRefs(member, typeMap, resolveExternal)];
     }, []);
   } else if (schema.type === 'object') {
     return Object.values(schema.properties).reduce<Reference[]>((acc, member) => {
-      return [...acc, ...getRefs(member, typeMap)];
+      return [...acc, ...getRefs(member, typeMap, resolveExternal)];
     }, []);
   } else if (schema.type === 'record') {
-    return getRefs(schema.codomain, typeMap);
+    return getRefs(schema.codomain, typeMap, resolveExternal);
   } else {
     return [];
   }
diff --git a/packages/openapi-generator/src/resolveInit.ts b/packages/openapi-generator/src/resolveInit.ts
index 5a27679..93caf80 100644
--- a/packages/openapi-generator/src/resolveInit.ts
+++ b/packages/openapi-generator/src/resolveInit.ts
@@ -3,6 +3,7 @@ import type { Block } from 'comment-parser';
 import * as E from 'fp-ts/Either';
 import { dirname } from 'node:path';
 
+import type { Reference } from './ir';
 import type { Project } from './project';
 import type { SourceFile } from './sourceFile';
 import { errorLeft } from './error';
@@ -104,6 +105,24 @@ export function findSymbolInitializer(
   return errorLeft(`Unknown identifier ${name}`);
 }
 
+// Find the file that declares what a reference into another package points to
+export function resolveExternalReference(
+  project: Project,
+  ref: Reference,
+): Reference | undefined {
+  const entryPoint = project.getPackageEntryPoint(ref.location);
+  const entryFile = entryPoint !== undefined ? project.get(entryPoint) : undefined;
+  if (entryFile !== undefined) {
+    const initE = findExportedDeclaration(project, entryFile, ref.name);
+    if (E.isRight(initE)) {
+      const [newSourceFile, , , name] = initE.right;
+      return { ...ref, name, location: newSourceFile.path };
+    }
+  }
+  const location = project.getTypes()[ref.name];
+  return location !== undefined ? { ...ref, location } : undefined;
+}
+
 // Remove syntax around an expression that does not change its value
 export function unwrapExpression(expr: swc.Expression): swc.Expression {
   switch (expr.type) {
-- 
2.43.0


From bf53ec0789a83fd63103d437de96497b6f028aa9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:50:48 +0000
Subject: [PATCH 13/57] fix: openapi-generator projects do not share the custom
 codecs of packages they load

---
 packages/openapi-generator/src/project.ts | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/packages/openapi-generator/src/project.ts b/packages/openapi-generator/src/project.ts
index 856db56..b1d5431 100644
--- a/packages/openapi-generator/src/project.ts
+++ b/packages/openapi-generator/src/project.ts
@@ -23,7 +23,7 @@ export class Project {
   constructor(files: Record<string, SourceFile> = {}, knownImports = KNOWN_IMPORTS) {
     this.processedFiles = files;
     this.pendingFiles = new Set();
-    this.knownImports = knownImports;
+    this.knownImports = { ...knownImports };
     this.types = {};
     this.typeCollisionCounters = {};
     this.visitedPackages = new Set();
-- 
2.43.0


From 2ada4b1f928fbf059090ec93664d4da62b1a4999 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:53:33 +0000
Subject: [PATCH 14/57] fix: openapi-generator attaches exactly the JSDoc
 comment in front of a declaration or property

---
 packages/openapi-generator/src/codec.ts    | 11 +++++-
 packages/openapi-generator/src/comments.ts | 46 ++++------------------
 packages/openapi-generator/src/symbol.ts   | 20 ++++++----
 3 files changed, 29 insertions(+), 48 deletions(-)

diff --git a/packages/openapi-generator/src/codec.ts b/packages/openapi-generator/src/codec.ts
index 8a7b483..d42d185 100644
--- a/packages/openapi-generator/src/codec.ts
+++ b/packages/openapi-generator/src/codec.ts
@@ -253,8 +253,16 @@ function parseObjectExpression(
       if (E.isLeft(valueE)) {
         return valueE;
       }
-      result.properties[name] = valueE.right;
+      const comment = leadingComment(
+        source.src,
+        source.span.start,
+        commentStartIdx,
+        property.span.start,
+      ).pop();
+      result.properties[name] =
+        comment !== undefined ? { ...valueE.right, comment } : valueE.right;
       result.required.push(name);
+      commentStartIdx = property.span.end;
       continue;
     } else if (property.type === 'SpreadElement') {
       const schemaE = parsePlainInitializer(project, source, property.arguments);
@@ -274,6 +282,7 @@ function parseObjectExpression(
       }
       Object.assign(result.properties, schema.properties);
       result.required.push(...schema.required);
+      commentStartIdx = (property.arguments as swc.HasSpan).span.end;
       continue;
     } else if (property.type !== 'KeyValueProperty') {
       return errorLeft(`Unimplemented property type ${property.type}`);
diff --git a/packages/openapi-generator/src/comments.ts b/packages/openapi-generator/src/comments.ts
index bd8f135..5ddc0eb 100644
--- a/packages/openapi-generator/src/comments.ts
+++ b/packages/openapi-generator/src/comments.ts
@@ -19,7 +19,7 @@ function byteOffsetToCharOffset(str: string, byteOffset: number): number {
     const charBytes = Buffer.byteLength(char, 'utf8');
     if (byteCount + charBytes > byteOffset) break;
     byteCount += charBytes;
-    charCount++;
+    charCount += char.length;
   }
 
   return charCount;
@@ -40,44 +40,12 @@ export function leadingComment(
   const startCharOffset = byteOffsetToCharOffset(src, startByteOffset);
   const endCharOffset = byteOffsetToCharOffset(src, endByteOffset);
 
-  let commentString = src.slice(startCharOffset, endCharOffset).trim();
-
-  if (commentString.includes(' * ') && !/\/\*\*([\s\S]*?)\*\//.test(commentString)) {
-    // The comment block seems to be JSDoc but was sliced incorrectly
-
-    const beginningSubstring = '/**\n';
-    const endingSubstring = '\n */';
-
-    if (commentString.includes(beginningSubstring)) {
-      // Use lastIndexOf to get the LAST occurrence of '/**\n' to handle cases where
-      // the slice includes parts of previous properties
-      const lastIdx = commentString.lastIndexOf(beginningSubstring);
-      commentString = commentString.substring(lastIdx);
-    } else {
-      switch (commentString.split('\n')[0]) {
-        case '**':
-          commentString = '/' + commentString;
-          break;
-        case '*':
-          commentString = '/*' + commentString;
-          break;
-        case '':
-          commentString = '/**' + commentString;
-          break;
-        default:
-          commentString = beginningSubstring + commentString;
-          break;
-      }
-    }
-
-    if (commentString.includes(endingSubstring)) {
-      // Use indexOf to get the FIRST occurrence of '\n */' after isolating the last comment block
-      const firstIdx = commentString.indexOf(endingSubstring);
-      commentString = commentString.substring(0, firstIdx + endingSubstring.length);
-    } else {
-      commentString = commentString + endingSubstring;
-    }
-  }
+  // Only JSDoc comments count, wherever they start on a line
+  const commentString = (
+    src.slice(startCharOffset, endCharOffset).match(/\/\/.*|\/\*[\s\S]*?\*\//g) ?? []
+  )
+    .filter((comment) => /^\/\*\*(?![*/])/.test(comment))
+    .join('\n');
 
   const parsedComment = parseComment(commentString, { spacing: 'preserve' });
 
diff --git a/packages/openapi-generator/src/symbol.ts b/packages/openapi-generator/src/symbol.ts
index a2be7ee..50f8656 100644
--- a/packages/openapi-generator/src/symbol.ts
+++ b/packages/openapi-generator/src/symbol.ts
@@ -127,10 +127,12 @@ function parseDeclaration(
     decl.type === 'ExportDeclaration' ? decl.declaration : decl;
 
   if (subDeclaration.type === 'VariableDeclaration') {
-    const comment =
-      prev !== undefined
-        ? leadingComment(src, srcSpanStart, prev.span.end, decl.span.start)[0]
-        : undefined;
+    const comment = leadingComment(
+      src,
+      srcSpanStart,
+      prev !== undefined ? prev.span.end : srcSpanStart,
+      decl.span.start,
+    ).pop();
     subDeclaration.declarations.forEach((d) => {
       if (
         d.type === 'VariableDeclarator' &&
@@ -153,10 +155,12 @@ function parseDeclaration(
       }
     });
   } else if (subDeclaration.type === 'TsEnumDeclaration') {
-    const comment =
-      prev !== undefined
-        ? leadingComment(src, srcSpanStart, prev.span.end, decl.span.start)[0]
-        : undefined;
+    const comment = leadingComment(
+      src,
+      srcSpanStart,
+      prev !== undefined ? prev.span.end : srcSpanStart,
+      decl.span.start,
+    ).pop();
     // Construct a synthetic object declaration
     const properties: swc.KeyValueProperty[] = subDeclaration.members.map((member) => {
       return {
-- 
2.43.0


From bd8c954185b3ee602d3f1b35ad9d1443281b260a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:56:10 +0000
Subject: [PATCH 15/57] fix: openapi-generator keeps headers and path
 parameters of request unions whose members are declared separately

---
 packages/openapi-generator/src/route.ts | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/packages/openapi-generator/src/route.ts b/packages/openapi-generator/src/route.ts
index 69eeb7c..ffece0b 100644
--- a/packages/openapi-generator/src/route.ts
+++ b/packages/openapi-generator/src/route.ts
@@ -130,6 +130,8 @@ function parseRequestUnion(
   const headerSchema: Schema = { type: 'union', schemas: [] };
   let body: Schema | undefined;
 
+  const subSchemas: Schema[] = [];
+
   for (let subSchema of schema.schemas) {
     if (subSchema.type === 'ref') {
       let derefE = derefRequestSchema(project, subSchema);
@@ -138,6 +140,7 @@ function parseRequestUnion(
       }
       subSchema = derefE.right;
     }
+    subSchemas.push(subSchema);
 
     if (subSchema.type !== 'object') {
       return errorLeft('Route request union must be all objects');
@@ -172,7 +175,7 @@ function parseRequestUnion(
     // For headers in unions, deduplicate and merge properties from all schemas
     const headerParams = new Map<string, Parameter>();
 
-    for (const subSchema of schema.schemas) {
+    for (const subSchema of subSchemas) {
       if (
         subSchema.type === 'object' &&
         subSchema.properties['headers']?.type === 'object'
@@ -196,7 +199,7 @@ function parseRequestUnion(
   }
 
   // Find the first schema in the union that has path parameters
-  for (const subSchema of schema.schemas) {
+  for (const subSchema of subSchemas) {
     if (subSchema.type === 'object') {
       const pathSchema = subSchema.properties['params'];
       if (pathSchema !== undefined && pathSchema.type === 'object') {
-- 
2.43.0


From e9a81f00b16e250ae67f3db697ac137ee937d68e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:01:44 +0000
Subject: [PATCH 16/57] fix: openapi-generator follows aliases of aliases in
 spreads, computed keys and templates

---
 packages/openapi-generator/src/codec.ts | 26 +++++++++++++++++++------
 1 file changed, 20 insertions(+), 6 deletions(-)

diff --git a/packages/openapi-generator/src/codec.ts b/packages/openapi-generator/src/codec.ts
index d42d185..77c40f2 100644
--- a/packages/openapi-generator/src/codec.ts
+++ b/packages/openapi-generator/src/codec.ts
@@ -221,12 +221,26 @@ function parseReferenced(
   source: SourceFile,
   schema: Reference,
 ): E.Either<string, Schema> {
-  const refSource = project.get(schema.location) ?? source;
-  const realInitE = findSymbolInitializer(project, refSource, schema.name);
-  if (E.isLeft(realInitE)) {
-    return realInitE;
+  const seen = new Set<swc.Expression>();
+  let referenced: Schema = schema;
+  while (referenced.type === 'ref') {
+    const refSource: SourceFile = project.get(referenced.location) ?? source;
+    const realInitE = findSymbolInitializer(project, refSource, referenced.name);
+    if (E.isLeft(realInitE)) {
+      return realInitE;
+    }
+    const [newSourceFile, init] = realInitE.right;
+    if (seen.has(init)) {
+      return errorLeft(`'${schema.name}' refers to itself`);
+    }
+    seen.add(init);
+    const schemaE = parsePlainInitializer(project, newSourceFile, init);
+    if (E.isLeft(schemaE)) {
+      return schemaE;
+    }
+    referenced = schemaE.right;
   }
-  return parsePlainInitializer(project, realInitE.right[0], realInitE.right[1]);
+  return E.right(referenced);
 }
 
 function parseObjectExpression(
@@ -305,7 +319,7 @@ function parseObjectExpression(
 
     let name: string = '';
     if (property.key.type === 'Computed') {
-      const valueE = parseCodecInitializer(project, source, property.key.expression);
+      const valueE = parsePlainInitializer(project, source, property.key.expression);
       if (E.isLeft(valueE)) {
         return valueE;
       }
-- 
2.43.0


From c9cfabe06838e84664cbd166cedd1f84f3921a9d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:02:13 +0000
Subject: [PATCH 17/57] fix: openapi-generator follows aliases of aliases in
 requests and routes

---
 packages/openapi-generator/src/knownImports.ts | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/packages/openapi-generator/src/knownImports.ts b/packages/openapi-generator/src/knownImports.ts
index 6437e15..f7b364b 100644
--- a/packages/openapi-generator/src/knownImports.ts
+++ b/packages/openapi-generator/src/knownImports.ts
@@ -24,6 +24,15 @@ function isOptional(schema: Schema): boolean {
   }
 }
 
+// Look through all aliases of what a reference points to
+function derefAll(deref: DerefFn, schema: Schema): E.Either<string, Schema> {
+  const derefedE = deref(schema);
+  if (E.isRight(derefedE) && derefedE.right.type === 'ref') {
+    return derefAll(deref, derefedE.right);
+  }
+  return derefedE;
+}
+
 // TODO: Read this from a JSON (or YAML?) file
 
 export const KNOWN_IMPORTS: KnownImports = {
@@ -424,7 +433,7 @@ export const KNOWN_IMPORTS: KnownImports = {
       }
       const properties: Record<string, Schema> = {};
       for (const [outerKey, outerValue] of Object.entries(arg.properties)) {
-        const innerPropsE = deref(outerValue);
+        const innerPropsE = derefAll(deref, outerValue);
 
         if (E.isLeft(innerPropsE)) {
           return innerPropsE;
@@ -454,7 +463,7 @@ export const KNOWN_IMPORTS: KnownImports = {
       }
       const props: Record<string, Schema> = {};
       for (const [key, value] of Object.entries(schema.properties)) {
-        const derefedE = deref(value);
+        const derefedE = derefAll(deref, value);
         if (E.isLeft(derefedE)) {
           return derefedE;
         }
-- 
2.43.0


From 3d005d312af5d20d7557beb25844b23a08160a9d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:03:14 +0000
Subject: [PATCH 18/57] fix: openapi-generator does not require properties
 whose optional codec is declared separately

---
 packages/openapi-generator/src/codec.ts       | 62 ++++++++++++++++++-
 .../openapi-generator/src/knownImports.ts     |  2 +-
 2 files changed, 61 insertions(+), 3 deletions(-)

diff --git a/packages/openapi-generator/src/codec.ts b/packages/openapi-generator/src/codec.ts
index 77c40f2..277691c 100644
--- a/packages/openapi-generator/src/codec.ts
+++ b/packages/openapi-generator/src/codec.ts
@@ -4,7 +4,7 @@ import { pipe } from 'fp-ts/lib/function';
 
 import { leadingComment } from './comments';
 import type { Object, Reference, Schema } from './ir';
-import type { DerefFn } from './knownImports';
+import { isOptional, type DerefFn } from './knownImports';
 import type { Project } from './project';
 import {
   findSymbolInitializer,
@@ -243,6 +243,63 @@ function parseReferenced(
   return E.right(referenced);
 }
 
+// Whether the declarations behind references accept `undefined`
+const acceptsUndefinedCache = new WeakMap<swc.Expression, boolean>();
+
+function acceptsUndefined(project: Project, schema: Schema): boolean {
+  if (schema.type === 'undefined') {
+    return true;
+  } else if (schema.type === 'union') {
+    return schema.schemas.some((s) => acceptsUndefined(project, s));
+  } else if (schema.type === 'intersection') {
+    return (
+      schema.schemas.length > 0 &&
+      schema.schemas.every((s) => acceptsUndefined(project, s))
+    );
+  } else if (schema.type !== 'ref') {
+    return false;
+  }
+
+  const ref = project.get(schema.location)
+    ? schema
+    : resolveExternalReference(project, schema);
+  const refSource = ref !== undefined ? project.get(ref.location) : undefined;
+  if (ref === undefined || refSource === undefined) {
+    return false;
+  }
+  const initE = findSymbolInitializer(project, refSource, ref.name);
+  if (E.isLeft(initE) || initE.right[1] === null) {
+    return false;
+  }
+  const [newSourceFile, init] = initE.right;
+  let result = acceptsUndefinedCache.get(init);
+  if (result === undefined) {
+    acceptsUndefinedCache.set(init, false);
+    const schemaE = parsePlainInitializer(project, newSourceFile, init);
+    result = E.isRight(schemaE) && acceptsUndefined(project, schemaE.right);
+    acceptsUndefinedCache.set(init, result);
+  }
+  return result;
+}
+
+// Properties whose codec is declared elsewhere as an optional one are not required
+function withoutOptionalReferences(project: Project, schema: Schema): Schema {
+  if (schema.type !== 'object') {
+    return schema;
+  }
+  return {
+    ...schema,
+    required: schema.required.filter((key) => {
+      const property = schema.properties[key];
+      return (
+        property === undefined ||
+        isOptional(property) ||
+        !acceptsUndefined(project, property)
+      );
+    }),
+  };
+}
+
 function parseObjectExpression(
   project: Project,
   source: SourceFile,
@@ -353,7 +410,7 @@ function parseObjectExpression(
         : valueE.right;
     result.required.push(String(name));
   }
-  return E.right(result);
+  return E.right(withoutOptionalReferences(project, result));
 }
 
 function parseArrayExpression(
@@ -603,6 +660,7 @@ export function parseCodecInitializer(
       E.sequenceArray,
       E.chain((args) => pipe(args.map(deref), E.sequenceArray)),
       E.chain((args) => identifier.schema(deref, ...args)),
+      E.map((schema) => withoutOptionalReferences(project, schema)),
     );
   } else {
     return errorLeft(`Unimplemented initializer type ${init.type}`);
diff --git a/packages/openapi-generator/src/knownImports.ts b/packages/openapi-generator/src/knownImports.ts
index f7b364b..7264f63 100644
--- a/packages/openapi-generator/src/knownImports.ts
+++ b/packages/openapi-generator/src/knownImports.ts
@@ -14,7 +14,7 @@ export type KnownImportEntry = Record<string, KnownCodec>;
 
 export type KnownImports = Record<string, KnownImportEntry>;
 
-function isOptional(schema: Schema): boolean {
+export function isOptional(schema: Schema): boolean {
   if (schema.type === 'undefined') {
     return true;
   } else if (schema.type === 'union') {
-- 
2.43.0


From 28292ec342104f6aa594613d3c558ff7f6a50e89 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:05:21 +0000
Subject: [PATCH 19/57] fix: openapi-generator documents shared codecs that
 accept nothing but undefined instead of leaving dangling references

---
 packages/openapi-generator/src/openapi.ts | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/packages/openapi-generator/src/openapi.ts b/packages/openapi-generator/src/openapi.ts
index 5560c9b..e247b89 100644
--- a/packages/openapi-generator/src/openapi.ts
+++ b/packages/openapi-generator/src/openapi.ts
@@ -508,10 +508,9 @@ export function convertRoutesToOpenAPI(
 
   const openapiSchemas = Object.entries(schemas).reduce(
     (acc, [name, schema]) => {
-      const openapiSchema = schemaToOpenAPI(schema, componentNameMapping);
-      if (openapiSchema === undefined) {
-        return acc;
-      } else if ('$ref' in openapiSchema) {
+      // References need something to point to, even if there is nothing to document
+      const openapiSchema = schemaToOpenAPI(schema, componentNameMapping) ?? {};
+      if ('$ref' in openapiSchema) {
         return {
           ...acc,
           [name]: {
-- 
2.43.0


From 06ceaacec4c650b7dc0b97ecd07c4da7bc4b5eb2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:06:55 +0000
Subject: [PATCH 20/57] fix: openapi-generator lists the keys of records whose
 domain is a union of separately declared codecs

---
 .../openapi-generator/src/knownImports.ts     | 27 ++++++++++++++++---
 1 file changed, 24 insertions(+), 3 deletions(-)

diff --git a/packages/openapi-generator/src/knownImports.ts b/packages/openapi-generator/src/knownImports.ts
index 7264f63..a4b2af4 100644
--- a/packages/openapi-generator/src/knownImports.ts
+++ b/packages/openapi-generator/src/knownImports.ts
@@ -1,4 +1,5 @@
 import * as E from 'fp-ts/Either';
+import { pipe } from 'fp-ts/lib/function';
 
 import { isPrimitive, type Schema } from './ir';
 import { errorLeft } from './error';
@@ -33,6 +34,23 @@ function derefAll(deref: DerefFn, schema: Schema): E.Either<string, Schema> {
   return derefedE;
 }
 
+// Look through references among the alternatives of a union
+function derefAlternatives(deref: DerefFn, schema: Schema): E.Either<string, Schema> {
+  if (schema.type === 'union') {
+    return pipe(
+      schema.schemas,
+      E.traverseArray((s) => derefAlternatives(deref, s)),
+      E.map((schemas) => ({ ...schema, schemas: [...schemas] })),
+    );
+  } else if (schema.type === 'ref') {
+    return pipe(
+      derefAll(deref, schema),
+      E.chain((s) => derefAlternatives(deref, s)),
+    );
+  }
+  return E.right(schema);
+}
+
 // TODO: Read this from a JSON (or YAML?) file
 
 export const KNOWN_IMPORTS: KnownImports = {
@@ -105,12 +123,15 @@ export const KNOWN_IMPORTS: KnownImports = {
         required: Object.keys(props),
       });
     },
-    record: (_, domain, codomain) => {
+    record: (deref, domain, codomain) => {
       if (!codomain) {
         return errorLeft('Codomain of record must be specified');
-      } else {
-        return E.right({ type: 'record', domain, codomain });
       }
+      const domainE = derefAlternatives(deref, domain);
+      if (E.isLeft(domainE)) {
+        return domainE;
+      }
+      return E.right({ type: 'record', domain: domainE.right, codomain });
     },
     union: (_, schema) => {
       if (schema.type !== 'tuple') {
-- 
2.43.0


From fe67b256af0db152307c8bf2caa689d4665f9956 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:11:40 +0000
Subject: [PATCH 21/57] fix: openapi-generator does not require the keys of
 records with optional values

---
 packages/openapi-generator/src/codec.ts   | 10 +++++++++-
 packages/openapi-generator/src/openapi.ts |  6 ++++--
 2 files changed, 13 insertions(+), 3 deletions(-)

diff --git a/packages/openapi-generator/src/codec.ts b/packages/openapi-generator/src/codec.ts
index 277691c..3cb3891 100644
--- a/packages/openapi-generator/src/codec.ts
+++ b/packages/openapi-generator/src/codec.ts
@@ -284,7 +284,15 @@ function acceptsUndefined(project: Project, schema: Schema): boolean {
 
 // Properties whose codec is declared elsewhere as an optional one are not required
 function withoutOptionalReferences(project: Project, schema: Schema): Schema {
-  if (schema.type !== 'object') {
+  if (schema.type === 'record') {
+    const { codomain } = schema;
+    return isOptional(codomain) || !acceptsUndefined(project, codomain)
+      ? schema
+      : {
+          ...schema,
+          codomain: { type: 'union', schemas: [codomain, { type: 'undefined' }] },
+        };
+  } else if (schema.type !== 'object') {
     return schema;
   }
   return {
diff --git a/packages/openapi-generator/src/openapi.ts b/packages/openapi-generator/src/openapi.ts
index e247b89..87766a5 100644
--- a/packages/openapi-generator/src/openapi.ts
+++ b/packages/openapi-generator/src/openapi.ts
@@ -2,7 +2,7 @@ import { OpenAPIV3 } from 'openapi-types';
 
 import { STATUS_CODES } from 'http';
 import { parseCommentBlock } from './jsdoc';
-import { optimize } from './optimize';
+import { filterUndefinedUnion, optimize } from './optimize';
 import type { Route } from './route';
 import type { Schema } from './ir';
 import { Block } from 'comment-parser';
@@ -253,11 +253,13 @@ export function schemaToOpenAPI(
               return { ...acc, [key]: additionalProperties };
             }, {});
 
+            const [hasOptionalValues] = filterUndefinedUnion(schema.codomain);
+
             return {
               type: 'object',
               properties,
               ...defaultOpenAPIObject,
-              required: keys.enum,
+              ...(hasOptionalValues ? {} : { required: keys.enum }),
             };
           }
         }
-- 
2.43.0


From 81a5e6ba0e3ffd8ca6e0173efffad558de10d22c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:13:22 +0000
Subject: [PATCH 22/57] fix: openapi-generator keeps null in optional unions
 outside object properties

---
 packages/openapi-generator/src/openapi.ts | 15 +++++++++++++--
 1 file changed, 13 insertions(+), 2 deletions(-)

diff --git a/packages/openapi-generator/src/openapi.ts b/packages/openapi-generator/src/openapi.ts
index 87766a5..37e99f2 100644
--- a/packages/openapi-generator/src/openapi.ts
+++ b/packages/openapi-generator/src/openapi.ts
@@ -149,7 +149,7 @@ export function schemaToOpenAPI(
         );
         // Several alternatives are left besides `undefined`: keep all of them
         const nonUndefinedSchema: Schema | undefined =
-          nonUndefinedSchemas.filter((s) => s.type !== 'null').length > 1
+          nonUndefinedSchemas.length > 1
             ? { type: 'union', schemas: nonUndefinedSchemas }
             : nonUndefinedSchemas[0];
         // If nullSchema exists, that means that the union is also nullable
@@ -376,6 +376,14 @@ export function schemaToOpenAPI(
   return openAPIObject;
 }
 
+// An optional parameter is left out rather than sent as `null`
+function withoutNullInOptional(schema: Schema): Schema {
+  if (schema.type !== 'union' || !schema.schemas.some((s) => s.type === 'undefined')) {
+    return schema;
+  }
+  return { ...schema, schemas: schema.schemas.filter((s) => s.type !== 'null') };
+}
+
 function routeToOpenAPI(
   route: Route,
   componentNameMapping?: ComponentNameMapping,
@@ -446,7 +454,10 @@ function routeToOpenAPI(
         : {}),
       parameters: route.parameters.map((p) => {
         // Array types not allowed here
-        const schema = schemaToOpenAPI(p.schema, componentNameMapping);
+        const schema = schemaToOpenAPI(
+          withoutNullInOptional(p.schema),
+          componentNameMapping,
+        );
 
         if (schema && 'description' in schema) {
           delete schema.description;
-- 
2.43.0


From 1e6ead397d44ab43b8ce400d4f2aa0548f6f2deb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:23:11 +0000
Subject: [PATCH 23/57] fix: openapi-generator does not require optional
 parameters of requests written as plain types

---
 packages/openapi-generator/src/route.ts | 17 +++++++++++------
 1 file changed, 11 insertions(+), 6 deletions(-)

diff --git a/packages/openapi-generator/src/route.ts b/packages/openapi-generator/src/route.ts
index ffece0b..c3e7222 100644
--- a/packages/openapi-generator/src/route.ts
+++ b/packages/openapi-generator/src/route.ts
@@ -2,7 +2,8 @@ import type { Block } from 'comment-parser';
 import * as E from 'fp-ts/Either';
 
 import { parseCodecInitializer } from './codec';
-import type { CombinedType, Schema } from './ir';
+import type { CombinedType, Object, Schema } from './ir';
+import { isOptional } from './knownImports';
 import type { Project } from './project';
 import { findSymbolInitializer } from './resolveInit';
 import { errorLeft } from './error';
@@ -57,6 +58,10 @@ function derefRequestSchema(
   }
 }
 
+function isRequired(schema: Object, name: string): boolean {
+  return schema.required.includes(name) && !isOptional(schema.properties[name]!);
+}
+
 function parseRequestObject(schema: Schema): E.Either<string, Request> {
   if (schema.type !== 'object') {
     return errorLeft('request must be an object');
@@ -72,7 +77,7 @@ function parseRequestObject(schema: Schema): E.Either<string, Request> {
           type: 'query',
           name,
           schema: prop,
-          required: querySchema.required.includes(name),
+          required: isRequired(querySchema, name),
         });
       }
     }
@@ -87,7 +92,7 @@ function parseRequestObject(schema: Schema): E.Either<string, Request> {
         type: 'path',
         name,
         schema: prop,
-        required: pathSchema.required.includes(name),
+        required: isRequired(pathSchema, name),
       });
     }
   }
@@ -102,7 +107,7 @@ function parseRequestObject(schema: Schema): E.Either<string, Request> {
           type: 'header',
           name,
           schema: prop,
-          required: headerSchema.required.includes(name),
+          required: isRequired(headerSchema, name),
         });
       }
     }
@@ -188,7 +193,7 @@ function parseRequestUnion(
               type: 'header',
               name,
               schema: prop,
-              required: headers.required.includes(name),
+              required: isRequired(headers, name),
             });
           }
         }
@@ -208,7 +213,7 @@ function parseRequestUnion(
             type: 'path',
             name,
             schema: prop,
-            required: pathSchema.required.includes(name),
+            required: isRequired(pathSchema, name),
           });
         }
         break; // Found path params, stop looking
-- 
2.43.0


From 9d1301a8be0e678b1835824dcf00ec40772f8e2e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:33:50 +0000
Subject: [PATCH 24/57] fix: openapi-generator does not confuse re-exports with
 imports of the same name

---
 packages/openapi-generator/src/symbol.ts | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/packages/openapi-generator/src/symbol.ts b/packages/openapi-generator/src/symbol.ts
index 50f8656..4be3f12 100644
--- a/packages/openapi-generator/src/symbol.ts
+++ b/packages/openapi-generator/src/symbol.ts
@@ -82,17 +82,18 @@ function parseExportNamedDeclaration(decl: swc.ExportNamedDeclaration): SymbolTa
     switch (specifier.type) {
       case 'ExportSpecifier':
         const exportedName = specifier.exported?.value ?? specifier.orig.value;
+        // A re-export does not create a local name, so use one that no identifier can have
+        const localName = decl.source ? `export ${exportedName}` : specifier.orig.value;
         result.exports.push({
           type: 'named',
           exportedName,
-          // A re-export does not create a local name, and exported names are unique
-          localName: decl.source ? exportedName : specifier.orig.value,
+          localName,
         });
         if (decl.source) {
           result.imports.push({
             type: 'named',
             importedName: specifier.orig.value,
-            localName: exportedName,
+            localName,
             from: decl.source.value,
           });
         }
-- 
2.43.0


From 2220c200bc99ca63a6be45cbffd6bc01b948cf4a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:33:51 +0000
Subject: [PATCH 25/57] fix: openapi-generator accepts codecs with names like
 toString and constructor

---
 packages/openapi-generator/src/cli.ts     | 9 +++++----
 packages/openapi-generator/src/project.ts | 9 ++++++---
 2 files changed, 11 insertions(+), 7 deletions(-)

diff --git a/packages/openapi-generator/src/cli.ts b/packages/openapi-generator/src/cli.ts
index c946f39..a7db70d 100644
--- a/packages/openapi-generator/src/cli.ts
+++ b/packages/openapi-generator/src/cli.ts
@@ -149,7 +149,8 @@ const app = command({
       process.exit(1);
     }
 
-    const components: Record<string, Schema> = {};
+    // Without a prototype, as codecs may be called `toString` or `constructor`
+    const components: Record<string, Schema> = Object.create(null);
     const queue: Schema[] = apiSpec.flatMap((route) => {
       return [
         ...route.parameters.map((p) => p.schema),
@@ -157,7 +158,7 @@ const app = command({
         ...Object.values(route.response),
       ];
     });
-    const componentCollisionCounters: Record<string, number> = {};
+    const componentCollisionCounters: Record<string, number> = Object.create(null);
     const componentNameMapping: Record<string, Record<string, string>> = {};
 
     // Helper to generate unique component names (name, name1, name2, ...)
@@ -193,7 +194,7 @@ const app = command({
 
         // Track the mapping: location -> originalName -> finalComponentName
         if (componentNameMapping[ref.location] === undefined) {
-          componentNameMapping[ref.location] = {};
+          componentNameMapping[ref.location] = Object.create(null);
         }
         componentNameMapping[ref.location]![ref.name] = componentName;
 
@@ -256,7 +257,7 @@ const app = command({
     }
 
     for (const [ref, { name, location }] of externalRefs) {
-      componentNameMapping[ref.location] ??= {};
+      componentNameMapping[ref.location] ??= Object.create(null);
       componentNameMapping[ref.location]![ref.name] =
         componentNameMapping[location]![name]!;
     }
diff --git a/packages/openapi-generator/src/project.ts b/packages/openapi-generator/src/project.ts
index b1d5431..7822a2f 100644
--- a/packages/openapi-generator/src/project.ts
+++ b/packages/openapi-generator/src/project.ts
@@ -24,8 +24,8 @@ export class Project {
     this.processedFiles = files;
     this.pendingFiles = new Set();
     this.knownImports = { ...knownImports };
-    this.types = {};
-    this.typeCollisionCounters = {};
+    this.types = Object.create(null);
+    this.typeCollisionCounters = Object.create(null);
     this.visitedPackages = new Set();
     this.packageEntryPoints = {};
   }
@@ -187,7 +187,10 @@ export class Project {
 
   resolveKnownImport(path: string, name: string): KnownCodec | undefined {
     const baseKey = path.startsWith('.') ? '.' : path;
-    return this.knownImports[baseKey]?.[name];
+    const codecs = this.knownImports[baseKey];
+    return codecs !== undefined && Object.prototype.hasOwnProperty.call(codecs, name)
+      ? codecs[name]
+      : undefined;
   }
 
   getPackageEntryPoint(packageName: string): string | undefined {
-- 
2.43.0


From a39c7a3d5c0622f71bb8d932b3b2cdb5c1de4c30 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:43 +0000
Subject: [PATCH 26/57] fix: read JSDoc tags from the comment's text

A one-line comment with an @example kept its closing mark in the example,
multi-line examples containing a star or written without stars failed, and
tag values starting with a brace lost it.
---
 packages/openapi-generator/src/jsdoc.ts | 21 +++++++++++++--------
 1 file changed, 13 insertions(+), 8 deletions(-)

diff --git a/packages/openapi-generator/src/jsdoc.ts b/packages/openapi-generator/src/jsdoc.ts
index 6bf698f..906a603 100644
--- a/packages/openapi-generator/src/jsdoc.ts
+++ b/packages/openapi-generator/src/jsdoc.ts
@@ -1,4 +1,4 @@
-import type { Block } from 'comment-parser';
+import type { Block, Line } from 'comment-parser';
 
 type Tags = Record<Exclude<string, 'example'>, string> & { example?: any };
 
@@ -8,6 +8,12 @@ export type JSDoc = {
   tags?: Tags;
 };
 
+// What is written on a line, after the tag if there is one
+function lineText({ tokens }: Line): string {
+  const { type, postType, name, postName, description } = tokens;
+  return `${type}${postType}${name}${postName}${description}`.trim();
+}
+
 export function parseCommentBlock(comment: Block): JSDoc {
   let summary: string = '';
   let description: string = '';
@@ -16,34 +22,33 @@ export function parseCommentBlock(comment: Block): JSDoc {
 
   for (const line of comment.source) {
     if (writingExample) {
-      tags['example'] = `${tags['example']}\n${line.source.split('*')[1]?.trim()}`;
+      tags['example'] = `${tags['example']}\n${lineText(line)}`;
       try {
         tags['example'] = JSON.parse(tags['example']);
         writingExample = false;
       } catch (e) {
-        if (line.source.endsWith('*/'))
-          throw new Error('@example contains invalid JSON');
+        if (line.tokens.end) throw new Error('@example contains invalid JSON');
         else continue;
       }
     } else if (line.tokens.tag !== undefined && line.tokens.tag.length > 0) {
       if (line.tokens.tag === '@example') {
-        tags['example'] = line.source.split('@example')[1]?.trim();
+        tags['example'] = lineText(line);
         if (tags['example'].startsWith('{') || tags['example'].startsWith('[')) {
           try {
             tags['example'] = JSON.parse(tags['example']);
           } catch (e) {
+            if (line.tokens.end) throw new Error('@example contains invalid JSON');
             writingExample = true;
           }
         }
       } else {
-        tags[line.tokens.tag.slice(1)] =
-          `${line.tokens.name} ${line.tokens.description}`.trim();
+        tags[line.tokens.tag.slice(1)] = lineText(line);
       }
     } else if (summary.length === 0) {
       if (line.tokens.description === '') {
         continue;
       }
-      summary = line.tokens.description;
+      summary = line.tokens.description.trim();
     } else {
       description = `${description ?? ''}\n${line.tokens.description}`;
     }
-- 
2.43.0


From 33bc24f93cbcd42750ebaf09306f27025836c721 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:43 +0000
Subject: [PATCH 27/57] fix: put @uniqueItems on the array, not on its items

---
 packages/openapi-generator/src/openapi.ts | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/packages/openapi-generator/src/openapi.ts b/packages/openapi-generator/src/openapi.ts
index 37e99f2..8db64a4 100644
--- a/packages/openapi-generator/src/openapi.ts
+++ b/packages/openapi-generator/src/openapi.ts
@@ -79,7 +79,8 @@ export function schemaToOpenAPI(
           return undefined;
         }
 
-        const { example, minItems, maxItems, ...rest } = defaultOpenAPIObject;
+        const { example, minItems, maxItems, uniqueItems, ...rest } =
+          defaultOpenAPIObject;
         const isArrayExample = example && Array.isArray(example);
 
         const siblings = {
@@ -107,6 +108,7 @@ export function schemaToOpenAPI(
           type: 'array',
           ...(minItems !== undefined ? { minItems } : {}),
           ...(maxItems !== undefined ? { maxItems } : {}),
+          ...(uniqueItems !== undefined ? { uniqueItems } : {}),
           ...(isArrayExample ? { example } : {}),
           items,
         };
-- 
2.43.0


From 2ad3f98969148a5fc16b46755bdb0b6155b787e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:43 +0000
Subject: [PATCH 28/57] fix: parse the JSON @default of objects and records

---
 packages/openapi-generator/src/openapi.ts | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/packages/openapi-generator/src/openapi.ts b/packages/openapi-generator/src/openapi.ts
index 8db64a4..af3eeb9 100644
--- a/packages/openapi-generator/src/openapi.ts
+++ b/packages/openapi-generator/src/openapi.ts
@@ -300,6 +300,12 @@ export function schemaToOpenAPI(
     } else if (schema.type === 'string') {
       // Remove extraneous double quotes around the fieldValue
       return fieldValue.replace(/^"(.*)"$/, '$1');
+    } else if (schema.type === 'object' || schema.type === 'record') {
+      try {
+        return JSON.parse(fieldValue);
+      } catch (e) {
+        return fieldValue;
+      }
     } else {
       return fieldValue;
     }
-- 
2.43.0


From ef0fb7f461c5bb25f25e2f83f1194c26a6739e9e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:43 +0000
Subject: [PATCH 29/57] fix: keep a codec's description under a comment that
 has only tags

---
 packages/openapi-generator/src/openapi.ts | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/packages/openapi-generator/src/openapi.ts b/packages/openapi-generator/src/openapi.ts
index af3eeb9..45c55c3 100644
--- a/packages/openapi-generator/src/openapi.ts
+++ b/packages/openapi-generator/src/openapi.ts
@@ -343,7 +343,7 @@ export function schemaToOpenAPI(
     if (isPrivate && isPublic) {
       throw new Error('Cannot use both @public and @private on the same schema field');
     }
-    const description = schema.comment?.description ?? schema.description;
+    const description = schema.comment?.description || schema.description;
 
     // 0 and false are values like any other, an empty tag is not one
     const isSet = (value: any): boolean => value !== undefined && value !== '';
-- 
2.43.0


From 1f039595dfc25eeef2c2ac114ed48539d7b15b93 Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Thu, 19 Nov 2026 22:30:04 +0000
Subject: [PATCH 30/57] fix: keep the metadata of custom codec definitions of
 objects, records and unions

---
 packages/openapi-generator/src/openapi.ts  |  6 +++
 packages/openapi-generator/src/optimize.ts | 55 ++++++++++++++++------
 2 files changed, 46 insertions(+), 15 deletions(-)

diff --git a/packages/openapi-generator/src/openapi.ts b/packages/openapi-generator/src/openapi.ts
index 45c55c3..00c7983 100644
--- a/packages/openapi-generator/src/openapi.ts
+++ b/packages/openapi-generator/src/openapi.ts
@@ -160,6 +160,9 @@ export function schemaToOpenAPI(
         // If any schema exists and it is in union with another schema - we can remove the any schema as an optimization
         const unknownSchema = schema.schemas.find((s) => s.type === 'any');
 
+        // What is said about the union as a whole also holds for what is left of it
+        const { type: _type, schemas: _schemas, ...metadata } = schema;
+
         // and we can just return the other schema (while attaching the comment to that schema)
         const isOptional =
           schema.schemas.length >= 2 && undefinedSchema && nonUndefinedSchema;
@@ -167,6 +170,7 @@ export function schemaToOpenAPI(
           return schemaToOpenAPI(
             {
               ...nonUndefinedSchema,
+              ...metadata,
               comment: schema.comment,
               ...(nullSchema ? { nullable: true } : {}),
             },
@@ -185,6 +189,7 @@ export function schemaToOpenAPI(
             return schemaToOpenAPI(
               {
                 ...nonUnknownSchemas[0],
+                ...metadata,
                 comment: schema.comment,
                 ...(nullSchema ? { nullable: true } : {}),
               },
@@ -193,6 +198,7 @@ export function schemaToOpenAPI(
           } else if (nonUnknownSchemas.length > 1) {
             return schemaToOpenAPI(
               {
+                ...metadata,
                 type: 'union',
                 schemas: nonUnknownSchemas,
                 comment: schema.comment,
diff --git a/packages/openapi-generator/src/optimize.ts b/packages/openapi-generator/src/optimize.ts
index d7c0a41..8e70ae2 100644
--- a/packages/openapi-generator/src/optimize.ts
+++ b/packages/openapi-generator/src/optimize.ts
@@ -3,6 +3,23 @@ import { isPrimitive, type CombinedType, type Primitive, type Schema } from './i
 
 export type OptimizeFn = (schema: Schema) => Schema;
 
+// What a schema is made of, everything else about it is metadata
+const STRUCTURAL_KEYS = new Set([
+  'type',
+  'items',
+  'properties',
+  'required',
+  'domain',
+  'codomain',
+  'schemas',
+  'enum',
+  'enumDescriptions',
+  'enumsDeprecated',
+  'comment',
+  'primitive',
+  'decodedType',
+]);
+
 function isSameType(a: Schema, b: Schema): boolean {
   const { comment: _a, ...restA } = a;
   const { comment: _b, ...restB } = b;
@@ -185,7 +202,8 @@ export function simplifyUnion(schema: Schema, optimize: OptimizeFn): Schema {
       if (
         innerSchema.comment ||
         innerSchema.enumDescriptions ||
-        innerSchema.enumsDeprecated
+        innerSchema.enumsDeprecated ||
+        Object.keys(innerSchema).some((key) => !STRUCTURAL_KEYS.has(key))
       ) {
         remainder.push(innerSchema);
       } else {
@@ -228,19 +246,26 @@ export function filterUndefinedUnion(schema: Schema): [boolean, Schema] {
   if (schemas.length === 0) {
     return [true, { type: 'undefined' }];
   } else if (schemas.length === 1) {
-    return [true, withComment(schemas[0]!, schema)];
+    return [true, withMetadata(schemas[0]!, schema)];
   } else {
-    return [true, withComment({ type: 'union', schemas }, schema)];
+    return [true, withMetadata({ type: 'union', schemas }, schema)];
   }
 }
 
-// This function is a helper that adds back any comments that were removed during optimization
-function withComment(newSchema: Schema, oldSchema: Schema): Schema {
-  if (oldSchema.comment) {
-    newSchema.comment = combineComments(oldSchema);
+// This function is a helper that adds back what was said about a schema before optimization:
+// its comments, and the metadata of a codec definition (title, description, default, ...)
+function withMetadata(newSchema: Schema, oldSchema: Schema): Schema {
+  const metadata: Record<string, unknown> = {};
+  for (const [key, value] of Object.entries(oldSchema)) {
+    if (!STRUCTURAL_KEYS.has(key)) {
+      metadata[key] = value;
+    }
   }
-
-  return newSchema;
+  return {
+    ...newSchema,
+    ...metadata,
+    ...(oldSchema.comment ? { comment: combineComments(oldSchema) } : {}),
+  };
 }
 
 export function optimize(schema: Schema): Schema {
@@ -262,23 +287,23 @@ export function optimize(schema: Schema): Schema {
 
     const schemaObject: Schema = { type: 'object', properties, required };
 
-    return withComment(schemaObject, schema);
+    return withMetadata(schemaObject, schema);
   } else if (schema.type === 'intersection') {
     const newSchema = foldIntersection(schema, optimize);
 
-    return withComment(newSchema, schema);
+    return withMetadata(newSchema, schema);
   } else if (schema.type === 'union') {
     const consolidated = consolidateUnion(schema);
     const simplified = simplifyUnion(consolidated, optimize);
     const merged = mergeUnions(simplified);
 
-    return withComment(merged, schema);
+    return withMetadata(merged, schema);
   } else if (schema.type === 'array') {
     const optimized = optimize(schema.items);
 
-    return withComment({ ...schema, items: optimized }, schema);
+    return withMetadata({ ...schema, items: optimized }, schema);
   } else if (schema.type === 'record') {
-    return withComment(
+    return withMetadata(
       {
         type: 'record',
         ...(schema.domain ? { domain: optimize(schema.domain) } : {}),
@@ -288,7 +313,7 @@ export function optimize(schema: Schema): Schema {
     );
   } else if (schema.type === 'tuple') {
     const schemas = schema.schemas.map(optimize);
-    return withComment({ type: 'tuple', schemas }, schema);
+    return withMetadata({ type: 'tuple', schemas }, schema);
   } else if (schema.type === 'ref') {
     return schema;
   } else {
-- 
2.43.0


From f3f2630412ceb1608c46d13f5594d3bbaf362c64 Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Thu, 19 Nov 2026 22:30:49 +0000
Subject: [PATCH 31/57] fix: do not share the objects that codec definitions
 return

---
 packages/openapi-generator/src/codec.ts | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/packages/openapi-generator/src/codec.ts b/packages/openapi-generator/src/codec.ts
index 3cb3891..16ff8e6 100644
--- a/packages/openapi-generator/src/codec.ts
+++ b/packages/openapi-generator/src/codec.ts
@@ -584,7 +584,11 @@ export function parseCodecInitializer(
     }
 
     const deref: DerefFn = () => E.left('Unimplemented deref');
-    return identifier.schema(deref);
+    return pipe(
+      identifier.schema(deref),
+      // A codec definition may return the same object every time
+      E.map((schema): Schema => ({ ...schema })),
+    );
   } else if (init.type === 'CallExpression') {
     const callee = init.callee;
     if (callee.type !== 'Identifier' && callee.type !== 'MemberExpression') {
@@ -668,7 +672,7 @@ export function parseCodecInitializer(
       E.sequenceArray,
       E.chain((args) => pipe(args.map(deref), E.sequenceArray)),
       E.chain((args) => identifier.schema(deref, ...args)),
-      E.map((schema) => withoutOptionalReferences(project, schema)),
+      E.map((schema) => withoutOptionalReferences(project, { ...schema })),
     );
   } else {
     return errorLeft(`Unimplemented initializer type ${init.type}`);
-- 
2.43.0


From 65a392290eea0c7ebc94a94785776953e1d74fd6 Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Thu, 19 Nov 2026 22:31:40 +0000
Subject: [PATCH 32/57] fix: describe a parameter by its codec if it has no
 comment

---
 packages/openapi-generator/src/openapi.ts | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/packages/openapi-generator/src/openapi.ts b/packages/openapi-generator/src/openapi.ts
index 00c7983..1eb5735 100644
--- a/packages/openapi-generator/src/openapi.ts
+++ b/packages/openapi-generator/src/openapi.ts
@@ -473,7 +473,10 @@ function routeToOpenAPI(
           componentNameMapping,
         );
 
+        // The description is that of the comment, or else of the codec
+        let description = p.schema?.comment?.description;
         if (schema && 'description' in schema) {
+          description = schema.description;
           delete schema.description;
         }
 
@@ -485,9 +488,7 @@ function routeToOpenAPI(
 
         return {
           name: p.name,
-          ...(p.schema?.comment?.description !== undefined
-            ? { description: p.schema.comment.description }
-            : {}),
+          ...(description !== undefined ? { description } : {}),
           in: p.type,
           ...(hasInternalFlag ? { 'x-internal': internalValue } : {}),
           ...(p.required ? { required: true } : {}),
-- 
2.43.0


From ce160e2715748cf8b1240f282ad02ac704277128 Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Thu, 19 Nov 2026 22:59:13 +0000
Subject: [PATCH 33/57] fix: document codecs without keys, members or values as
 valid OpenAPI

---
 packages/openapi-generator/src/openapi.ts | 27 +++++++++++++----------
 1 file changed, 15 insertions(+), 12 deletions(-)

diff --git a/packages/openapi-generator/src/openapi.ts b/packages/openapi-generator/src/openapi.ts
index 1eb5735..733efcf 100644
--- a/packages/openapi-generator/src/openapi.ts
+++ b/packages/openapi-generator/src/openapi.ts
@@ -130,16 +130,17 @@ export function schemaToOpenAPI(
           ...(schema.required.length > 0 ? { required: schema.required } : {}),
         };
       case 'intersection':
-        return {
-          allOf: schema.schemas.flatMap((s) => {
-            const innerSchema = schemaToOpenAPI(s, componentNameMapping);
-            if (innerSchema === undefined) {
-              return [];
-            }
-            return [innerSchema];
-          }),
-          ...defaultOpenAPIObject,
-        };
+        const allOf = schema.schemas.flatMap((s) => {
+          const innerSchema = schemaToOpenAPI(s, componentNameMapping);
+          if (innerSchema === undefined) {
+            return [];
+          }
+          return [innerSchema];
+        });
+        if (allOf.length === 0) {
+          return undefined;
+        }
+        return { allOf, ...defaultOpenAPIObject };
       case 'union':
         let nullable = false;
         let oneOf: (OpenAPIV3.SchemaObject | OpenAPIV3.ReferenceObject)[] = [];
@@ -256,7 +257,8 @@ export function schemaToOpenAPI(
             schema.domain,
             componentNameMapping,
           ) as OpenAPIV3.SchemaObject;
-          if (keys.type === 'string' && keys.enum !== undefined) {
+          // There are no keys at all in `t.record(t.keyof({}), ...)`
+          if (keys?.type === 'string' && keys.enum !== undefined) {
             const properties = keys.enum.reduce((acc, key) => {
               return { ...acc, [key]: additionalProperties };
             }, {});
@@ -493,7 +495,8 @@ function routeToOpenAPI(
           ...(hasInternalFlag ? { 'x-internal': internalValue } : {}),
           ...(p.required ? { required: true } : {}),
           ...(p.explode ? { style: 'form', explode: true } : {}),
-          schema: schema as any, // TODO: Something to disallow arrays
+          // A parameter needs a schema, even if there is nothing to document
+          schema: (schema ?? {}) as any, // TODO: Something to disallow arrays
         };
       }),
       ...requestBody,
-- 
2.43.0


From 65b17513ec22aa74eb63d2c2b51036a114aa99bd Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Thu, 19 Nov 2026 22:59:13 +0000
Subject: [PATCH 34/57] fix: do not mistake directories for the packages of the
 same name

---
 packages/openapi-generator/src/ref.ts | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/packages/openapi-generator/src/ref.ts b/packages/openapi-generator/src/ref.ts
index 5d6c3cf..986d7f8 100644
--- a/packages/openapi-generator/src/ref.ts
+++ b/packages/openapi-generator/src/ref.ts
@@ -1,5 +1,6 @@
 import type { Schema, Reference } from './ir';
 import fs from 'fs';
+import { isAbsolute } from 'node:path';
 
 export function getRefs(
   schema: Schema,
@@ -7,7 +8,8 @@ export function getRefs(
   resolveExternal?: (ref: Reference) => Reference | undefined,
 ): Reference[] {
   if (schema.type === 'ref') {
-    if (!fs.existsSync(schema.location)) {
+    // The name of a package may also be that of a directory here
+    if (!isAbsolute(schema.location) || !fs.existsSync(schema.location)) {
       // The location is a node module - we need to populate the location here
       const resolved = resolveExternal?.(schema);
       if (resolved !== undefined) {
-- 
2.43.0


From fa4c94fa6147f85750f013f2cd9bd11f4ea20748 Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Thu, 19 Nov 2026 22:59:13 +0000
Subject: [PATCH 35/57] fix: report references to codecs that cannot be found
 instead of leaving them dangling

---
 packages/openapi-generator/src/cli.ts | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/packages/openapi-generator/src/cli.ts b/packages/openapi-generator/src/cli.ts
index a7db70d..6baf258 100644
--- a/packages/openapi-generator/src/cli.ts
+++ b/packages/openapi-generator/src/cli.ts
@@ -174,11 +174,17 @@ const app = command({
 
     // References into other packages, and the declarations they stand for
     const externalRefs: [Reference, Reference][] = [];
-    const resolveExternal = (ref: Reference): Reference | undefined => {
+    const resolveExternal = (ref: Reference): Reference => {
       const resolved = resolveExternalReference(project, ref);
-      if (resolved !== undefined) {
-        externalRefs.push([ref, resolved]);
+      if (resolved === undefined) {
+        logError(
+          `Cannot find external codec '${ref.name}' from module '${ref.location}'. ` +
+            `To fix this, add the codec definition to your codec config file. ` +
+            `See: https://github.com/BitGo/api-ts/tree/master/packages/openapi-generator#4-defining-custom-codecs`,
+        );
+        process.exit(1);
       }
+      externalRefs.push([ref, resolved]);
       return resolved;
     };
 
-- 
2.43.0


From 5ccaf36e424d0b90f1602edcb448ce2c45c3c14b Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Thu, 19 Nov 2026 22:59:13 +0000
Subject: [PATCH 36/57] fix: give components names that OpenAPI allows

---
 packages/openapi-generator/src/cli.ts | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/packages/openapi-generator/src/cli.ts b/packages/openapi-generator/src/cli.ts
index 6baf258..ec026ee 100644
--- a/packages/openapi-generator/src/cli.ts
+++ b/packages/openapi-generator/src/cli.ts
@@ -196,7 +196,10 @@ const app = command({
           continue;
         }
 
-        const componentName = getUniqueComponentName(ref.name);
+        // Only these characters are allowed in the names of components
+        const componentName = getUniqueComponentName(
+          ref.name.replace(/[^A-Za-z0-9._-]/g, '_'),
+        );
 
         // Track the mapping: location -> originalName -> finalComponentName
         if (componentNameMapping[ref.location] === undefined) {
-- 
2.43.0


From ecf98551a6bec4e7bc11ee4b46d72853ea70d000 Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Thu, 19 Nov 2026 23:01:26 +0000
Subject: [PATCH 37/57] fix: do not take codecs of other files for those of
 packages that cannot be found

---
 packages/openapi-generator/src/resolveInit.ts | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/packages/openapi-generator/src/resolveInit.ts b/packages/openapi-generator/src/resolveInit.ts
index 93caf80..3de88dd 100644
--- a/packages/openapi-generator/src/resolveInit.ts
+++ b/packages/openapi-generator/src/resolveInit.ts
@@ -1,7 +1,7 @@
 import type * as swc from '@swc/core';
 import type { Block } from 'comment-parser';
 import * as E from 'fp-ts/Either';
-import { dirname } from 'node:path';
+import { dirname, join, sep } from 'node:path';
 
 import type { Reference } from './ir';
 import type { Project } from './project';
@@ -119,8 +119,16 @@ export function resolveExternalReference(
       return { ...ref, name, location: newSourceFile.path };
     }
   }
+  // Otherwise it may be in another file of that package
   const location = project.getTypes()[ref.name];
-  return location !== undefined ? { ...ref, location } : undefined;
+  const packageName = ref.location
+    .split('/')
+    .slice(0, ref.location.startsWith('@') ? 2 : 1)
+    .join('/');
+  return location !== undefined &&
+    location.includes(join(sep, 'node_modules', packageName, sep))
+    ? { ...ref, location }
+    : undefined;
 }
 
 // Remove syntax around an expression that does not change its value
-- 
2.43.0


From c61f0840ad4eaf605b0a43d1fbb0439e5fa814b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:26:44 +0000
Subject: [PATCH 38/57] fix: do not require properties that are optional inside
 a union of unions

---
 packages/openapi-generator/src/optimize.ts | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/packages/openapi-generator/src/optimize.ts b/packages/openapi-generator/src/optimize.ts
index 8e70ae2..3ea8f85 100644
--- a/packages/openapi-generator/src/optimize.ts
+++ b/packages/openapi-generator/src/optimize.ts
@@ -237,12 +237,16 @@ export function filterUndefinedUnion(schema: Schema): [boolean, Schema] {
     return [false, schema];
   }
 
-  const undefinedIndex = schema.schemas.findIndex((s) => s.type === 'undefined');
+  // The alternatives may be unions as well
+  const alternatives = schema.schemas.map(filterUndefinedUnion);
+  const undefinedIndex = alternatives.findIndex(
+    ([isOptional, s]) => isOptional || s.type === 'undefined',
+  );
   if (undefinedIndex < 0) {
     return [false, schema];
   }
 
-  const schemas = schema.schemas.filter((s) => s.type !== 'undefined');
+  const schemas = alternatives.map(([_, s]) => s).filter((s) => s.type !== 'undefined');
   if (schemas.length === 0) {
     return [true, { type: 'undefined' }];
   } else if (schemas.length === 1) {
-- 
2.43.0


From a33291cbbb118819cd467d2930235e56716cbdb0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:27:52 +0000
Subject: [PATCH 39/57] fix: document path parameters as required, whatever
 their codec

---
 packages/openapi-generator/src/route.ts | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/packages/openapi-generator/src/route.ts b/packages/openapi-generator/src/route.ts
index c3e7222..fef0dd6 100644
--- a/packages/openapi-generator/src/route.ts
+++ b/packages/openapi-generator/src/route.ts
@@ -92,7 +92,8 @@ function parseRequestObject(schema: Schema): E.Either<string, Request> {
         type: 'path',
         name,
         schema: prop,
-        required: isRequired(pathSchema, name),
+        // There is no path without it
+        required: true,
       });
     }
   }
@@ -213,7 +214,7 @@ function parseRequestUnion(
             type: 'path',
             name,
             schema: prop,
-            required: isRequired(pathSchema, name),
+            required: true,
           });
         }
         break; // Found path params, stop looking
-- 
2.43.0


From d850e0abc3e94153f7b5bdc8a2c99fc404116057 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:29:23 +0000
Subject: [PATCH 40/57] fix: document a parameter that several parts of a
 request declare only once

---
 packages/openapi-generator/src/route.ts | 27 ++++++++++++++++++++++++-
 1 file changed, 26 insertions(+), 1 deletion(-)

diff --git a/packages/openapi-generator/src/route.ts b/packages/openapi-generator/src/route.ts
index fef0dd6..966adc1 100644
--- a/packages/openapi-generator/src/route.ts
+++ b/packages/openapi-generator/src/route.ts
@@ -225,6 +225,29 @@ function parseRequestUnion(
   return E.right({ parameters, body });
 }
 
+// A parameter that several members declare has to satisfy all of them
+function addParameter(parameters: Parameter[], parameter: Parameter): void {
+  const { type, name, schema, explode } = parameter;
+  const index = parameters.findIndex(
+    (p) => p.type === type && p.name === name && p.explode === explode,
+  );
+  const existing = parameters[index];
+  if (existing === undefined) {
+    parameters.push(parameter);
+    return;
+  }
+  const { comment: _a, ...restA } = existing.schema;
+  const { comment: _b, ...restB } = schema;
+  parameters[index] = {
+    ...existing,
+    required: existing.required || parameter.required,
+    schema:
+      JSON.stringify(restA) === JSON.stringify(restB)
+        ? existing.schema
+        : { type: 'intersection', schemas: [existing.schema, schema] },
+  };
+}
+
 function parseRequestIntersection(
   project: Project,
   schema: Schema,
@@ -241,7 +264,9 @@ function parseRequestIntersection(
     if (E.isLeft(subResultE)) {
       return subResultE;
     }
-    result.parameters.push(...subResultE.right.parameters);
+    for (const parameter of subResultE.right.parameters) {
+      addParameter(result.parameters, parameter);
+    }
     if (subResultE.right.body !== undefined) {
       (result.body as CombinedType).schemas.push(subResultE.right.body);
     }
-- 
2.43.0


From b0e12b6669f6af69ea1a339b8b0b3abb860075db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:37:15 +0000
Subject: [PATCH 41/57] fix: report what Object.assign cannot be read from
 instead of leaving it out

---
 packages/openapi-generator/src/codec.ts        |  6 +++++-
 packages/openapi-generator/src/knownImports.ts | 12 +++++++-----
 2 files changed, 12 insertions(+), 6 deletions(-)

diff --git a/packages/openapi-generator/src/codec.ts b/packages/openapi-generator/src/codec.ts
index 16ff8e6..12c184b 100644
--- a/packages/openapi-generator/src/codec.ts
+++ b/packages/openapi-generator/src/codec.ts
@@ -663,7 +663,11 @@ export function parseCodecInitializer(
         return plainInitE;
       }
     }
-    const args = init.arguments.map<E.Either<string, Schema>>(({ expression }) => {
+    const args = init.arguments.map<E.Either<string, Schema>>((arg) => {
+      const { expression, spread } = arg;
+      if (spread) {
+        return errorLeft('Spread arguments are not supported');
+      }
       return parsePlainInitializer(project, source, expression);
     });
 
diff --git a/packages/openapi-generator/src/knownImports.ts b/packages/openapi-generator/src/knownImports.ts
index a4b2af4..1d3896b 100644
--- a/packages/openapi-generator/src/knownImports.ts
+++ b/packages/openapi-generator/src/knownImports.ts
@@ -65,12 +65,14 @@ export const KNOWN_IMPORTS: KnownImports = {
       } else if (target.type !== 'object') {
         return errorLeft('assign target must be object');
       }
-      const properties = sources.reduce((acc, source) => {
-        if (source.type !== 'object') {
-          return acc;
+      let properties = target.properties;
+      for (const source of sources) {
+        if (source.type === 'object') {
+          properties = { ...properties, ...source.properties };
+        } else if (source.type !== 'undefined' && source.type !== 'null') {
+          return errorLeft('assign source must be object');
         }
-        return { ...acc, ...source.properties };
-      }, target.properties);
+      }
       return E.right({ type: 'object', properties, required: Object.keys(properties) });
     },
   },
-- 
2.43.0


From a90f8094e0cd22fecb28e62ddc0041d66bcab9e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:37:15 +0000
Subject: [PATCH 42/57] fix: take only calls of apiSpec for API specs that are
 spread

---
 packages/openapi-generator/src/apiSpec.ts | 21 ++++++++++++++++++++-
 1 file changed, 20 insertions(+), 1 deletion(-)

diff --git a/packages/openapi-generator/src/apiSpec.ts b/packages/openapi-generator/src/apiSpec.ts
index 5563103..0943c57 100644
--- a/packages/openapi-generator/src/apiSpec.ts
+++ b/packages/openapi-generator/src/apiSpec.ts
@@ -10,6 +10,23 @@ import { SourceFile } from './sourceFile';
 import { OpenAPIV3 } from 'openapi-types';
 import { errorLeft } from './error';
 
+// Goes by the name, as `apiSpec` may be re-exported by other files
+function isApiSpecCallee(
+  sourceFile: SourceFile,
+  callee: swc.CallExpression['callee'],
+): boolean {
+  if (callee.type === 'MemberExpression') {
+    return callee.property.type === 'Identifier' && callee.property.value === 'apiSpec';
+  } else if (callee.type === 'Identifier') {
+    const imported = sourceFile.symbols.imports.find(
+      (imp) => imp.localName === callee.value,
+    );
+    const name = imported?.type === 'named' ? imported.importedName : callee.value;
+    return name === 'apiSpec';
+  }
+  return false;
+}
+
 export function parseApiSpec(
   project: Project,
   sourceFile: SourceFile,
@@ -43,8 +60,10 @@ export function parseApiSpec(
         return spreadExprE;
       }
       let [spreadSourceFile, spreadExpr] = spreadExprE.right;
-      // TODO: This is just assuming that a `CallExpression` here is to `h.apiSpec`
       if (spreadExpr.type === 'CallExpression') {
+        if (!isApiSpecCallee(spreadSourceFile, spreadExpr.callee)) {
+          return errorLeft('spread calls must be to apiSpec');
+        }
         const arg = spreadExpr.arguments[0];
         if (arg === undefined) {
           return errorLeft(`unimplemented spread argument type ${arg}`);
-- 
2.43.0


From 92f8c2c523c60ff9c5b88f16f0c74ab4bb552f81 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:37:15 +0000
Subject: [PATCH 43/57] fix: count the members of enums that have no values

---
 packages/openapi-generator/src/symbol.ts | 22 +++++++++++++++++-----
 1 file changed, 17 insertions(+), 5 deletions(-)

diff --git a/packages/openapi-generator/src/symbol.ts b/packages/openapi-generator/src/symbol.ts
index 4be3f12..e796f4f 100644
--- a/packages/openapi-generator/src/symbol.ts
+++ b/packages/openapi-generator/src/symbol.ts
@@ -111,6 +111,19 @@ function parseExportNamedDeclaration(decl: swc.ExportNamedDeclaration): SymbolTa
   return result;
 }
 
+// Members without a value are counted, starting from 0
+function nextEnumValue(
+  previous: swc.Expression | undefined,
+  span: swc.Span,
+): swc.Expression {
+  if (previous === undefined || previous.type === 'NumericLiteral') {
+    const value = previous === undefined ? 0 : previous.value + 1;
+    return { type: 'NumericLiteral', value, span };
+  }
+  const right: swc.NumericLiteral = { type: 'NumericLiteral', value: 1, span };
+  return { type: 'BinaryExpression', operator: '+', left: previous, right, span };
+}
+
 function parseDeclaration(
   src: string,
   srcSpanStart: number,
@@ -163,7 +176,10 @@ function parseDeclaration(
       decl.span.start,
     ).pop();
     // Construct a synthetic object declaration
+    let previous: swc.Expression | undefined;
     const properties: swc.KeyValueProperty[] = subDeclaration.members.map((member) => {
+      const value = member.init ?? nextEnumValue(previous, member.id.span);
+      previous = value;
       return {
         type: 'KeyValueProperty',
         key: {
@@ -172,11 +188,7 @@ function parseDeclaration(
           span: member.id.span,
           optional: false,
         },
-        value: member.init ?? {
-          type: 'StringLiteral',
-          value: member.id.value,
-          span: member.id.span,
-        },
+        value,
       };
     });
     const syntheticObject: swc.ObjectExpression = {
-- 
2.43.0


From 5da8464f10c12aaf7d0f4cd94871884b83f5ff17 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:37:15 +0000
Subject: [PATCH 44/57] fix: find API specs in parentheses and with casts

---
 packages/openapi-generator/src/cli.ts | 27 +++++++++++++--------------
 1 file changed, 13 insertions(+), 14 deletions(-)

diff --git a/packages/openapi-generator/src/cli.ts b/packages/openapi-generator/src/cli.ts
index ec026ee..6189503 100644
--- a/packages/openapi-generator/src/cli.ts
+++ b/packages/openapi-generator/src/cli.ts
@@ -15,7 +15,11 @@ import type { Reference, Schema } from './ir';
 import { getPackageJsonPath } from './packageInfo';
 import { Project } from './project';
 import { KNOWN_IMPORTS } from './knownImports';
-import { findSymbolInitializer, resolveExternalReference } from './resolveInit';
+import {
+  findSymbolInitializer,
+  resolveExternalReference,
+  unwrapExpression,
+} from './resolveInit';
 import { parseCodecInitializer } from './codec';
 import { SourceFile } from './sourceFile';
 import { logError, logInfo, logWarn } from './error';
@@ -113,26 +117,21 @@ const app = command({
     for (const symbol of Object.values(entryPoint.symbols.declarations)) {
       if (symbol.init === undefined) {
         continue;
-      } else if (symbol.init.type !== 'CallExpression') {
+      }
+      const init = unwrapExpression(symbol.init);
+      if (init.type !== 'CallExpression') {
         continue;
-      } else if (symbol.init.arguments.length === 0) {
+      } else if (init.arguments.length === 0) {
         continue;
-      } else if (
-        symbol.init.callee.type === 'Super' ||
-        symbol.init.callee.type === 'Import'
-      ) {
-        logWarn(`Skipping ${symbol.name} because it is a ${symbol.init.callee.type}`);
+      } else if (init.callee.type === 'Super' || init.callee.type === 'Import') {
+        logWarn(`Skipping ${symbol.name} because it is a ${init.callee.type}`);
         continue;
-      } else if (!isApiSpec(entryPoint, symbol.init.callee)) {
+      } else if (!isApiSpec(entryPoint, init.callee)) {
         continue;
       }
       logInfo(`Found API spec in ${symbol.name}`);
 
-      const result = parseApiSpec(
-        project,
-        entryPoint,
-        symbol.init.arguments[0]!.expression,
-      );
+      const result = parseApiSpec(project, entryPoint, init.arguments[0]!.expression);
       if (E.isLeft(result)) {
         logError(`Error when parsing ${symbol.name}: ${result.left}`);
         process.exit(1);
-- 
2.43.0


From 949faaf4be7304e67e2051b00db0d2d2dc5cfb70 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:37:15 +0000
Subject: [PATCH 45/57] fix: report names and keys from packages that cannot be
 found

---
 packages/openapi-generator/src/codec.ts | 20 +++++++++++++-------
 1 file changed, 13 insertions(+), 7 deletions(-)

diff --git a/packages/openapi-generator/src/codec.ts b/packages/openapi-generator/src/codec.ts
index 12c184b..d5ba772 100644
--- a/packages/openapi-generator/src/codec.ts
+++ b/packages/openapi-generator/src/codec.ts
@@ -218,14 +218,20 @@ function codecIdentifier(
 // Parse the declaration that a reference points to, which may be in another file
 function parseReferenced(
   project: Project,
-  source: SourceFile,
   schema: Reference,
 ): E.Either<string, Schema> {
   const seen = new Set<swc.Expression>();
   let referenced: Schema = schema;
   while (referenced.type === 'ref') {
-    const refSource: SourceFile = project.get(referenced.location) ?? source;
-    const realInitE = findSymbolInitializer(project, refSource, referenced.name);
+    const target: Reference | undefined =
+      project.get(referenced.location) !== undefined
+        ? referenced
+        : resolveExternalReference(project, referenced);
+    const refSource = target !== undefined ? project.get(target.location) : undefined;
+    if (target === undefined || refSource === undefined) {
+      return errorLeft(`Cannot find '${referenced.name}' from '${referenced.location}'`);
+    }
+    const realInitE = findSymbolInitializer(project, refSource, target.name);
     if (E.isLeft(realInitE)) {
       return realInitE;
     }
@@ -350,7 +356,7 @@ function parseObjectExpression(
       }
       let schema = schemaE.right;
       if (schema.type === 'ref') {
-        const schemaE = parseReferenced(project, source, schema);
+        const schemaE = parseReferenced(project, schema);
         if (E.isLeft(schemaE)) {
           return schemaE;
         }
@@ -390,7 +396,7 @@ function parseObjectExpression(
       }
       let schema = valueE.right;
       if (schema.type === 'ref') {
-        const schemaE = parseReferenced(project, source, schema);
+        const schemaE = parseReferenced(project, schema);
         if (E.isLeft(schemaE)) {
           return schemaE;
         }
@@ -439,7 +445,7 @@ function parseArrayExpression(
     if (element.spread) {
       let init = valueE.right;
       if (init.type === 'ref') {
-        const schemaE = parseReferenced(project, source, init);
+        const schemaE = parseReferenced(project, init);
         if (E.isLeft(schemaE)) {
           return schemaE;
         }
@@ -474,7 +480,7 @@ function parseTemplateLiteral(
     ) {
       return E.right(String(schema.enum[0]));
     } else if (schema.type === 'ref') {
-      const schemaE = parseReferenced(project, source, schema);
+      const schemaE = parseReferenced(project, schema);
       if (E.isLeft(schemaE)) {
         return schemaE;
       }
-- 
2.43.0


From 735fd8e8a84bb8b7a9a4bec8465c3a8d09cf9eeb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:37:15 +0000
Subject: [PATCH 46/57] fix: report functions of which the returned value
 depends on what stands before it

---
 packages/openapi-generator/src/codec.ts | 46 +++++++++++++++++++++++++
 1 file changed, 46 insertions(+)

diff --git a/packages/openapi-generator/src/codec.ts b/packages/openapi-generator/src/codec.ts
index d5ba772..1464f1e 100644
--- a/packages/openapi-generator/src/codec.ts
+++ b/packages/openapi-generator/src/codec.ts
@@ -551,6 +551,48 @@ export function parsePlainInitializer(
   }
 }
 
+// Whether a statement contains a return statement of the function it is in
+function mayReturn(node: unknown): boolean {
+  if (Array.isArray(node)) {
+    return node.some(mayReturn);
+  } else if (typeof node !== 'object' || node === null) {
+    return false;
+  }
+  const { type } = node as swc.Node;
+  if (type === 'ReturnStatement') {
+    return true;
+  } else if (type === 'ArrowFunctionExpression' || /^(Function|Class)/.test(type)) {
+    return false;
+  }
+  return Object.values(node).some(mayReturn);
+}
+
+// What stands before the return statement of a function must not change what is returned
+function findUnsupportedStatement(
+  source: SourceFile,
+  stmts: swc.Statement[],
+): string | undefined {
+  const { declarations, imports } = source.symbols;
+  for (const stmt of stmts) {
+    if (stmt.type === 'ReturnStatement') {
+      return undefined;
+    } else if (stmt.type === 'VariableDeclaration') {
+      for (const { id } of stmt.declarations) {
+        if (
+          id.type === 'Identifier' &&
+          (declarations.some((d) => d.name === id.value) ||
+            imports.some((imp) => imp.localName === id.value))
+        ) {
+          return `'${id.value}' is declared both in a function and outside of it`;
+        }
+      }
+    } else if (mayReturn(stmt)) {
+      return 'Functions with several return statements are not supported';
+    }
+  }
+  return undefined;
+}
+
 function parseFunctionBody(
   project: Project,
   source: SourceFile,
@@ -560,6 +602,10 @@ function parseFunctionBody(
     return errorLeft('Function body is undefined');
   }
   if (func.body.type === 'BlockStatement') {
+    const problem = findUnsupportedStatement(source, func.body.stmts);
+    if (problem !== undefined) {
+      return errorLeft(problem);
+    }
     const returnStmt = func.body.stmts.find((s) => s.type === 'ReturnStatement');
     if (!returnStmt || returnStmt.type !== 'ReturnStatement') {
       return errorLeft('BlockStatement must contain a return statement');
-- 
2.43.0


From 7b17e4a9fad2d2ad57d56c8cc015a97dab689137 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:45:30 +0000
Subject: [PATCH 47/57] fix: resolve codecs through files that export
 everything from each other

export * from two files in a circle made the generator overflow the stack.
---
 packages/openapi-generator/src/resolveInit.ts | 13 ++++++++++++-
 1 file changed, 12 insertions(+), 1 deletion(-)

diff --git a/packages/openapi-generator/src/resolveInit.ts b/packages/openapi-generator/src/resolveInit.ts
index 3de88dd..085a45b 100644
--- a/packages/openapi-generator/src/resolveInit.ts
+++ b/packages/openapi-generator/src/resolveInit.ts
@@ -37,7 +37,13 @@ function findExportedDeclaration(
   project: Project,
   sourceFile: SourceFile,
   name: string,
+  visited: Set<SourceFile> = new Set(),
 ): E.Either<string, ResolvedInitializer> {
+  // Files may export everything from each other
+  if (visited.has(sourceFile)) {
+    return errorLeft(`Unknown identifier ${name}`);
+  }
+  visited.add(sourceFile);
   for (const exp of sourceFile.symbols.exports) {
     if (exp.exportedName === name) {
       return findSymbolInitializer(project, sourceFile, exp.localName);
@@ -48,7 +54,12 @@ function findExportedDeclaration(
     if (E.isLeft(starSourceFile)) {
       return errorLeft(`Cannot resolve * export from '${starExport}'`);
     }
-    const starExportE = findExportedDeclaration(project, starSourceFile.right, name);
+    const starExportE = findExportedDeclaration(
+      project,
+      starSourceFile.right,
+      name,
+      visited,
+    );
     if (E.isRight(starExportE)) {
       return starExportE;
     }
-- 
2.43.0


From a86a4fc91db1fa0b530267db595bcdba3f009150 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:29:10 +0000
Subject: [PATCH 48/57] fix: keep the comment of an optional codec in records
 and lists

---
 packages/openapi-generator/src/openapi.ts | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/packages/openapi-generator/src/openapi.ts b/packages/openapi-generator/src/openapi.ts
index 733efcf..cb4f3bc 100644
--- a/packages/openapi-generator/src/openapi.ts
+++ b/packages/openapi-generator/src/openapi.ts
@@ -172,7 +172,7 @@ export function schemaToOpenAPI(
             {
               ...nonUndefinedSchema,
               ...metadata,
-              comment: schema.comment,
+              comment: schema.comment ?? nonUndefinedSchema.comment,
               ...(nullSchema ? { nullable: true } : {}),
             },
             componentNameMapping,
@@ -191,7 +191,7 @@ export function schemaToOpenAPI(
               {
                 ...nonUnknownSchemas[0],
                 ...metadata,
-                comment: schema.comment,
+                comment: schema.comment ?? nonUnknownSchemas[0].comment,
                 ...(nullSchema ? { nullable: true } : {}),
               },
               componentNameMapping,
-- 
2.43.0


From b5086766b1e3217970aab2b56d44b39a3da3d4a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:29:10 +0000
Subject: [PATCH 49/57] fix: keep the constraints of an object inside an
 intersection

---
 packages/openapi-generator/src/optimize.ts | 15 ++++++++++++---
 1 file changed, 12 insertions(+), 3 deletions(-)

diff --git a/packages/openapi-generator/src/optimize.ts b/packages/openapi-generator/src/optimize.ts
index 3ea8f85..ae1691f 100644
--- a/packages/openapi-generator/src/optimize.ts
+++ b/packages/openapi-generator/src/optimize.ts
@@ -20,6 +20,10 @@ const STRUCTURAL_KEYS = new Set([
   'decodedType',
 ]);
 
+function hasMetadata(schema: Schema): boolean {
+  return Object.keys(schema).some((key) => !STRUCTURAL_KEYS.has(key));
+}
+
 function isSameType(a: Schema, b: Schema): boolean {
   const { comment: _a, ...restA } = a;
   const { comment: _b, ...restB } = b;
@@ -39,7 +43,7 @@ export function foldIntersection(schema: Schema, optimize: OptimizeFn): Schema {
   };
   let result: Schema = combinedObject;
   innerSchemas.forEach((innerSchema) => {
-    if (innerSchema.type === 'object') {
+    if (innerSchema.type === 'object' && !hasMetadata(innerSchema)) {
       for (const [key, prop] of Object.entries(innerSchema.properties)) {
         const existing = Object.prototype.hasOwnProperty.call(
           combinedObject.properties,
@@ -78,7 +82,12 @@ export function foldIntersection(schema: Schema, optimize: OptimizeFn): Schema {
 
     // Remove the empty object from the intersection
     const nonEmptySchemas = intersectionResult.schemas.filter(
-      (s: Schema) => !(s.type === 'object' && Object.keys(s.properties).length === 0),
+      (s: Schema) =>
+        !(
+          s.type === 'object' &&
+          Object.keys(s.properties).length === 0 &&
+          !hasMetadata(s)
+        ),
     );
 
     if (nonEmptySchemas.length === 0) {
@@ -203,7 +212,7 @@ export function simplifyUnion(schema: Schema, optimize: OptimizeFn): Schema {
         innerSchema.comment ||
         innerSchema.enumDescriptions ||
         innerSchema.enumsDeprecated ||
-        Object.keys(innerSchema).some((key) => !STRUCTURAL_KEYS.has(key))
+        hasMetadata(innerSchema)
       ) {
         remainder.push(innerSchema);
       } else {
-- 
2.43.0


From 5d25f512ac3ec7b24ebca1f328c2a55c17bca8f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:29:10 +0000
Subject: [PATCH 50/57] fix: keep what is said about a union inside a union,
 and optimize lone members

---
 packages/openapi-generator/src/optimize.ts | 21 ++++++++++++++-------
 1 file changed, 14 insertions(+), 7 deletions(-)

diff --git a/packages/openapi-generator/src/optimize.ts b/packages/openapi-generator/src/optimize.ts
index ae1691f..e89640b 100644
--- a/packages/openapi-generator/src/optimize.ts
+++ b/packages/openapi-generator/src/optimize.ts
@@ -181,14 +181,19 @@ function mergeUnions(schema: Schema): Schema {
     }
   });
 
-  if (resultingSchemas.size === 1) return JSON.parse(Array.from(resultingSchemas)[0]!);
+  if (resultingSchemas.size === 1) {
+    return withMetadata(JSON.parse(Array.from(resultingSchemas)[0]!), schema);
+  }
 
-  return {
-    type: 'union',
-    schemas: Array.from(resultingSchemas)
-      .filter((s) => s != undefined)
-      .map((s) => JSON.parse(s)),
-  };
+  return withMetadata(
+    {
+      type: 'union',
+      schemas: Array.from(resultingSchemas)
+        .filter((s) => s != undefined)
+        .map((s) => JSON.parse(s)),
+    },
+    schema,
+  );
 }
 
 export function simplifyUnion(schema: Schema, optimize: OptimizeFn): Schema {
@@ -305,6 +310,8 @@ export function optimize(schema: Schema): Schema {
     const newSchema = foldIntersection(schema, optimize);
 
     return withMetadata(newSchema, schema);
+  } else if (schema.type === 'union' && schema.schemas.length === 1) {
+    return withMetadata(optimize(schema.schemas[0]!), schema);
   } else if (schema.type === 'union') {
     const consolidated = consolidateUnion(schema);
     const simplified = simplifyUnion(consolidated, optimize);
-- 
2.43.0


From a0b34fdc5dc048aa7288ed27af4ff36b1f5d5616 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:03:12 +0000
Subject: [PATCH 51/57] fix: skip declarations without a value when looking for
 API specs

A declaration like `declare const x: string` or `let x` in the entry point has null for
its initializer, which made the generator fail with a TypeError.
---
 packages/openapi-generator/src/cli.ts | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/packages/openapi-generator/src/cli.ts b/packages/openapi-generator/src/cli.ts
index 6189503..2a3d9c2 100644
--- a/packages/openapi-generator/src/cli.ts
+++ b/packages/openapi-generator/src/cli.ts
@@ -115,7 +115,8 @@ const app = command({
     let apiSpec: Route[] = [];
     let servers: OpenAPIV3.ServerObject[] = [];
     for (const symbol of Object.values(entryPoint.symbols.declarations)) {
-      if (symbol.init === undefined) {
+      // Declarations without a value (`declare const x: string`) have no initializer
+      if (!symbol.init) {
         continue;
       }
       const init = unwrapExpression(symbol.init);
-- 
2.43.0


From 66a78a57ca93ffe750cad98cb21b1daeb294feec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:12:10 +0000
Subject: [PATCH 52/57] fix: read comments of source files with a byte order
 mark

swc leaves a byte order mark at the start of a file out of its spans. The source that
comments are read from still had it, so that the comments were cut off and got lost.
---
 packages/openapi-generator/src/sourceFile.ts | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/packages/openapi-generator/src/sourceFile.ts b/packages/openapi-generator/src/sourceFile.ts
index fa639a4..30bfe48 100644
--- a/packages/openapi-generator/src/sourceFile.ts
+++ b/packages/openapi-generator/src/sourceFile.ts
@@ -19,6 +19,11 @@ export async function parseSource(
   path: string,
   src: string,
 ): Promise<SourceFile | undefined> {
+  // `swc` does not count a byte order mark, so that it would shift all spans
+  if (src.startsWith('\uFEFF')) {
+    src = src.slice(1);
+  }
+
   try {
     // Parse an empty string to get the last span
     const lastSpan = swc.parseSync('');
-- 
2.43.0


From 1536fb4c1fd92eaa98ea21786df5b00be15a33fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:45:40 +0000
Subject: [PATCH 53/57] fix: document `Type.keys.name` by its value

---
 packages/openapi-generator/src/codec.ts | 90 +++++++++++++++++++------
 1 file changed, 71 insertions(+), 19 deletions(-)

diff --git a/packages/openapi-generator/src/codec.ts b/packages/openapi-generator/src/codec.ts
index 1464f1e..34e4817 100644
--- a/packages/openapi-generator/src/codec.ts
+++ b/packages/openapi-generator/src/codec.ts
@@ -9,6 +9,7 @@ import type { Project } from './project';
 import {
   findSymbolInitializer,
   resolveExternalReference,
+  resolveLiteralOrIdentifier,
   unwrapExpression,
 } from './resolveInit';
 import type { SourceFile } from './sourceFile';
@@ -75,29 +76,22 @@ function codecIdentifier(
     const object = id.object;
     if (object.type !== 'Identifier') {
       if (object.type === 'MemberExpression') {
-        // Handle double-nested member expressions
+        // Handle `Type.keys.propertyName` and `Type.keys["Property Name"]`
+        const property = id.property;
+        const name =
+          property.type === 'Identifier'
+            ? property.value
+            : property.type === 'Computed' &&
+                property.expression.type === 'StringLiteral'
+              ? property.expression.value
+              : undefined;
         if (
           object.object.type === 'Identifier' &&
           object.property.type === 'Identifier' &&
-          object.property.value === 'keys'
+          object.property.value === 'keys' &&
+          name !== undefined
         ) {
-          // Handle `Type.keys.propertyName` format
-          if (id.property.type === 'Identifier') {
-            return E.right({
-              type: 'string',
-              enum: [id.property.value],
-            });
-          }
-          // Handle `Type.keys["Property Name"]` format (computed property)
-          else if (
-            id.property.type === 'Computed' &&
-            id.property.expression.type === 'StringLiteral'
-          ) {
-            return E.right({
-              type: 'string',
-              enum: [id.property.expression.value],
-            });
-          }
+          return parseKey(project, source, object.object.value, name);
         }
 
         return errorLeft(
@@ -215,6 +209,64 @@ function codecIdentifier(
   return errorLeft(`Unimplemented identifier type ${id.type}`);
 }
 
+// Parse `typeName.keys.name`, which is the value that a `t.keyof` codec was given for that name
+function parseKey(
+  project: Project,
+  source: SourceFile,
+  typeName: string,
+  name: string,
+): E.Either<string, Schema> {
+  const initE = findSymbolInitializer(project, source, typeName);
+  if (E.isLeft(initE)) {
+    return initE;
+  } else if (initE.right[1] === null) {
+    // Only the type of the codec is known
+    return E.right({ type: 'string', enum: [name] });
+  }
+  const resolvedE = resolveLiteralOrIdentifier(
+    project,
+    initE.right[0],
+    initE.right[1],
+  );
+  if (E.isLeft(resolvedE)) {
+    return resolvedE;
+  }
+  const [newSourceFile, init] = resolvedE.right;
+
+  let keys: swc.Expression | undefined;
+  if (init.type === 'CallExpression' && init.callee.type !== 'Super') {
+    const { callee } = init;
+    const calleeE =
+      callee.type === 'Identifier' || callee.type === 'MemberExpression'
+        ? codecIdentifier(project, newSourceFile, callee)
+        : errorLeft(`Unimplemented callee type ${callee.type}`);
+    if (E.isLeft(calleeE)) {
+      return calleeE;
+    }
+    const keyof = project.resolveKnownImport('io-ts', 'keyof');
+    if (calleeE.right.type === 'codec' && calleeE.right.schema === keyof) {
+      keys = init.arguments[0]?.expression;
+    }
+  }
+  if (keys === undefined) {
+    return errorLeft(`'${typeName}' is not a 'keyof' codec`);
+  }
+
+  const deref = (schema: Schema): E.Either<string, Schema> =>
+    schema.type === 'ref' ? parseReferenced(project, schema) : E.right(schema);
+  return pipe(
+    parsePlainInitializer(project, newSourceFile, keys),
+    E.chain(deref),
+    E.chain((schema) =>
+      schema.type === 'object' && Object.keys(schema.properties).includes(name)
+        ? deref(schema.properties[name]!)
+        : errorLeft(`Unknown key '${name}' in '${typeName}'`),
+    ),
+    // A comment there is about the key
+    E.map(({ comment: _, ...schema }) => schema),
+  );
+}
+
 // Parse the declaration that a reference points to, which may be in another file
 function parseReferenced(
   project: Project,
-- 
2.43.0


From 94618b585f8ab1cdd00f6cbe2a696dc45477cf47 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:23:53 +0000
Subject: [PATCH 54/57] fix: keep the indentation in the descriptions of
 operations

---
 packages/openapi-generator/src/jsdoc.ts | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/packages/openapi-generator/src/jsdoc.ts b/packages/openapi-generator/src/jsdoc.ts
index 906a603..5d98b8e 100644
--- a/packages/openapi-generator/src/jsdoc.ts
+++ b/packages/openapi-generator/src/jsdoc.ts
@@ -50,7 +50,9 @@ export function parseCommentBlock(comment: Block): JSDoc {
       }
       summary = line.tokens.description.trim();
     } else {
-      description = `${description ?? ''}\n${line.tokens.description}`;
+      // The rest is Markdown, in which indentation matters
+      const { postDelimiter, description: text } = line.tokens;
+      description = `${description ?? ''}\n${postDelimiter.slice(1)}${text}`;
     }
   }
 
-- 
2.43.0


From cd63e2727808f3456179add892f967d55e89571f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:32:07 +0000
Subject: [PATCH 55/57] fix: do not document one boolean literal as any boolean

---
 packages/openapi-generator/src/optimize.ts | 13 ++++++++++++-
 1 file changed, 12 insertions(+), 1 deletion(-)

diff --git a/packages/openapi-generator/src/optimize.ts b/packages/openapi-generator/src/optimize.ts
index e89640b..e226203 100644
--- a/packages/openapi-generator/src/optimize.ts
+++ b/packages/openapi-generator/src/optimize.ts
@@ -114,7 +114,18 @@ function consolidateUnion(schema: Schema): Schema {
     (s) => s.type === 'boolean' || s.decodedType === 'boolean',
   );
 
-  if (booleanSchemas.length === innerSchemas.length && booleanSchemas.length > 0) {
+  // One and the same literal several times is not any boolean
+  const [first] = booleanSchemas;
+  const isSingleLiteral =
+    first?.type === 'boolean' &&
+    first.enum?.length === 1 &&
+    booleanSchemas.every((s) => isSameType(s, first));
+
+  if (
+    booleanSchemas.length === innerSchemas.length &&
+    booleanSchemas.length > 0 &&
+    !isSingleLiteral
+  ) {
     return { type: 'boolean' };
   }
 
-- 
2.43.0


From 272ab6b94c45f03dd13a2b44972e8c373c325073 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:34:18 +0000
Subject: [PATCH 56/57] fix: read the files of packages that are re-exported as
 a whole

---
 packages/openapi-generator/src/project.ts | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/packages/openapi-generator/src/project.ts b/packages/openapi-generator/src/project.ts
index 7822a2f..bd5ec22 100644
--- a/packages/openapi-generator/src/project.ts
+++ b/packages/openapi-generator/src/project.ts
@@ -117,7 +117,9 @@ export class Project {
 
         // Process star exports
         for (const starExport of sourceFile.symbols.exportStarFiles) {
-          const absImportPathE = this.resolve(baseDir, starExport);
+          const absImportPathE = starExport.startsWith('.')
+            ? this.resolve(baseDir, starExport)
+            : this.resolveEntryPoint(baseDir, starExport);
           if (E.isRight(absImportPathE) && !this.has(absImportPathE.right)) {
             queue.push(absImportPathE.right);
           }
-- 
2.43.0


From 43d70d1e634767aacbac6c71189c2389bd4d9ce7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:35:47 +0000
Subject: [PATCH 57/57] fix: look for a codec in all re-exported files before
 giving up

---
 packages/openapi-generator/src/resolveInit.ts | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/packages/openapi-generator/src/resolveInit.ts b/packages/openapi-generator/src/resolveInit.ts
index 085a45b..1f795f0 100644
--- a/packages/openapi-generator/src/resolveInit.ts
+++ b/packages/openapi-generator/src/resolveInit.ts
@@ -49,10 +49,13 @@ function findExportedDeclaration(
       return findSymbolInitializer(project, sourceFile, exp.localName);
     }
   }
+  let unresolved: string | undefined;
   for (const starExport of sourceFile.symbols.exportStarFiles) {
     const starSourceFile = resolveImportPath(project, sourceFile, starExport);
     if (E.isLeft(starSourceFile)) {
-      return errorLeft(`Cannot resolve * export from '${starExport}'`);
+      // Other files may export it nevertheless
+      unresolved ??= starExport;
+      continue;
     }
     const starExportE = findExportedDeclaration(
       project,
@@ -64,6 +67,11 @@ function findExportedDeclaration(
       return starExportE;
     }
   }
+  if (unresolved !== undefined) {
+    return errorLeft(
+      `Unknown identifier ${name}: Cannot resolve * export from '${unresolved}'`,
+    );
+  }
   return errorLeft(`Unknown identifier ${name}`);
 }
 
-- 
2.43.0

