From 81d79f2abaedc4b6def1d6b7a5f7788f27aa8bcb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:25:21 +0000
Subject: [PATCH 01/38] fix: LambdaProxyResponseBuilder sent the decoded body
 as the ETag of a base64 body

---
 .../src/aws/types/lambda-proxy-types.ts                   | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/lib/digitraffic-common/src/aws/types/lambda-proxy-types.ts b/lib/digitraffic-common/src/aws/types/lambda-proxy-types.ts
index 85fac99..4d54454 100644
--- a/lib/digitraffic-common/src/aws/types/lambda-proxy-types.ts
+++ b/lib/digitraffic-common/src/aws/types/lambda-proxy-types.ts
@@ -1,6 +1,6 @@
 import type { APIGatewayProxyEvent, APIGatewayProxyResult } from "aws-lambda";
 import etag from "etag";
-import { compressBuffer, decodeBase64ToUtf8 } from "../../utils/base64.js";
+import { compressBuffer } from "../../utils/base64.js";
 import { truncateMiddle } from "../../utils/logging.js";
 import { StopWatch } from "../../utils/stop-watch.js";
 import { logger } from "../runtime/dt-logger-default.js";
@@ -53,9 +53,9 @@ export class LambdaProxyResponseBuilder {
     this.body = typeof body === "string" ? body : JSON.stringify(body);
     this.isBase64Encoded = isBase64Encoded;
     // create strong etag by default from original body
-    this.etag = this.isBase64Encoded
-      ? decodeBase64ToUtf8(this.body)
-      : etag(this.body);
+    this.etag = etag(
+      this.isBase64Encoded ? Buffer.from(this.body, "base64") : this.body,
+    );
     return this;
   }
 
-- 
2.43.0


From 8bde5a4955ed68cad96d3d8c4279558646ea2797 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:25:21 +0000
Subject: [PATCH 02/38] fix: LambdaProxyResponseBuilder declared bodies it did
 not compress as gzip

---
 lib/digitraffic-common/src/aws/types/lambda-proxy-types.ts | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/lib/digitraffic-common/src/aws/types/lambda-proxy-types.ts b/lib/digitraffic-common/src/aws/types/lambda-proxy-types.ts
index 4d54454..69d63aa 100644
--- a/lib/digitraffic-common/src/aws/types/lambda-proxy-types.ts
+++ b/lib/digitraffic-common/src/aws/types/lambda-proxy-types.ts
@@ -168,6 +168,10 @@ export class LambdaProxyResponseBuilder {
     if (!this.body && !bodyNotRequired) {
       throw new Error("Body is required for LambdaResponseBuilder");
     }
+    if (!this.body || this.isBase64Encoded) {
+      // Nothing to compress, so the response must not be declared as compressed
+      this.withCompression(false);
+    }
     // This needs to be called before building the response as this might modify compressBody value
     const maybeEncodedBody = this.body ? this.encodeBody() : "";
 
-- 
2.43.0


From eea4b3b0157c6a2dbb48dd6fc09131ed51d2adc6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:53:53 +0000
Subject: [PATCH 03/38] fix: requests with an empty digitraffic-user header
 escaped every throttle rule

---
 lib/digitraffic-common/src/aws/infra/acl-builder.ts | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/lib/digitraffic-common/src/aws/infra/acl-builder.ts b/lib/digitraffic-common/src/aws/infra/acl-builder.ts
index 6852410..2f7c965 100644
--- a/lib/digitraffic-common/src/aws/infra/acl-builder.ts
+++ b/lib/digitraffic-common/src/aws/infra/acl-builder.ts
@@ -452,10 +452,10 @@ function createThrottleStatement(
   isBasedOnIpAndUriPath: boolean,
   path?: RegExp,
 ): CfnWebACL.StatementProperty {
-  // this statement matches empty digitraffic-user -header
+  // this statement matches a non-empty digitraffic-user -header
   const matchStatement: CfnWebACL.StatementProperty = {
     sizeConstraintStatement: {
-      comparisonOperator: isHeaderRequired ? "GT" : "GE",
+      comparisonOperator: "GT",
       fieldToMatch: {
         singleHeader: {
           Name: "digitraffic-user",
@@ -466,8 +466,8 @@ function createThrottleStatement(
     } as CfnWebACL.SizeConstraintStatementProperty,
   };
 
-  // header present       -> size > 0
-  // header not present   -> NOT(size >= 0)
+  // header present                -> size > 0
+  // header not present or empty   -> NOT(size > 0)
 
   let scopeDownStatement = isHeaderRequired
     ? matchStatement
-- 
2.43.0


From e97445fdac3914231719740e3856607dd27c9376 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:54:18 +0000
Subject: [PATCH 04/38] fix: any whitelist entry lowered every stack check, as
 matchAll() is always truthy

---
 .../src/aws/infra/stack/stack-checking-aspect.ts                | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib/digitraffic-common/src/aws/infra/stack/stack-checking-aspect.ts b/lib/digitraffic-common/src/aws/infra/stack/stack-checking-aspect.ts
index 01269d5..4032936 100644
--- a/lib/digitraffic-common/src/aws/infra/stack/stack-checking-aspect.ts
+++ b/lib/digitraffic-common/src/aws/infra/stack/stack-checking-aspect.ts
@@ -54,7 +54,7 @@ export class StackCheckingAspect implements IAspect {
 
   private isWhitelisted(key: string): boolean | undefined {
     return this.whitelistedResources?.some((wl) => {
-      return key.matchAll(new RegExp(wl, "g"));
+      return new RegExp(wl).test(key);
     });
   }
 
-- 
2.43.0


From fd23d323f08e2330a9b3aca5bc63557fabee9c67 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:03:44 +0000
Subject: [PATCH 05/38] fix: lambda request templates let query parameters
 break or override the event

Query parameters passed with passAllQueryParameters were put into the JSON
event unescaped, and could replace path, header and context parameters of the
same name; apostrophes were escaped in a way JSON does not allow; and a body
alone (passBody) got no template at all.
---
 .../src/aws/infra/api/integration.ts          | 26 ++++++++++++-------
 1 file changed, 17 insertions(+), 9 deletions(-)

diff --git a/lib/digitraffic-common/src/aws/infra/api/integration.ts b/lib/digitraffic-common/src/aws/infra/api/integration.ts
index 2f07cb5..137e40d 100644
--- a/lib/digitraffic-common/src/aws/infra/api/integration.ts
+++ b/lib/digitraffic-common/src/aws/infra/api/integration.ts
@@ -19,9 +19,15 @@ interface ApiParameter {
   name: string;
 }
 
+/**
+ * escapeJavaScript turns ' into \', which is not valid in JSON.
+ */
+const escapeForJson = (reference: string): string =>
+  `$util.escapeJavaScript(${reference}).replaceAll("\\\\'", "'")`;
+
 const VELOCITY_ALL_PARAMS = `#foreach($paramName in $params.keySet())
-    #if( ! $paramMap.containsKey("_$paramName"))
-        #set($tmp = $paramMap.put($paramName, $params[$paramName]))
+    #if( ! $paramMap.containsKey("_$paramName") && ! $paramMap.containsKey($paramName) && ! $paramName.startsWith('_'))
+        #set($tmp = $paramMap.put($paramName, ${escapeForJson("$params[$paramName]")}))
     #end
 #end`;
 
@@ -146,7 +152,9 @@ export class DigitrafficIntegration<T extends string> {
       integrationResponses,
       requestParameters: undefined,
       requestTemplates:
-        this.parameters.length === 0 && !this._passAllQueryParameters
+        this.parameters.length === 0 &&
+        !this._passAllQueryParameters &&
+        !this._passBody
           ? undefined
           : this.createRequestTemplates(),
       passthroughBehavior: PassthroughBehavior.WHEN_NO_MATCH,
@@ -177,7 +185,7 @@ export class DigitrafficIntegration<T extends string> {
     this.parameters.forEach((parameter: ApiParameter) => {
       if (parameter.type === "context") {
         parameterAssignments.push(
-          `#set($tmp = $paramMap.put('${parameter.name}', $util.escapeJavaScript($context.${parameter.name})))`,
+          `#set($tmp = $paramMap.put('${parameter.name}', ${escapeForJson(`$context.${parameter.name}`)}))`,
         );
       } else if (parameter.type === "multivaluequerystring") {
         // make multivaluequerystring values to array
@@ -186,15 +194,15 @@ export class DigitrafficIntegration<T extends string> {
         );
       } else if (parameter.type === "path") {
         parameterAssignments.push(
-          `#set($tmp = $paramMap.put('${parameter.name}', $util.escapeJavaScript($input.params().path['${parameter.name}'])))`,
+          `#set($tmp = $paramMap.put('${parameter.name}', ${escapeForJson(`$input.params().path['${parameter.name}']`)}))`,
         );
       } else if (parameter.type === "header") {
         parameterAssignments.push(
-          `#set($tmp = $paramMap.put('${parameter.name}', $util.escapeJavaScript($input.params().header['${parameter.name}'])))`,
+          `#set($tmp = $paramMap.put('${parameter.name}', ${escapeForJson(`$input.params().header['${parameter.name}']`)}))`,
         );
       } else {
         parameterAssignments.push(
-          `#set($tmp = $paramMap.put('${parameter.name}', $util.escapeJavaScript($params['${parameter.name}'])))`,
+          `#set($tmp = $paramMap.put('${parameter.name}', ${escapeForJson(`$params['${parameter.name}']`)}))`,
         );
       }
     });
@@ -211,9 +219,9 @@ ${this._passBody ? VELOCITY_PASS_BODY : ""}
 {
 #foreach($paramName in $paramMap.keySet())
 #if( $paramName.substring(0, 1) != '_')
-    "$paramName":"$paramMap.get($paramName)" #if($foreach.hasNext),\n#end
+    "${escapeForJson("$paramName")}":"$paramMap.get($paramName)" #if($foreach.hasNext),\n#end
 #else
-    "$paramName.substring(1)": [#foreach($val in $paramMap.get($paramName))"$util.escapeJavaScript($val)"#if($foreach.hasNext),#end#end] #if($foreach.hasNext),\n#end
+    "$paramName.substring(1)": [#foreach($val in $paramMap.get($paramName))"${escapeForJson("$val")}"#if($foreach.hasNext),#end#end] #if($foreach.hasNext),\n#end
 #end
 #end
 }`,
-- 
2.43.0


From 47b11819594bcffe4e8df460dae09e43933ad6f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:03:44 +0000
Subject: [PATCH 06/38] fix: API gateway answered 200 when the queue refused a
 message

---
 lib/digitraffic-common/src/aws/infra/sqs-integration.ts | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib/digitraffic-common/src/aws/infra/sqs-integration.ts b/lib/digitraffic-common/src/aws/infra/sqs-integration.ts
index db47136..2d719c6 100644
--- a/lib/digitraffic-common/src/aws/infra/sqs-integration.ts
+++ b/lib/digitraffic-common/src/aws/infra/sqs-integration.ts
@@ -80,7 +80,7 @@ export function attachQueueToApiGatewayResource(
           responseTemplates: {
             "text/html": "Error",
           },
-          selectionPattern: "500",
+          selectionPattern: "4\\d{2}|5\\d{2}",
         },
       ],
     },
-- 
2.43.0


From a5992dd6a93557f0b039471087c54b4c72f9e0e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:03:54 +0000
Subject: [PATCH 07/38] fix: bodies of deprecated APIs were followed by the
 white space of the template

---
 .../src/aws/infra/api/response.ts             | 20 ++++++++++---------
 1 file changed, 11 insertions(+), 9 deletions(-)

diff --git a/lib/digitraffic-common/src/aws/infra/api/response.ts b/lib/digitraffic-common/src/aws/infra/api/response.ts
index 5232f12..c2b4ed7 100644
--- a/lib/digitraffic-common/src/aws/infra/api/response.ts
+++ b/lib/digitraffic-common/src/aws/infra/api/response.ts
@@ -50,15 +50,17 @@ $util.base64Decode($inputRoot.body)`;
  */
 
 export const getDeprecatedDefaultLambdaResponse = (sunset?: string): string => {
-  const setDeprecationHeaders = `#set ($context.responseOverride.header.Deprecation = 'true')
-    ${
-      sunset
-        ? `#set ($context.responseOverride.header.Sunset = '${dateFromIsoString(
-            sunset,
-          ).toUTCString()}')`
-        : ""
-    }`;
-  return RESPONSE_DEFAULT_LAMBDA.concat(setDeprecationHeaders);
+  const setDeprecationHeaders = `#set ($context.responseOverride.header.Deprecation = 'true')##
+${
+  sunset
+    ? `#set ($context.responseOverride.header.Sunset = '${dateFromIsoString(
+        sunset,
+      ).toUTCString()}')##
+`
+    : ""
+}`;
+  // the body has to come last, anything after it would be a part of it
+  return setDeprecationHeaders.concat(RESPONSE_DEFAULT_LAMBDA);
 };
 
 const BODY_FROM_INPUT_PATH = "$input.path('$').body";
-- 
2.43.0


From 12b3c0e4e850ebdeb1844aaa8ac967fbf35c6edd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:24:03 +0000
Subject: [PATCH 08/38] fix: the deprecation note of a parameter was documented
 as the summary 'undefined. note'

---
 lib/digitraffic-common/src/aws/infra/documentation.ts | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/lib/digitraffic-common/src/aws/infra/documentation.ts b/lib/digitraffic-common/src/aws/infra/documentation.ts
index 12e39ad..52eacd6 100644
--- a/lib/digitraffic-common/src/aws/infra/documentation.ts
+++ b/lib/digitraffic-common/src/aws/infra/documentation.ts
@@ -116,7 +116,13 @@ export class DocumentationPart {
   deprecated(note: string): this {
     // deprecated is not supported ATM: https://docs.aws.amazon.com/apigateway/latest/developerguide/api-gateway-known-issues.html
     this.documentationProperties.deprecated = true;
-    this.documentationProperties.summary += `. ${note}`;
+
+    // parameters have a description, methods a summary
+    if (this.documentationProperties.summary === undefined) {
+      this.documentationProperties.description += `. ${note}`;
+    } else {
+      this.documentationProperties.summary += `. ${note}`;
+    }
 
     return this;
   }
-- 
2.43.0


From 9429152f37f58d2ae1dae2127c0f5d0730a83ef4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:34:50 +0000
Subject: [PATCH 09/38] fix: database canary expecting zero rows must fail when
 there are rows

---
 .../src/aws/infra/canaries/database-checker.ts     | 14 ++++++++------
 1 file changed, 8 insertions(+), 6 deletions(-)

diff --git a/lib/digitraffic-common/src/aws/infra/canaries/database-checker.ts b/lib/digitraffic-common/src/aws/infra/canaries/database-checker.ts
index dd70df0..e530ef5 100644
--- a/lib/digitraffic-common/src/aws/infra/canaries/database-checker.ts
+++ b/lib/digitraffic-common/src/aws/infra/canaries/database-checker.ts
@@ -20,6 +20,11 @@ abstract class DatabaseCheck<T> {
   abstract check(value: T): void;
 }
 
+// zero is a valid limit
+function isGiven(limit: number | undefined | null): limit is number {
+  return limit !== null && limit !== undefined;
+}
+
 class CountDatabaseCheck extends DatabaseCheck<Countable> {
   readonly minCount: number | undefined | null;
   readonly maxCount: number | undefined | null;
@@ -39,10 +44,7 @@ class CountDatabaseCheck extends DatabaseCheck<Countable> {
       throw new Error("sql must contain select count(*)");
     }
 
-    if (
-      (minCount === null || minCount === undefined) &&
-      (maxCount === null || maxCount === undefined)
-    ) {
+    if (!isGiven(minCount) && !isGiven(maxCount)) {
       throw new Error("no max or min given");
     }
 
@@ -52,13 +54,13 @@ class CountDatabaseCheck extends DatabaseCheck<Countable> {
 
   check(value: Countable): void {
     if ("count" in value) {
-      if (this.minCount && value.count < this.minCount) {
+      if (isGiven(this.minCount) && value.count < this.minCount) {
         this.failed = true;
         throw new Error(
           `count was ${value.count}, minimum is ${this.minCount}`,
         );
       }
-      if (this.maxCount && value.count > this.maxCount) {
+      if (isGiven(this.maxCount) && value.count > this.maxCount) {
         this.failed = true;
         throw new Error(`count was ${value.count}, max is ${this.maxCount}`);
       }
-- 
2.43.0


From ee53a67c31299003016be73d06ddc0d2cc6c4a40 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:34:50 +0000
Subject: [PATCH 10/38] fix: database canary must wait for its steps before it
 decides the result

---
 lib/digitraffic-common/src/aws/infra/canaries/Synthetics.d.ts   | 2 +-
 .../src/aws/infra/canaries/database-checker.ts                  | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/lib/digitraffic-common/src/aws/infra/canaries/Synthetics.d.ts b/lib/digitraffic-common/src/aws/infra/canaries/Synthetics.d.ts
index 67046ad..d1aa098 100644
--- a/lib/digitraffic-common/src/aws/infra/canaries/Synthetics.d.ts
+++ b/lib/digitraffic-common/src/aws/infra/canaries/Synthetics.d.ts
@@ -22,5 +22,5 @@ declare module "Synthetics" {
     s: string,
     f: () => void,
     c: Record<string, boolean>,
-  ): void;
+  ): Promise<void>;
 }
diff --git a/lib/digitraffic-common/src/aws/infra/canaries/database-checker.ts b/lib/digitraffic-common/src/aws/infra/canaries/database-checker.ts
index e530ef5..f248392 100644
--- a/lib/digitraffic-common/src/aws/infra/canaries/database-checker.ts
+++ b/lib/digitraffic-common/src/aws/infra/canaries/database-checker.ts
@@ -148,7 +148,7 @@ export class DatabaseCountChecker {
           check.check(value);
         };
 
-        synthetics.executeStep(check.name, checkFunction, stepConfig);
+        await synthetics.executeStep(check.name, checkFunction, stepConfig);
       }
     });
 
-- 
2.43.0


From b85d83247f7338e30df80071816c9f32bcc49785 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:34:50 +0000
Subject: [PATCH 11/38] fix: canary checks of a response must be able to fail
 the canary

---
 .../src/aws/infra/canaries/url-checker.ts        | 16 ++++++++++++----
 1 file changed, 12 insertions(+), 4 deletions(-)

diff --git a/lib/digitraffic-common/src/aws/infra/canaries/url-checker.ts b/lib/digitraffic-common/src/aws/infra/canaries/url-checker.ts
index f5c060d..b3728b6 100644
--- a/lib/digitraffic-common/src/aws/infra/canaries/url-checker.ts
+++ b/lib/digitraffic-common/src/aws/infra/canaries/url-checker.ts
@@ -96,7 +96,15 @@ export class UrlChecker {
     ...callbacks: JsonCheckerFunction<T>[]
   ): Promise<void> {
     const callback: JsonCheckerFunction<T> = async (json, body, res) => {
-      await Promise.allSettled(callbacks.map((c) => c(json, body, res)));
+      // run every check, then fail with the first failure
+      const results = await Promise.allSettled(
+        callbacks.map(async (c) => c(json, body, res)),
+      );
+      const failure = results.find((result) => result.status === "rejected");
+
+      if (failure) {
+        throw failure.reason;
+      }
     };
 
     return this.expectStatus(200, url, callback);
@@ -181,8 +189,8 @@ async function getResponseBody(response: IncomingMessage): Promise<string> {
   return body.toString();
 }
 
-function getBodyFromResponse(response: IncomingMessage): Promise<string> {
-  return new Promise((resolve: (value: string) => void) => {
+function getBodyFromResponse(response: IncomingMessage): Promise<Buffer> {
+  return new Promise((resolve: (value: Buffer) => void) => {
     const buffers: Buffer[] = [];
 
     response.on("data", (data: Buffer) => {
@@ -190,7 +198,7 @@ function getBodyFromResponse(response: IncomingMessage): Promise<string> {
     });
 
     response.on("end", () => {
-      resolve(Buffer.concat(buffers).toString());
+      resolve(Buffer.concat(buffers));
     });
   });
 }
-- 
2.43.0


From 9beeaa56816d473766395f2c1992ed977f1498e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:34:56 +0000
Subject: [PATCH 12/38] fix: url canary must verify the status code it expects

---
 .../src/aws/infra/canaries/url-checker.ts          | 14 +++++++++++++-
 1 file changed, 13 insertions(+), 1 deletion(-)

diff --git a/lib/digitraffic-common/src/aws/infra/canaries/url-checker.ts b/lib/digitraffic-common/src/aws/infra/canaries/url-checker.ts
index b3728b6..ccde879 100644
--- a/lib/digitraffic-common/src/aws/infra/canaries/url-checker.ts
+++ b/lib/digitraffic-common/src/aws/infra/canaries/url-checker.ts
@@ -84,10 +84,22 @@ export class UrlChecker {
       },
     };
 
+    const statusCallback: JsonCheckerFunction<T> = async (json, body, res) => {
+      // the only argument synthetics gives to the callback is the response
+      const { statusCode: actual, statusMessage } =
+        json as unknown as IncomingMessage;
+
+      if (actual !== statusCode) {
+        throw new Error(`${actual ?? undefined} ${statusMessage ?? undefined}`);
+      }
+
+      await callback(json, body, res);
+    };
+
     await synthetics.executeHttpStep(
       `Verify ${statusCode} for ${sanitizeStepName(url)}`,
       requestOptions,
-      callback,
+      statusCallback,
     );
   }
 
-- 
2.43.0


From ee9d1f8e412a1b9a283ff5a87486f80da196aaba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:15:39 +0000
Subject: [PATCH 13/38] fix: logging never throws on bigints, invalid dates and
 circular values

---
 .../src/aws/runtime/dt-logger.ts              | 36 ++++++++++++++++---
 lib/digitraffic-common/src/utils/logging.ts   |  4 +--
 2 files changed, 33 insertions(+), 7 deletions(-)

diff --git a/lib/digitraffic-common/src/aws/runtime/dt-logger.ts b/lib/digitraffic-common/src/aws/runtime/dt-logger.ts
index 46304f6..b45feb7 100644
--- a/lib/digitraffic-common/src/aws/runtime/dt-logger.ts
+++ b/lib/digitraffic-common/src/aws/runtime/dt-logger.ts
@@ -115,7 +115,7 @@ export class DtLogger {
       runtime: this.runtime,
     };
 
-    this.writeStream.write(`${JSON.stringify(logMessage)}\n`);
+    this.writeStream.write(`${stringify(logMessage)}\n`);
   }
 
   /**
@@ -177,7 +177,7 @@ export class DtLogger {
         ? `${message.error.name}: ${message.error.message}`
         : typeof message.error === "string"
           ? message.error
-          : JSON.stringify(message.error)
+          : stringify(message.error)
       : undefined;
 
     const stack = message.stack
@@ -198,7 +198,7 @@ export class DtLogger {
       runtime: this.runtime,
     };
 
-    this.writeStream.write(`${JSON.stringify(logMessage)}\n`);
+    this.writeStream.write(`${stringify(logMessage)}\n`);
   }
 
   private appendMessageFieldsToMessage(message: LoggableType): string {
@@ -229,15 +229,41 @@ function removePrefix(prefix: string, loggable: LoggableType): LoggableType {
   ) as unknown as LoggableType;
 }
 
+/**
+ * JSON.stringify that does not throw: bigints are written as strings and a reference back to
+ * an enclosing object as "[Circular]".
+ */
+export function stringify(value: unknown): string {
+  const ancestors: unknown[] = [];
+  return JSON.stringify(value, function (this: unknown, _key, item: unknown) {
+    if (typeof item === "bigint") {
+      return item.toString();
+    }
+    if (typeof item !== "object" || item === null) {
+      return item;
+    }
+    // `this` is the object that item is in
+    while (ancestors.length > 0 && ancestors.at(-1) !== this) {
+      ancestors.pop();
+    }
+    if (ancestors.includes(item)) {
+      return "[Circular]";
+    }
+    ancestors.push(item);
+    return item;
+  });
+}
+
 function valueToString(value: unknown): string {
   if (value === undefined) {
     return "undefined";
   } else if (value === null) {
     return "null";
   } else if (value instanceof Date) {
-    return value.toISOString();
+    // an invalid date has no ISO format
+    return Number.isNaN(value.getTime()) ? String(value) : value.toISOString();
   } else if (typeof value !== "string") {
-    return JSON.stringify(value);
+    return stringify(value);
   } else if (value.includes("=")) {
     return JSON.stringify(value);
   }
diff --git a/lib/digitraffic-common/src/utils/logging.ts b/lib/digitraffic-common/src/utils/logging.ts
index 1f80df7..cecc8a1 100644
--- a/lib/digitraffic-common/src/utils/logging.ts
+++ b/lib/digitraffic-common/src/utils/logging.ts
@@ -1,4 +1,4 @@
-import { DtLogger } from "../aws/runtime/dt-logger.js";
+import { DtLogger, stringify } from "../aws/runtime/dt-logger.js";
 import { getEnvVariableOrElse } from "./utils.js";
 
 const functionName = getEnvVariableOrElse("AWS_LAMBDA_FUNCTION_NAME", "test");
@@ -54,7 +54,7 @@ export function logException(
       ? error.message
       : typeof error === "string"
         ? error
-        : JSON.stringify(error);
+        : stringify(error);
 
   const stack =
     error instanceof Error && includeStack ? error.stack : undefined;
-- 
2.43.0


From 44940f341ed8ce4e9076222b7be95ec354a5bd2b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:58:08 +0000
Subject: [PATCH 14/38] fix: WKT of polygons puts every ring in parentheses of
 its own

---
 lib/digitraffic-common/src/utils/geometry.ts | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/lib/digitraffic-common/src/utils/geometry.ts b/lib/digitraffic-common/src/utils/geometry.ts
index f82ec3a..32a7496 100644
--- a/lib/digitraffic-common/src/utils/geometry.ts
+++ b/lib/digitraffic-common/src/utils/geometry.ts
@@ -49,13 +49,11 @@ function linestring(coordinates: Position[]): string {
 }
 
 function polygon(coordinates: Position[][]): string {
-  const list = coordinates.map((c: Position[]) => linestring(c)).join(",");
-  return `(${list})`;
+  return coordinates.map((c: Position[]) => `(${linestring(c)})`).join(",");
 }
 
 function multiPolygon(coordinates: Position[][][]): string {
-  const list = coordinates.map((c: Position[][]) => polygon(c)).join(",");
-  return `(${list})`;
+  return coordinates.map((c: Position[][]) => `(${polygon(c)})`).join(",");
 }
 
 function coordinatePair(coordinate: Position): string {
-- 
2.43.0


From a59e2e91fac911770281feb9d1e4e9b02978c9c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:58:08 +0000
Subject: [PATCH 15/38] fix: distances can be measured from and to coordinates
 that are 0

---
 lib/digitraffic-common/src/utils/geometry.ts | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/lib/digitraffic-common/src/utils/geometry.ts b/lib/digitraffic-common/src/utils/geometry.ts
index 32a7496..c548078 100644
--- a/lib/digitraffic-common/src/utils/geometry.ts
+++ b/lib/digitraffic-common/src/utils/geometry.ts
@@ -140,10 +140,10 @@ export function distanceBetweenPositionsInKm(
   if (
     pos1.length > 3 ||
     pos2.length > 3 ||
-    !pos10 ||
-    !pos11 ||
-    !pos20 ||
-    !pos21
+    pos10 === undefined ||
+    pos11 === undefined ||
+    pos20 === undefined ||
+    pos21 === undefined
   ) {
     throw Error(
       `Illegal Positions ${pos1.toString()} and ${pos2.toString()}. Both must have length between 2 or 3.`,
-- 
2.43.0


From 3efb18044d8b1798cc5e006055ff74fd30a2bbdd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:20:30 +0000
Subject: [PATCH 16/38] fix: a malformed port activity message no longer fails
 the rest of its batch

---
 .../src/lambda/process-queue/process-queue.ts        | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/marine/portactivity/src/lambda/process-queue/process-queue.ts b/marine/portactivity/src/lambda/process-queue/process-queue.ts
index 309c4d1..d376c66 100644
--- a/marine/portactivity/src/lambda/process-queue/process-queue.ts
+++ b/marine/portactivity/src/lambda/process-queue/process-queue.ts
@@ -26,14 +26,16 @@ export function handlerFn(): (
           [];
 
         for (const r of event.Records) {
-          const partial = JSON.parse(r.body) as Partial<ApiTimestamp>;
           const start = Date.now();
-          logger.debug({
-            method: "ProcessQueue.handler",
-            message: `processing timestamp ${JSON.stringify(partial)}`,
-          });
 
           try {
+            // a malformed message fails by itself, not the whole batch
+            const partial = JSON.parse(r.body) as Partial<ApiTimestamp>;
+            logger.debug({
+              method: "ProcessQueue.handler",
+              message: `processing timestamp ${JSON.stringify(partial)}`,
+            });
+
             const timestamp = await validateTimestamp(partial, db);
 
             if (!timestamp) {
-- 
2.43.0


From bffeb127a8cd4685d5c48085bd677ace7641ea63 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:43:58 +0000
Subject: [PATCH 17/38] fix: behaviors that connect to the same host
 differently no longer share an origin

---
 other/cloudfront/src/cloudfront-cdk-stack.ts | 21 +++++++++++++++++---
 1 file changed, 18 insertions(+), 3 deletions(-)

diff --git a/other/cloudfront/src/cloudfront-cdk-stack.ts b/other/cloudfront/src/cloudfront-cdk-stack.ts
index 7af157d..eee0ef1 100644
--- a/other/cloudfront/src/cloudfront-cdk-stack.ts
+++ b/other/cloudfront/src/cloudfront-cdk-stack.ts
@@ -218,7 +218,18 @@ export class CloudfrontCdkStack extends Stack {
   }
 
   getOrigin(behavior: Behavior): IOrigin {
-    const cacheKey = behavior.origin._origin;
+    const { _type, _origin, _path } = behavior.origin;
+    // an origin can be shared only by behaviors that connect to it in the same way, s3 origins have no such settings
+    const cacheKey =
+      _type === "s3"
+        ? _origin
+        : JSON.stringify([
+            _type,
+            _origin,
+            _path,
+            behavior.apiKey,
+            behavior.readTimeout,
+          ]);
 
     if (!this._originCache[cacheKey]) {
       this._originCache[cacheKey] = this.createOrigin(behavior);
@@ -269,14 +280,18 @@ export class CloudfrontCdkStack extends Stack {
         throw new Error(`Missing vpc origin ${behavior.origin._origin}`);
       }
 
+      const vpcOriginId = `vpcOrigin-${behavior.origin._origin}`;
+      const originId = this.node.tryFindChild(vpcOriginId)
+        ? `${vpcOriginId}-${this._originIndex}`
+        : vpcOriginId;
       const cfVpcOrigin = CfVpcOrigin.fromVpcOriginId(
         this,
-        `vpcOrigin-${behavior.origin._origin}`,
+        originId,
         vpcOrigin.ref,
       );
 
       return VpcOrigin.withVpcOrigin(cfVpcOrigin, {
-        originId: `vpcOrigin-${behavior.origin._origin}`,
+        originId,
         domainName: "internal-web-test-1221465418.eu-west-1.elb.amazonaws.com",
         readTimeout: Duration.seconds(behavior.readTimeout),
         connectionAttempts: 3,
-- 
2.43.0


From 283d15bc85360f96f884d05daf49baf4556af5e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:43:58 +0000
Subject: [PATCH 18/38] fix: ip restrictions with the same name no longer share
 the first address list

---
 other/cloudfront/src/util/edgalambda-factory.ts |  2 +-
 other/cloudfront/src/util/lambda-creator.ts     | 13 ++++++++++++-
 2 files changed, 13 insertions(+), 2 deletions(-)

diff --git a/other/cloudfront/src/util/edgalambda-factory.ts b/other/cloudfront/src/util/edgalambda-factory.ts
index 177261b..bb1c244 100644
--- a/other/cloudfront/src/util/edgalambda-factory.ts
+++ b/other/cloudfront/src/util/edgalambda-factory.ts
@@ -99,7 +99,7 @@ export class EdgeLambdaFactory {
   }
 
   getIpRestrictionLambda(params: IpRestrictionParameters): IVersion {
-    const key = `iprestriction_${params.path}`;
+    const key = `iprestriction_${params.path}_${params.ipList}`;
 
     return this.getLambda(key, () =>
       createIpRestriction(this._scope, this._role, params.path, params.ipList),
diff --git a/other/cloudfront/src/util/lambda-creator.ts b/other/cloudfront/src/util/lambda-creator.ts
index 7733d81..2b541b8 100644
--- a/other/cloudfront/src/util/lambda-creator.ts
+++ b/other/cloudfront/src/util/lambda-creator.ts
@@ -30,6 +30,17 @@ function readBodyWithVersion(fileName: string): string {
   return body.toString().replace(/EXT_VERSION/gi, versionString);
 }
 
+/** The same function can be needed with different parameters, only the first one gets the plain name */
+function getFreeName(scope: Construct, name: string): string {
+  let freeName = name;
+
+  for (let i = 2; scope.node.tryFindChild(freeName); i++) {
+    freeName = `${name}-${i}`;
+  }
+
+  return freeName;
+}
+
 export function createGzipRequirement(
   scope: Construct,
   edgeLambdaRole: Role,
@@ -101,7 +112,7 @@ export function createIpRestriction(
   return createVersionedFunction(
     scope,
     edgeLambdaRole,
-    `ip-restriction-${path}`,
+    getFreeName(scope, `ip-restriction-${path}`),
     functionBody,
   );
 }
-- 
2.43.0


From 19278d3eb7e91d0a8e04bd51bfcb758a6457c625 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:43:58 +0000
Subject: [PATCH 19/38] fix: weathercam behaviors no longer share the first
 behavior's host

---
 other/cloudfront/src/util/edgalambda-factory.ts | 4 +++-
 other/cloudfront/src/util/lambda-creator.ts     | 2 +-
 2 files changed, 4 insertions(+), 2 deletions(-)

diff --git a/other/cloudfront/src/util/edgalambda-factory.ts b/other/cloudfront/src/util/edgalambda-factory.ts
index bb1c244..d523caf 100644
--- a/other/cloudfront/src/util/edgalambda-factory.ts
+++ b/other/cloudfront/src/util/edgalambda-factory.ts
@@ -68,7 +68,9 @@ export class EdgeLambdaFactory {
     weathercamHost: string,
     weathercamUrl: string,
   ): IVersion {
-    return this.getLambda("weathercam-rewrite", () =>
+    const key = `weathercam-rewrite_${weathercamHost}_${weathercamUrl}`;
+
+    return this.getLambda(key, () =>
       createWeathercamRewrite(
         this._scope,
         this._role,
diff --git a/other/cloudfront/src/util/lambda-creator.ts b/other/cloudfront/src/util/lambda-creator.ts
index 2b541b8..ecf7b57 100644
--- a/other/cloudfront/src/util/lambda-creator.ts
+++ b/other/cloudfront/src/util/lambda-creator.ts
@@ -70,7 +70,7 @@ export function createWeathercamRewrite(
   return createVersionedFunction(
     scope,
     edgeLambdaRole,
-    "weathercam-rewrite",
+    getFreeName(scope, "weathercam-rewrite"),
     functionBody,
   );
 }
-- 
2.43.0


From 218b5e2a702c439794d7d679362d87877d15eb10 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:43:58 +0000
Subject: [PATCH 20/38] fix: the limit of a throttled path is checked like the
 other limits

---
 other/cloudfront/src/acl/waf-rules.ts | 1 +
 1 file changed, 1 insertion(+)

diff --git a/other/cloudfront/src/acl/waf-rules.ts b/other/cloudfront/src/acl/waf-rules.ts
index 6194f5c..0f5b56b 100644
--- a/other/cloudfront/src/acl/waf-rules.ts
+++ b/other/cloudfront/src/acl/waf-rules.ts
@@ -80,6 +80,7 @@ export class WafRules {
       perIpWithoutHeader,
       perIpAndQueryWithHeader,
       perIpAndQueryWithoutHeader,
+      perIpAndQueryWithoutHeaderByPath,
     );
 
     return new WafRules(
-- 
2.43.0


From f7490525e35daa9b0b01ebce0ded002b27f27cbc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:00:31 +0000
Subject: [PATCH 21/38] fix: the ship list reaches four days ahead unless told
 otherwise

The default was given as the text 4*24, of which only the 4 was read, while
the documentation promises 4*24 hours.
---
 .../src/lambda/get-shiplist-public/get-shiplist-public.ts  | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/marine/portactivity/src/lambda/get-shiplist-public/get-shiplist-public.ts b/marine/portactivity/src/lambda/get-shiplist-public/get-shiplist-public.ts
index 09ce833..81539ce 100644
--- a/marine/portactivity/src/lambda/get-shiplist-public/get-shiplist-public.ts
+++ b/marine/portactivity/src/lambda/get-shiplist-public/get-shiplist-public.ts
@@ -13,6 +13,8 @@ import { getShiplist } from "../../service/shiplist.js";
 const rdsHolder = RdsHolder.create();
 const secretHolder = SecretHolder.create<ShiplistSecret>("shiplist");
 
+const DEFAULT_INTERVAL_HOURS = "96";
+
 export interface ShiplistSecret extends GenericSecret {
   readonly auth: string;
 }
@@ -81,7 +83,10 @@ export const handler = (
         event.queryStringParameters,
         secret,
       );
-      const interval = Number.parseInt(parameters.interval ?? "4*24", 10);
+      const interval = Number.parseInt(
+        parameters.interval ?? DEFAULT_INTERVAL_HOURS,
+        10,
+      );
 
       return inDatabaseReadonly(
         async (db: DTDatabase): Promise<APIGatewayProxyResult> => {
-- 
2.43.0


From d3f1e95d171850654183028c8b5863b3832826ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:00:31 +0000
Subject: [PATCH 22/38] fix: a ship's name can no longer end the script of the
 ship list page

---
 .../src/lambda/get-shiplist-public/get-shiplist-public.ts  | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/marine/portactivity/src/lambda/get-shiplist-public/get-shiplist-public.ts b/marine/portactivity/src/lambda/get-shiplist-public/get-shiplist-public.ts
index 81539ce..90f4189 100644
--- a/marine/portactivity/src/lambda/get-shiplist-public/get-shiplist-public.ts
+++ b/marine/portactivity/src/lambda/get-shiplist-public/get-shiplist-public.ts
@@ -105,6 +105,11 @@ export const handler = (
     });
 };
 
+/** JSON that can be put inside a script element: ship names may contain anything, also </script> */
+function toScriptLiteral(value: unknown): string {
+  return JSON.stringify(value).replaceAll("<", "\\u003c");
+}
+
 function getPageSource(shiplist: PublicApiTimestamp[]): string {
   return `
 <html>
@@ -237,7 +242,7 @@ function getPageSource(shiplist: PublicApiTimestamp[]): string {
 
 </body>
 <script>
-    var shiplist = ${JSON.stringify(shiplist)};
+    var shiplist = ${toScriptLiteral(shiplist)};
 
     var currentDate = new Date();
 
-- 
2.43.0


From 6f0630b8081a49c398e4f365fd5d21293a99a692 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:47:29 +0000
Subject: [PATCH 23/38] fix: changed and restored places of port suspensions
 are taken over

---
 marine/winter-navigation/src/db/port-suspensions.ts | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/marine/winter-navigation/src/db/port-suspensions.ts b/marine/winter-navigation/src/db/port-suspensions.ts
index 535f8ae..a5d219a 100644
--- a/marine/winter-navigation/src/db/port-suspensions.ts
+++ b/marine/winter-navigation/src/db/port-suspensions.ts
@@ -24,7 +24,11 @@ const SQL_UPDATE_SUSPENSION_LOCATIONS = `
 insert into wn_port_suspension_location(id, suspension_id, location_id, deleted)
 values ($1, $2, $3, false)
 on conflict(id)
-do nothing`;
+do update set
+    suspension_id = $2,
+    location_id = $3,
+    deleted = false
+`;
 
 const PS_UPDATE_SUSPENSIONS = new pgPromise.PreparedStatement({
   name: "update-suspensions",
-- 
2.43.0


From 2235f9f8c81152f810b77b336d7c232688451506 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:47:29 +0000
Subject: [PATCH 24/38] fix: vessels without imo or mmsi are not taken for one
 another in assistances and activities

---
 .../winter-navigation/src/service/vessel-service.ts   | 11 +++++------
 1 file changed, 5 insertions(+), 6 deletions(-)

diff --git a/marine/winter-navigation/src/service/vessel-service.ts b/marine/winter-navigation/src/service/vessel-service.ts
index 31a3b10..0f857e1 100644
--- a/marine/winter-navigation/src/service/vessel-service.ts
+++ b/marine/winter-navigation/src/service/vessel-service.ts
@@ -80,9 +80,8 @@ function convertVessel(v: VesselDTO, lastUpdated?: Date): Vessel {
 }
 
 function convertActivity(a: ActivityDTO, v: VesselDTO): Activity {
-  const isIcebreaker =
-    v.mmsi === a.icebreaker_mmsi || v.imo === a.icebreaker_imo;
-  const isVessel = v.mmsi === a.vessel_mmsi || v.imo === a.vessel_imo;
+  // mmsi and imo may both be missing, only id identifies the vessel
+  const isVessel = v.id === a.vessel_id;
   const baseActivity = {
     type: a.type,
     reason: a.reason ?? null,
@@ -104,7 +103,7 @@ function convertActivity(a: ActivityDTO, v: VesselDTO): Activity {
     };
   }
 
-  if (isIcebreaker && a.vessel_id) {
+  if (!isVessel && a.vessel_id) {
     return {
       ...baseActivity,
       assistedVessel: {
@@ -120,8 +119,8 @@ function convertActivity(a: ActivityDTO, v: VesselDTO): Activity {
 }
 
 function convertQueue(q: QueueDTO, v: VesselDTO): PlannedAssistance {
-  const isIcebreaker =
-    v.mmsi === q.icebreaker_mmsi || v.imo === q.icebreaker_imo;
+  // mmsi and imo may both be missing, only id identifies the vessel
+  const isIcebreaker = v.id !== q.vessel_id;
 
   const baseAssistance = {
     queuePosition: q.order_num,
-- 
2.43.0


From c1bc31046476edce673bf81b9ba96368c13a7f3a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:47:29 +0000
Subject: [PATCH 25/38] fix: a withdrawn vessel is no longer served by its imo
 or mmsi

---
 marine/winter-navigation/src/db/vessels.ts | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/marine/winter-navigation/src/db/vessels.ts b/marine/winter-navigation/src/db/vessels.ts
index d24d8c2..f889994 100644
--- a/marine/winter-navigation/src/db/vessels.ts
+++ b/marine/winter-navigation/src/db/vessels.ts
@@ -21,7 +21,7 @@ do update set
 
 const SQL_GET_VESSEL = `
 WITH target_vessel AS (
-  SELECT id FROM wn_vessel WHERE imo = $3 OR mmsi = $3
+  SELECT id FROM wn_vessel WHERE (imo = $3 OR mmsi = $3) AND deleted = false
 ),
 all_queue_relations AS (
     -- Get queues where the target vessel is the one being assisted
-- 
2.43.0


From 869eebe11cb033b21fe217c2add882ca4a551b84 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:47:29 +0000
Subject: [PATCH 26/38] fix: a failed fetch of winter navigation data no longer
 counts as a check of the data

---
 marine/winter-navigation/src/api/ibnet-api.ts        | 4 ++--
 marine/winter-navigation/src/service/data-updater.ts | 6 ++++++
 2 files changed, 8 insertions(+), 2 deletions(-)

diff --git a/marine/winter-navigation/src/api/ibnet-api.ts b/marine/winter-navigation/src/api/ibnet-api.ts
index bb79537..493d4eb 100644
--- a/marine/winter-navigation/src/api/ibnet-api.ts
+++ b/marine/winter-navigation/src/api/ibnet-api.ts
@@ -55,7 +55,7 @@ export class IbnetApi {
       });
   }
 
-  async fetch<T>(path: ApiPath, from: number, to: number): Promise<T[]> {
+  async fetch<T>(path: ApiPath, from: number, to: number): Promise<T[] | undefined> {
     const start = Date.now();
     const url = `${this._baseUrl}${path}?from=${from}&to=${to}`;
 
@@ -64,7 +64,7 @@ export class IbnetApi {
     } catch (error) {
       logException(logger, error);
 
-      return [];
+      return undefined;
     } finally {
       logger.info({
         method: "IbnetApi.fetch",
diff --git a/marine/winter-navigation/src/service/data-updater.ts b/marine/winter-navigation/src/service/data-updater.ts
index 2ca1f1e..c2c3b10 100644
--- a/marine/winter-navigation/src/service/data-updater.ts
+++ b/marine/winter-navigation/src/service/data-updater.ts
@@ -102,6 +102,12 @@ export class DataUpdater {
     }
 
     const objects = await this._api.fetch<T>(apiPath, from, to);
+
+    // nothing was checked when fetching fails, it is tried again on the next run
+    if (!objects) {
+      return;
+    }
+
     const deleted: Deleted[] = [];
     const updated: T[] = [];
 
-- 
2.43.0


From f3b8ead3904445565677f88a4106edcc1f406379 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:29:12 +0000
Subject: [PATCH 27/38] fix: datex2 of variable signs is published as sent even
 if it contains dollar signs

---
 road/variable-signs/src/service/variable-signs.ts | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/road/variable-signs/src/service/variable-signs.ts b/road/variable-signs/src/service/variable-signs.ts
index 4b6c586..f0c0610 100644
--- a/road/variable-signs/src/service/variable-signs.ts
+++ b/road/variable-signs/src/service/variable-signs.ts
@@ -188,7 +188,7 @@ function createVmsTablePublication35(
   return DATEX2_VMS_TABLE_PUBLICATION_35_TEMPLATE.replace(
     "PUBLICATION_TIME",
     publicationTime.toISOString(),
-  ).replace("CONTROLLERS", controllers);
+  ).replace("CONTROLLERS", () => controllers);
 }
 
 function createVmsPublication35(
@@ -202,7 +202,7 @@ function createVmsPublication35(
   return DATEX2_VMS_PUBLICATION_35_TEMPLATE.replace(
     "PUBLICATION_TIME",
     publicationTime.toISOString(),
-  ).replace("STATUSES", statuses);
+  ).replace("STATUSES", () => statuses);
 }
 
 function createSituationPublication35(
@@ -216,7 +216,7 @@ function createSituationPublication35(
   return DATEX2_SITUATION_PUBLICATION_35_TEMPLATE.replace(
     "PUBLICATION_TIME",
     publicationTime.toISOString(),
-  ).replace("SITUATIONS", situations);
+  ).replace("SITUATIONS", () => situations);
 }
 
 function createD2LogicalModel223(
@@ -228,7 +228,7 @@ function createD2LogicalModel223(
   return DATEX2_223_TEMPLATE.replace(
     "PUBLICATION_TIME",
     publicationTime.toISOString(),
-  ).replace("SITUATIONS", situations);
+  ).replace("SITUATIONS", () => situations);
 }
 
 // Extra namespace declarations added in Datex II 3.7
@@ -308,7 +308,7 @@ function createVmsTablePublication37(
   return DATEX2_VMS_TABLE_PUBLICATION_37_TEMPLATE.replace(
     "PUBLICATION_TIME",
     publicationTime.toISOString(),
-  ).replace("CONTROLLERS", controllers);
+  ).replace("CONTROLLERS", () => controllers);
 }
 
 function createVmsPublication37(
@@ -322,7 +322,7 @@ function createVmsPublication37(
   return DATEX2_VMS_PUBLICATION_37_TEMPLATE.replace(
     "PUBLICATION_TIME",
     publicationTime.toISOString(),
-  ).replace("STATUSES", statuses);
+  ).replace("STATUSES", () => statuses);
 }
 
 function createSituationPublication37(
@@ -336,5 +336,5 @@ function createSituationPublication37(
   return DATEX2_SITUATION_PUBLICATION_37_TEMPLATE.replace(
     "PUBLICATION_TIME",
     publicationTime.toISOString(),
-  ).replace("SITUATIONS", situations);
+  ).replace("SITUATIONS", () => situations);
 }
-- 
2.43.0


From e65391b4d3ef28e2a09a0d8e34d1658783694ba3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:29:12 +0000
Subject: [PATCH 28/38] fix: a situation that is cut off no longer keeps the
 handling of variable signs running forever

---
 road/data-upload/src/service/vs-datex2-223-parser.ts     | 5 +++++
 road/variable-signs/src/service/datex2-update-service.ts | 5 +++++
 2 files changed, 10 insertions(+)

diff --git a/road/data-upload/src/service/vs-datex2-223-parser.ts b/road/data-upload/src/service/vs-datex2-223-parser.ts
index ce21b37..eb52148 100644
--- a/road/data-upload/src/service/vs-datex2-223-parser.ts
+++ b/road/data-upload/src/service/vs-datex2-223-parser.ts
@@ -24,6 +24,11 @@ export function parseSituations223(datex2: string): DatexFile[] {
         DATEX2_SITUATION_TAG_END,
         sitIndex + DATEX2_SITUATION_TAG_START.length,
       );
+
+      if (sitEndIndex === -1) {
+        throw new Error(`Missing ${DATEX2_SITUATION_TAG_END}`);
+      }
+
       index = sitEndIndex;
 
       situations.push(
diff --git a/road/variable-signs/src/service/datex2-update-service.ts b/road/variable-signs/src/service/datex2-update-service.ts
index 639ec73..5e94233 100644
--- a/road/variable-signs/src/service/datex2-update-service.ts
+++ b/road/variable-signs/src/service/datex2-update-service.ts
@@ -65,6 +65,11 @@ export function parseSituations(datex2: string): Situation[] {
         DATEX2_SITUATION_TAG_END,
         sitIndex + DATEX2_SITUATION_TAG_START.length,
       );
+
+      if (sitEndIndex === -1) {
+        throw new Error(`Missing ${DATEX2_SITUATION_TAG_END}`);
+      }
+
       index = sitEndIndex;
 
       situations.push(
-- 
2.43.0


From 1c44a98cefab0a614e579fb7da5340b3afc92d8c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:29:12 +0000
Subject: [PATCH 29/38] fix: an upload of datex2 that could not be saved is no
 longer answered with OK

---
 road/data-upload/src/lambda/upload-datex2/upload-datex2.ts | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/road/data-upload/src/lambda/upload-datex2/upload-datex2.ts b/road/data-upload/src/lambda/upload-datex2/upload-datex2.ts
index 42b17ff..0f86e39 100644
--- a/road/data-upload/src/lambda/upload-datex2/upload-datex2.ts
+++ b/road/data-upload/src/lambda/upload-datex2/upload-datex2.ts
@@ -14,6 +14,7 @@ export const ERRORS = {
   MISSING_BODY: "Missing body",
   INVALID_PAYLOAD: "Invalid payload",
   EMPTY_PAYLOAD: "Empty payload",
+  INTERNAL_ERROR: "Internal error",
 } as const;
 
 export const StatusCodes = {
@@ -63,6 +64,11 @@ export const handler = async (
         method,
         error,
       });
+
+      return {
+        ...StatusCodes.INTERNAL_ERROR,
+        body: ERRORS.INTERNAL_ERROR,
+      };
     } finally {
       logger.info({
         method,
-- 
2.43.0


From eaa42a1dbe2dc4b26bf75032df1de4b4e50c8d6b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:21:23 +0000
Subject: [PATCH 30/38] fix: a static integration answers GET requests whatever
 media type it answers with

---
 lib/digitraffic-common/src/aws/infra/api/static-integration.ts | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/lib/digitraffic-common/src/aws/infra/api/static-integration.ts b/lib/digitraffic-common/src/aws/infra/api/static-integration.ts
index 5ec025b..a81c586 100644
--- a/lib/digitraffic-common/src/aws/infra/api/static-integration.ts
+++ b/lib/digitraffic-common/src/aws/infra/api/static-integration.ts
@@ -44,7 +44,9 @@ export class DigitrafficStaticIntegration extends MockIntegration {
 
     super({
       passthroughBehavior: PassthroughBehavior.WHEN_NO_TEMPLATES,
+      // a request without Content-Type is taken as application/json, whatever the media type of the response is
       requestTemplates: {
+        [MediaType.APPLICATION_JSON]: INTEGRATION_RESPONSE_200,
         [mediaType]: INTEGRATION_RESPONSE_200,
       },
       integrationResponses: [integrationResponse],
-- 
2.43.0


From 31de1b14cc1f5bdb2879a31667d8476e37a925c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:35:53 +0000
Subject: [PATCH 31/38] fix: a failed rami query no longer keeps its database
 connection

---
 rail/rami/src/util/database.ts | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/rail/rami/src/util/database.ts b/rail/rami/src/util/database.ts
index 6ab3d08..03cd437 100644
--- a/rail/rami/src/util/database.ts
+++ b/rail/rami/src/util/database.ts
@@ -39,8 +39,8 @@ export async function inTransaction(
       customEvent: "transaction_started",
     });
 
-    await conn.beginTransaction();
     try {
+      await conn.beginTransaction();
       await fn(conn);
       await conn.commit();
 
@@ -80,9 +80,11 @@ export async function inDatabase<T>(
   fn: (conn: Connection) => Promise<T>,
 ): Promise<T> {
   const conn = await pool.getConnection();
-  const result = await fn(conn);
-  conn.release();
-  return result;
+  try {
+    return await fn(conn);
+  } finally {
+    conn.release();
+  }
 }
 
 export async function getOpts(): Promise<MysqlOpts> {
-- 
2.43.0


From dbce2dd42495eab8cdec92df1f25dff4bb834777 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:35:53 +0000
Subject: [PATCH 32/38] fix: an undelivered rami message is stored as JSON
 whatever its errors say

---
 rail/rami/src/lambda/process-dlq/process-dlq.ts | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/rail/rami/src/lambda/process-dlq/process-dlq.ts b/rail/rami/src/lambda/process-dlq/process-dlq.ts
index 8caafd5..e5cfe84 100644
--- a/rail/rami/src/lambda/process-dlq/process-dlq.ts
+++ b/rail/rami/src/lambda/process-dlq/process-dlq.ts
@@ -25,9 +25,10 @@ export const handler = async (event: DlqEvent): Promise<void> => {
 
     try {
       const dlqMessage = JSON.parse(e.body) as DlqMessage;
-      const body = `[{"errors":"${dlqMessage.errors}"}, ${JSON.stringify(
+      const body = JSON.stringify([
+        { errors: dlqMessage.errors },
         dlqMessage.message,
-      )}]`;
+      ]);
       const folder = `${dlqMessage.messageType}/${new Date()
         .toISOString()
         .substring(0, 10)}`;
-- 
2.43.0


From 3af9f6c629f7d0effda938a78642ad4f8e4397a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:35:53 +0000
Subject: [PATCH 33/38] fix: a rami message without stations is stored and
 shown

---
 rail/rami/src/dao/message.ts | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/rail/rami/src/dao/message.ts b/rail/rami/src/dao/message.ts
index 1f02531..088b38f 100644
--- a/rail/rami/src/dao/message.ts
+++ b/rail/rami/src/dao/message.ts
@@ -90,7 +90,7 @@ FROM
             rmx.id
     ) latest ON rm.id = latest.id
     AND rm.version = latest.version
-    JOIN rami_message_station rms ON rm.id = rms.rami_message_id
+    LEFT JOIN rami_message_station rms ON rm.id = rms.rami_message_id
     AND rm.version = rms.rami_message_version
     JOIN rami_message_audio rma ON rm.id = rma.rami_message_id
     AND rm.version = rma.rami_message_version
@@ -189,7 +189,7 @@ FROM
             rmx.id
     ) latest ON rm.id = latest.id
     AND rm.version = latest.version
-    JOIN rami_message_station rms ON rm.id = rms.rami_message_id
+    LEFT JOIN rami_message_station rms ON rm.id = rms.rami_message_id
     AND rm.version = rms.rami_message_version
     JOIN rami_message_audio rma ON rm.id = rma.rami_message_id
     AND rm.version = rma.rami_message_version
@@ -308,10 +308,10 @@ export async function insertMessage(message: DtRosmMessage): Promise<void> {
       INSERT_RAMI_MESSAGE,
       createDtRamiMessageInsertValues(message),
     );
-    await conn.query(
-      INSERT_RAMI_MESSAGE_STATIONS,
-      createDtRamiMessageStationInsertValues(message),
-    );
+    const stations = createDtRamiMessageStationInsertValues(message);
+    if (stations) {
+      await conn.query(INSERT_RAMI_MESSAGE_STATIONS, stations);
+    }
     await conn.query(
       INSERT_RAMI_MESSAGE_AUDIO,
       createDtRamiMessageAudioInsertValues(message),
@@ -351,7 +351,7 @@ function createDtRamiMessageInsertValues(
 function createDtRamiMessageStationInsertValues(
   message: DtRosmMessage,
 ): (string | number)[][][] | null {
-  return message.stations
+  return message.stations?.length
     ? [
         message.stations.map((station) => [
           message.id,
-- 
2.43.0


From 9d248a8da77ac9088b057c787f982576e34bb546 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:35:53 +0000
Subject: [PATCH 34/38] fix: a rami message with a recorded announcement is not
 dropped

---
 rail/rami/src/service/process-rosm-message.ts | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/rail/rami/src/service/process-rosm-message.ts b/rail/rami/src/service/process-rosm-message.ts
index f31ebbd..9a82ed5 100644
--- a/rail/rami/src/service/process-rosm-message.ts
+++ b/rail/rami/src/service/process-rosm-message.ts
@@ -127,7 +127,7 @@ function getAudioContent(
 function parseMonitoredJourneyScheduledMessageAudio(
   audioMessage: RamiMonitoredJourneyScheduledMessageAudio,
 ): DtAudioContent {
-  const audioTexts = audioMessage.audioTexts as TextContent[];
+  const audioTexts = audioMessage.audioTexts as TextContent[] | null | undefined;
   return {
     textFi: getTextInLanguage(audioTexts, LanguageCodes.FI),
     textSv: getTextInLanguage(audioTexts, LanguageCodes.SV),
@@ -144,7 +144,7 @@ function parseMonitoredJourneyScheduledMessageAudio(
 function parseScheduledMessageAudio(
   audioMessage: RamiScheduledMessageAudio,
 ): DtAudioContent {
-  const audioTexts = audioMessage.audioText as TextContent[];
+  const audioTexts = audioMessage.audioText as TextContent[] | null | undefined;
   return {
     textFi: getTextInLanguage(audioTexts, LanguageCodes.FI),
     textSv: getTextInLanguage(audioTexts, LanguageCodes.SV),
@@ -225,10 +225,10 @@ function parseScheduledMessageVideo(
 }
 
 function getTextInLanguage(
-  texts: TextContent[],
+  texts: TextContent[] | null | undefined,
   languageCode: LanguageCode,
 ): string | undefined {
-  const textContent = texts.find((text) => text.language === languageCode);
+  const textContent = texts?.find((text) => text.language === languageCode);
   return (
     textContent?.text?.trim() ??
     textContent?.videoText?.trim() ??
-- 
2.43.0


From 57dca58d591bdc01f67ed825ccfa47ef92c952c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:35:53 +0000
Subject: [PATCH 35/38] fix: the delivery time of a rami message is shown

---
 rail/rami/src/dao/message.ts         | 8 +++++---
 rail/rami/src/service/get-message.ts | 2 ++
 2 files changed, 7 insertions(+), 3 deletions(-)

diff --git a/rail/rami/src/dao/message.ts b/rail/rami/src/dao/message.ts
index 088b38f..ea78f31 100644
--- a/rail/rami/src/dao/message.ts
+++ b/rail/rami/src/dao/message.ts
@@ -76,7 +76,7 @@ SELECT
     rm.train_number,
     DATE_FORMAT(rm.train_departure_date, '%Y-%m-%d') as train_departure_date,
     GROUP_CONCAT(rms.station_short_code) as stations,
-    JSON_OBJECT('text_fi', rma.text_fi, 'text_sv', rma.text_sv, 'text_en', rma.text_en, 'delivery_rules', JSON_OBJECT('start_date', DATE_FORMAT(rma.start_date_time, '%Y-%m-%dT%TZ'), 'end_date', DATE_FORMAT(rma.end_date_time, '%Y-%m-%dT%TZ'), 'start_time', DATE_FORMAT(rma.start_time, '%k:%i'), 'end_time', DATE_FORMAT(rma.end_time, '%k:%i'), 'delivery_type', rma.delivery_type, 'days', NULLIF(REVERSE(EXPORT_SET(rma.days_of_week, '1', '0', '', 7)), '0000000'), 'event_type', rma.event_type, 'delivery_at', rma.delivery_at, 'repetitions', rma.repetitions, 'repeat_every', rma.repeat_every)) as audio,
+    JSON_OBJECT('text_fi', rma.text_fi, 'text_sv', rma.text_sv, 'text_en', rma.text_en, 'delivery_rules', JSON_OBJECT('start_date', DATE_FORMAT(rma.start_date_time, '%Y-%m-%dT%TZ'), 'end_date', DATE_FORMAT(rma.end_date_time, '%Y-%m-%dT%TZ'), 'start_time', DATE_FORMAT(rma.start_time, '%k:%i'), 'end_time', DATE_FORMAT(rma.end_time, '%k:%i'), 'delivery_type', rma.delivery_type, 'days', NULLIF(REVERSE(EXPORT_SET(rma.days_of_week, '1', '0', '', 7)), '0000000'), 'event_type', rma.event_type, 'delivery_at', DATE_FORMAT(rma.delivery_at, '%Y-%m-%dT%TZ'), 'repetitions', rma.repetitions, 'repeat_every', rma.repeat_every)) as audio,
     JSON_OBJECT('text_fi', rmv.text_fi, 'text_sv', rmv.text_sv, 'text_en', rmv.text_en, 'delivery_rules', JSON_OBJECT('start_date', DATE_FORMAT(rmv.start_date_time, '%Y-%m-%dT%TZ'), 'end_date', DATE_FORMAT(rmv.end_date_time, '%Y-%m-%dT%TZ'), 'start_time', DATE_FORMAT(rmv.start_time, '%k:%i'), 'end_time', DATE_FORMAT(rmv.end_time, '%k:%i'), 'delivery_type', rmv.delivery_type, 'days', NULLIF(REVERSE(EXPORT_SET(rmv.days_of_week, '1', '0', '', 7)), '0000000'))) as video
 FROM
     rami_message rm
@@ -175,7 +175,7 @@ SELECT
     rm.train_number,
     DATE_FORMAT(rm.train_departure_date, '%Y-%m-%d') as train_departure_date,
     GROUP_CONCAT(rms.station_short_code) as stations,
-    JSON_OBJECT('text_fi', rma.text_fi, 'text_sv', rma.text_sv, 'text_en', rma.text_en, 'delivery_rules', JSON_OBJECT('start_date', DATE_FORMAT(rma.start_date_time, '%Y-%m-%dT%TZ'), 'end_date', DATE_FORMAT(rma.end_date_time, '%Y-%m-%dT%TZ'), 'start_time', DATE_FORMAT(rma.start_time, '%k:%i'), 'end_time', DATE_FORMAT(rma.end_time, '%k:%i'), 'delivery_type', rma.delivery_type, 'days', NULLIF(REVERSE(EXPORT_SET(rma.days_of_week, '1', '0', '', 7)), '0000000'), 'event_type', rma.event_type, 'delivery_at', rma.delivery_at, 'repetitions', rma.repetitions, 'repeat_every', rma.repeat_every)) as audio,
+    JSON_OBJECT('text_fi', rma.text_fi, 'text_sv', rma.text_sv, 'text_en', rma.text_en, 'delivery_rules', JSON_OBJECT('start_date', DATE_FORMAT(rma.start_date_time, '%Y-%m-%dT%TZ'), 'end_date', DATE_FORMAT(rma.end_date_time, '%Y-%m-%dT%TZ'), 'start_time', DATE_FORMAT(rma.start_time, '%k:%i'), 'end_time', DATE_FORMAT(rma.end_time, '%k:%i'), 'delivery_type', rma.delivery_type, 'days', NULLIF(REVERSE(EXPORT_SET(rma.days_of_week, '1', '0', '', 7)), '0000000'), 'event_type', rma.event_type, 'delivery_at', DATE_FORMAT(rma.delivery_at, '%Y-%m-%dT%TZ'), 'repetitions', rma.repetitions, 'repeat_every', rma.repeat_every)) as audio,
     JSON_OBJECT('text_fi', rmv.text_fi, 'text_sv', rmv.text_sv, 'text_en', rmv.text_en, 'delivery_rules', JSON_OBJECT('start_date', DATE_FORMAT(rmv.start_date_time, '%Y-%m-%dT%TZ'), 'end_date', DATE_FORMAT(rmv.end_date_time, '%Y-%m-%dT%TZ'), 'start_time', DATE_FORMAT(rmv.start_time, '%k:%i'), 'end_time', DATE_FORMAT(rmv.end_time, '%k:%i'), 'delivery_type', rmv.delivery_type, 'days', NULLIF(REVERSE(EXPORT_SET(rmv.days_of_week, '1', '0', '', 7)), '0000000'))) as video
 FROM
     rami_message rm
@@ -408,7 +408,9 @@ function createDtRamiMessageAudioInsertValues(
       ? mapDaysToBits(message.audio.daysOfWeek)
       : "0000000",
     eventType: message.audio?.eventType ?? null,
-    deliveryAt: message.audio?.deliveryAt ?? null,
+    deliveryAt: message.audio?.deliveryAt
+      ? dateToUTCString(message.audio.deliveryAt, MYSQL_DATETIME_FORMAT)
+      : null,
     repetitions: message.audio?.repetitions ?? null,
     repeatEvery: message.audio?.repeatEvery ?? null,
   };
diff --git a/rail/rami/src/service/get-message.ts b/rail/rami/src/service/get-message.ts
index d5c5ccd..20b429e 100644
--- a/rail/rami/src/service/get-message.ts
+++ b/rail/rami/src/service/get-message.ts
@@ -124,6 +124,8 @@ function dbRamiMessageToPassengerInformationMessage(
               : undefined,
             deliveryType:
               message.audio?.delivery_rules?.delivery_type ?? undefined,
+            deliveryAt:
+              message.audio?.delivery_rules?.delivery_at ?? undefined,
             repetitions:
               message.audio?.delivery_rules?.repetitions ?? undefined,
             repeatEvery:
-- 
2.43.0


From 2702fd26b9b41df722d09a056089faa85693e83e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:13:31 +0000
Subject: [PATCH 36/38] fix: a municipal machine that changes to other works,
 as many as before, begins a new tracking

---
 .../src/service/paikannin-utils.ts                              | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/road/maintenance-tracking-municipality/src/service/paikannin-utils.ts b/road/maintenance-tracking-municipality/src/service/paikannin-utils.ts
index 06f2d74..3226fcb 100644
--- a/road/maintenance-tracking-municipality/src/service/paikannin-utils.ts
+++ b/road/maintenance-tracking-municipality/src/service/paikannin-utils.ts
@@ -181,7 +181,7 @@ function isSameTasks(
   if (ioChannels1.length !== ioChannels2.length) {
     return false;
   }
-  const ioChannel1Strings = ioChannelsToStrings(ioChannels2);
+  const ioChannel1Strings = ioChannelsToStrings(ioChannels1);
   const ioChannel2Strings = ioChannelsToStrings(ioChannels2);
   return CommonUtils.bothArraysHasSameValues(
     ioChannel1Strings,
-- 
2.43.0


From 74a0e6fc686fe2f860ed73f8cff6350438f5596d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:13:31 +0000
Subject: [PATCH 37/38] fix: a tracking that ends where the next one starts
 gets the heading of that place as its direction

---
 .../src/service/paikannin-utils.ts                              | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/road/maintenance-tracking-municipality/src/service/paikannin-utils.ts b/road/maintenance-tracking-municipality/src/service/paikannin-utils.ts
index 3226fcb..bf52d5d 100644
--- a/road/maintenance-tracking-municipality/src/service/paikannin-utils.ts
+++ b/road/maintenance-tracking-municipality/src/service/paikannin-utils.ts
@@ -498,6 +498,6 @@ export function createDbMaintenanceTracking(
     message_original_id: "none",
     finished: true,
     // This is additional metadata, not saved to db but used to update previous tracking
-    start_direction: lastEvent.heading,
+    start_direction: firstEvent.heading,
   };
 }
-- 
2.43.0


From 9365804c8b3d8280464e23f559c45dc5c5bf601d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 09:19:17 +0000
Subject: [PATCH 38/38] fix: a question for visits that fails at the secret or
 database is answered 500, not rejected

---
 marine/port-call/src/lambda/get-visits/get-visits.ts | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/marine/port-call/src/lambda/get-visits/get-visits.ts b/marine/port-call/src/lambda/get-visits/get-visits.ts
index b9361a6..a49e38f 100644
--- a/marine/port-call/src/lambda/get-visits/get-visits.ts
+++ b/marine/port-call/src/lambda/get-visits/get-visits.ts
@@ -25,7 +25,7 @@ export const handler = async (
       portOfCall: parsed.portOfCall?.toUpperCase(),
     };
 
-    return proxyHolder
+    return await proxyHolder
       .setCredentials()
       .then(() => getAllVisits(getVisitsEvent))
       .then(([visits, lastUpdated]) => {
-- 
2.43.0

