const L = "lib/digitraffic-common/src/";
const PA = "marine/portactivity/src/";
const WN = "marine/winter-navigation/src/";
const CF = "other/cloudfront/src/";
const REPLAY = "TLA+ specification model-checked with TLC; every transition of its state graph replayed into the real code";
const BOTH = "TLA+ specification model-checked with TLC; its transitions replayed into the real code and random executions of the code validated against it";
const note = (extra) => `TLC enumerates the specification exhaustively within the constants of the check and verifies its invariants; the conformance step compares what the real code does after every step with the specification. ${extra}`;
export const notApplicable = [];
export const properties = [
  {
    id: "C01", title: "Retried operations are bounded, sequential, selective and always end",
    statement: "An operation run under the retry helper is attempted one at a time, at most (allowed retries + 1) times and at least once (zero or negative retries mean exactly one attempt; a non-finite count or one above 100 is rejected before any attempt), and it stops at the first success, whose value is returned, or at the first error that the retry rule rejects. The wait before the n-th retry is what the delay rule gives for n; an attempt that takes 30 minutes is given up on and counts as failed, and whatever it does later has no effect; errors are logged at the severities that were asked for (all as errors; only the last as an error and the others as warnings; none). Calls running at the same time do not influence each other; the HTTP-request variant makes at most 5 retries, waits 2^n seconds before the n-th one and retries only HTTP errors with status 403 or 429.",
    quantifier: { over: ["schedules", "fault_sequences", "inputs"], text: "every sequence of attempt outcomes and hangs, every retry count, delay rule, retry rule and logging mode, every interleaving of several callers and of timers" },
    why_tests_cant: "The tests run a handful of fixed outcome sequences with real time; they never interleave two callers, let an attempt hang for 30 minutes or settle late, and check neither waits nor boundary counts.",
    anchors: { files: [L + "utils/retry.ts"], state: [{ name: "remaining retries, retry number", meaning: "how many attempts are left and how long the next wait is", where: "retryRecursive" }], mechanism: [{ name: "retry", where: L + "utils/retry.ts" }, { name: "retryRequest", where: L + "utils/retry.ts" }], observe_at: ["number and time of attempts", "settled promise", "log lines"], hook_needed: null },
    technique: BOTH, level_note: note("Virtual clock; up to 3 callers, retry counts up to 100 in recorded executions."),
  },
  {
    id: "C02", title: "Every API response built is self-consistent and within the payload limit",
    statement: "A response built for the API gateway, decoded the way its own content-encoding and base64 flags say, is exactly the content last set, with the last status, content type, file name, location and timestamp that were set, whatever the order of the settings. Its ETag is a strong entity tag determined by the content alone (the same for the same content, however it is encoded, and different for different contents); gzip is declared only when it was asked for, made the body smaller and was really applied. Content missing where the status needs it is an error, a response that would exceed 6 MiB is replaced by a plain 400 answer, and the ready-made error and redirect answers have the status, type and body they are named for; the same goes for the responses of non-proxy lambdas, whose bodies are always base64.",
    quantifier: { over: ["histories", "inputs"], text: "every order and repetition of the builder's settings, and contents that are empty, incompressible, compressible, non-ASCII, objects, pre-encoded, and just below, just above and far above the size limit" },
    why_tests_cant: "The tests set each field once in one order; they do not combine compression with pre-encoded or empty bodies, reorder settings or look at the ETag of encoded content.",
    anchors: { files: [L + "aws/types/lambda-proxy-types.ts", L + "aws/types/lambda-response.ts", L + "utils/base64.ts"], mechanism: [{ name: "LambdaProxyResponseBuilder.build / encodeBody", where: L + "aws/types/lambda-proxy-types.ts" }, { name: "LambdaResponseBuilder.build", where: L + "aws/types/lambda-response.ts" }], observe_at: ["the built response"], hook_needed: null },
    technique: REPLAY, level_note: note("Contents are representatives of their classes."),
  },
  {
    id: "C03", title: "Secrets are never stale, never half-applied, and survive store failures",
    statement: "A secret read through a caching holder is a version that the secret store held at most five minutes ago: within five minutes of a read it is served without asking the store, after that the store is asked again. A failing, empty or garbled answer makes that read fail and leaves what is cached and the environment untouched, and overlapping reads each get a complete version; a prefix selects exactly the keys under it, without empty values, and a missing expected key fails the read. Setting database credentials sets user, password, read-write and read-only host together from one version, or nothing; a value present in the environment is used without asking the store.",
    quantifier: { over: ["schedules", "fault_sequences", "histories"], text: "every interleaving of reads, answers of the store, rotations, failures and the passing of time around the time to live" },
    why_tests_cant: "The tests read a constant secret a couple of times; they have no rotation, no failing refresh, no overlapping reads and no time boundary.",
    anchors: { files: [L + "aws/runtime/secrets/secret-holder.ts", L + "aws/runtime/secrets/secret.ts", L + "aws/runtime/secrets/proxy-holder.ts", L + "aws/runtime/secrets/rds-holder.ts", L + "aws/runtime/secrets/dbsecret.ts"], state: [{ name: "cached secret and its expiration time", meaning: "last version read and until when it may be served", where: "SecretHolder" }], mechanism: [{ name: "SecretHolder.get", where: L + "aws/runtime/secrets/secret-holder.ts" }, { name: "setCredentials", where: L + "aws/runtime/secrets/proxy-holder.ts" }], observe_at: ["values returned", "requests to the secret store", "process environment"], hook_needed: null },
    technique: BOTH, level_note: note("The AWS client is replaced at its interface; virtual clock."),
  },
  {
    id: "C04", title: "Database sessions: right endpoint, clean start, all-or-nothing, always closed",
    statement: "Every use of the database opens its own connection with the configured credentials, read-only use only to the read-only endpoint and other use only to the read-write one, discards leftover session state before any statement of the work, and has closed the connection by the time it settles, whether it succeeded or failed at any point. Work in a transaction takes effect completely when it succeeds and not at all otherwise; the work's value or error reaches the caller unchanged and an error is logged once. Nulls in results become undefined exactly when asked for, and 64-bit integers, doubles and numerics arrive as numbers; a missing endpoint is reported before anything is opened.",
    quantifier: { over: ["fault_sequences", "schedules", "crash_points"], text: "every point at which the server refuses, reports an error or drops the connection, or the work throws, for every kind of session, and overlapping sessions" },
    why_tests_cant: "There is no database in the test environment; nothing tests a failing statement, a dropped connection or overlapping sessions.",
    anchors: { files: [L + "database/database.ts"], mechanism: [{ name: "doInDatabase / inTransaction", where: L + "database/database.ts" }, { name: "convertNullColumnsToUndefined", where: L + "database/database.ts" }], observe_at: ["statements and connections at the server", "settled promise", "log lines"], hook_needed: null },
    technique: REPLAY, level_note: note("The server speaks the real wire protocol on the loopback interface; pg-promise and pg are the real ones."),
  },
  {
    id: "C05", title: "The web access control list limits, blocks and counts exactly whom it says",
    statement: "An access control list put together with the builder, in whatever order its steps are taken, evaluates its counting rules before its blocking rules, each group in the order of the steps, with priorities from 0 without gaps, one rule per name (a repeated name or an empty list is refused) and nothing for a step without a limit. Deciding requests, every request counts as that of an identified user or of an anonymous one (no digitraffic-user header or an empty one), never both or neither; each throttle lets through at most its limit per address, or per address and normalised case-insensitive path, of the users and paths it is for, and answers the rest with status 429 and a text naming that limit; counting rules never block, address lists and the query-size limit block exactly what they name, and managed rule groups apply without their excluded rules. Everything else is allowed.",
    quantifier: { over: ["configurations", "histories", "inputs"], text: "every sequence of builder steps, and every sequence of requests by identified, anonymous and empty-named users from several addresses on several spellings of a path" },
    why_tests_cant: "The tests count rules; none evaluates a rule against a request, combines counting with blocking rules, or looks at priorities.",
    anchors: { files: [L + "aws/infra/acl-builder.ts"], mechanism: [{ name: "AclBuilder.build / createThrottleStatement", where: L + "aws/infra/acl-builder.ts" }], observe_at: ["synthesised access control list, evaluated on requests"], hook_needed: null },
    technique: REPLAY, level_note: note("The firewall's evaluation of the synthesised statements is modelled in the harness."),
  },
  {
    id: "C06", title: "Functions get exactly the rights, settings and alarms asked for",
    statement: "A function made with the builder or the older helpers has exactly the settings of the last call for each (name from the short name and the given name, time limit, memory, reserved concurrency, environment merged in order over the defaults, handler, runtime, architecture, log group kept a year) and its role allows exactly: reading the stack's secret if and only if secret access is on, the statements given, and the allowed actions on everything; an allowed action of \"*\" is refused, as is database access without a database security group, secret access without a secret, and switching all alarms off in production. Without database access the database security group is not attached. Its alarms fire for exactly the configured threshold, periods and comparison: by default when an invocation lasts the time limit, a warning from 85 % of it, any error and any throttling; a disabled alarm never does; warnings go to the warning topic, and alarms to the alarm topic in production and to the warning topic elsewhere.",
    quantifier: { over: ["configurations", "histories"], text: "every sequence of builder calls on every kind of stack, and every sequence of measured durations, errors and throttles around the thresholds" },
    why_tests_cant: "The tests set one option each and look at the template; none evaluates an alarm, combines options in different orders or varies production, secrets and networks.",
    anchors: { files: [L + "aws/infra/stack/dt-function.ts", L + "aws/infra/stack/dt-function-alarms.ts", L + "aws/infra/stack/monitoredfunction.ts", L + "aws/infra/stack/lambda-configs.ts", L + "aws/infra/stack/lambda-log-group.ts", L + "aws/infra/stack/stack.ts"], mechanism: [{ name: "FunctionBuilder.build", where: L + "aws/infra/stack/dt-function.ts" }, { name: "MonitoredFunction.create / createV2, MonitoredDBFunction.create", where: L + "aws/infra/stack/monitoredfunction.ts" }], observe_at: ["synthesised resources, role policies and alarms"], hook_needed: null },
    technique: REPLAY, level_note: note("Alarms are evaluated by the harness as CloudWatch does."),
  },
  {
    id: "C07", title: "Stack checks report every breach, and the whitelist lowers only what it names",
    statement: "Every stack checks its own resources: a function without reserved concurrency or with more than 100, without time limit or memory, with a runtime that is not allowed or a name without the stack's short name in front, a bucket with public access not fully blocked, a queue without encryption, a log group without retention, a query parameter not in snake_case, a stack without solution tag, and a test stack marked production or a production stack not so marked, are errors; a path not in kebab-case is a warning. A breach whose key matches an entry of the whitelist goes one step down (error to warning, warning to nothing), every other stays as it is, whatever else the whitelist names, and resources without a breach are not reported.",
    quantifier: { over: ["configurations"], text: "every kind of breach alone and in combination, on stacks of every naming and production state, under whitelists matching none, some or all of the keys" },
    why_tests_cant: "The repository has no test of the aspect at all.",
    anchors: { files: [L + "aws/infra/stack/stack-checking-aspect.ts", L + "aws/infra/stack/stack.ts"], mechanism: [{ name: "StackCheckingAspect.visit / addAnnotation", where: L + "aws/infra/stack/stack-checking-aspect.ts" }], observe_at: ["annotations on the constructs"], hook_needed: null },
    technique: REPLAY, level_note: note("Up to 4 resources per stack."),
  },
  {
    id: "C08", title: "Queued messages are tried a bounded number of times and never lost",
    statement: "A queue made with the helpers is encrypted, carries the stack's short name and the given name, and unless told otherwise has a dead-letter queue: a message is delivered at most maxReceiveCount times (2 by default; a dead-letter queue that is given is used as given, and a FIFO queue gets none) and then moved there. Every message arriving at a dead-letter queue is stored, whole and as an object of its own, in that queue's private bucket by the queue's own function, which may do nothing but consume that queue and write to that bucket; one failed upload is logged and does not keep other messages from being stored, and anything in the dead-letter queue raises the warning alarm. Bucket names are valid and distinct for distinct queues however long their names.",
    quantifier: { over: ["configurations", "histories", "fault_sequences"], text: "every kind of queue, every sequence of sends, failing and succeeding deliveries, batches of dead letters and failing uploads, and names up to and beyond the limits" },
    why_tests_cant: "The tests look at counts of resources; none runs the function of the dead letters, follows a message through retries, or tries long names.",
    anchors: { files: [L + "aws/infra/sqs-queue.ts", L + "aws/infra/sqs-queue-internal.ts"], mechanism: [{ name: "DigitrafficSqsQueue.create / DigitrafficDLQueue.create", where: L + "aws/infra/sqs-queue.ts" }], observe_at: ["synthesised resources", "objects uploaded by the dead-letter function", "log lines"], hook_needed: null },
    technique: REPLAY, level_note: note("Delivery and redrive are simulated by the harness according to the synthesised resources."),
  },
  {
    id: "C09", title: "Requests and answers pass between client, gateway and lambda intact",
    statement: "Whatever the client sends, a lambda behind an API integration gets an event with exactly the parameters it was declared to take (path, header and context values, single query values, multi-value query parameters always as lists, all other query parameters only when all are passed, the body base64-encoded as payload when asked for), every value unchanged by quotes, apostrophes, back slashes or any other characters; nothing in the query can break the event or replace a path, header or context parameter or the body. Names starting with an underscore, and single query parameters together with passing all of them, are refused. The client gets the lambda's body unchanged with its status, file name, timestamp and ETag, the media type declared (text/plain unless the status is 200), CORS, and the deprecation headers if and only if deprecated. A request for a queue is answered with success if and only if the queue took its body, whole, and the role used may only send to that queue; static answers and the parameters of proxied requests (lists where asked for or repeated) are likewise intact.",
    quantifier: { over: ["configurations", "inputs"], text: "every combination and order of declared parameters, and requests and answers with values that need escaping or try to break out, missing, repeated and surplus parameters, and every status of the queue" },
    why_tests_cant: "The tests render the templates with harmless values and an escaping stub; they never try a value with a quote, a colliding name, or a refusing queue.",
    anchors: { files: [L + "aws/infra/api/integration.ts", L + "aws/infra/api/response.ts", L + "aws/runtime/digitraffic-integration-response.ts", L + "aws/infra/api/static-integration.ts", L + "aws/infra/sqs-integration.ts", L + "utils/lambda-proxy-event.ts"], mechanism: [{ name: "DigitrafficIntegration.createRequestTemplates", where: L + "aws/infra/api/integration.ts" }, { name: "RESPONSE_DEFAULT_LAMBDA", where: L + "aws/infra/api/response.ts" }], observe_at: ["event the lambda gets", "answer the client gets"], hook_needed: null },
    technique: REPLAY, level_note: note("The gateway and its template engine are modelled in the harness."),
  },
  {
    id: "C10", title: "REST APIs let in exactly who they should and document what they have",
    statement: "A REST API made with the helpers answers requests from everywhere, or, when addresses are listed, only from those (nobody for an empty list); a method that requires an API key answers only to a key of a usage plan of that API's stage; a path or method that does not exist answers 404 Not Found, and the browser's preflight requests are answered, for any origin and with the headers and methods of the configuration, exactly below the resources set up for that. Every usage plan made has one key of its own, with the name and the value asked for. Documentation parts describe exactly the resource and parameter they were given for, with the deprecation note added to the text, and nothing is published when documentation is off; models have the name, content type and schema given and a reference to themselves. Exporting needs a key that is given or the only one, and publishes this API's address and that key under the stack's short name or the name given.",
    quantifier: { over: ["configurations", "inputs"], text: "every order of adding resources, methods, plans and documentation, and every request by address, path, method and key" },
    why_tests_cant: "The tests count OPTIONS methods; none evaluates a policy, a key or a gateway response against a request, or exports anything.",
    anchors: { files: [L + "aws/infra/stack/rest-api.ts", L + "aws/infra/usage-plans.ts", L + "aws/infra/documentation.ts", L + "utils/api-model.ts"], mechanism: [{ name: "DigitrafficRestApi", where: L + "aws/infra/stack/rest-api.ts" }, { name: "createDefaultUsagePlan", where: L + "aws/infra/usage-plans.ts" }], observe_at: ["synthesised API, evaluated on requests", "parameters and documentation parts"], hook_needed: null },
    technique: REPLAY, level_note: note("The gateway's access rules are evaluated by the harness."),
  },
  {
    id: "C11", title: "A canary fails, and alarms, exactly when what it watches is not as expected",
    statement: "A run of a URL canary succeeds if and only if every answer has the status expected and passes every check made of it (content type, CORS, headers, body as text, JSON or GeoJSON), whatever the encoding of the body and however it arrives in pieces; each check asks the given host for the given path once, with the API key when there is one and without it when it checks that the key is needed, under a step name Synthetics accepts. A run of a database canary succeeds if and only if it has checks and every count is zero, one, or one or more as expected: all checks are run, read-only, with the credentials of the secret, even when an earlier one fails, and the result waits for them. A deployed canary runs its handler on its schedule with its environment, in the network when it must be, with a role that may read the secret and store its artifacts, and one alarm on its own success rate goes to the topic given.",
    quantifier: { over: ["inputs", "histories", "configurations", "schedules"], text: "every check against every kind of answer, sequences of checks, every plan of counts against every combination of results, steps that start at once or later, and every combination of deployment parameters" },
    why_tests_cant: "The repository has no test of the canaries' checkers or constructs at all; three of the guarantees were broken.",
    anchors: { files: [L + "aws/infra/canaries/url-checker.ts", L + "aws/infra/canaries/database-checker.ts", L + "aws/infra/canaries/canary.ts", L + "aws/infra/canaries/url-canary.ts", L + "aws/infra/canaries/database-canary.ts", L + "aws/infra/canaries/canary-alarm.ts", L + "aws/infra/canaries/canary-role.ts"], mechanism: [{ name: "UrlChecker.expect200 / expectStatus", where: L + "aws/infra/canaries/url-checker.ts" }, { name: "DatabaseCountChecker.expect", where: L + "aws/infra/canaries/database-checker.ts" }], observe_at: ["requests to the watched service", "steps and result of the run", "synthesised resources"], hook_needed: null },
    technique: REPLAY, level_note: note("AWS Synthetics is replaced by a small runtime of the harness."),
  },
  {
    id: "C12", title: "Every log call writes one complete JSON line and never disturbs the work",
    statement: "Whatever is logged, and however it may resist being written (big integers, invalid dates, circular or undefined values, line ends, equal signs), a log call throws nothing, leaves its argument untouched and writes exactly one line of JSON that names the level, the method, the function and its runtime (as configured, else from the environment, else unknown) and has every field given under its name without the custom prefix; the message starts with the method unless it contains it, and is followed once by each field it does not mention as name=value. Errors are logged with name and message and, where they have one, their stack; the exception logger gives the stack only when asked to. Handlers of the handler factory answer what the handler answers, or what the error handler makes of its error, and log the time each call took once, also when calls overlap or fail. A stop watch gives for each task the time it has been running over all its periods since it was reset, lead and process times are logged exactly when they are safe integers, and a text is cut to its limit, naming the number of characters over it, only when that makes it shorter.",
    quantifier: { over: ["inputs", "histories", "schedules"], text: "every kind of message, field, value and error in every logger configuration, every sequence of starts, stops and resets of tasks over time, every interleaving of handler calls, and texts around every limit" },
    why_tests_cant: "The tests log harmless values one at a time; none logs a value that JSON cannot hold, overlaps two handler calls, restarts a running task, or goes through the lengths around a limit.",
    anchors: { files: [L + "aws/runtime/dt-logger.ts", L + "utils/logging.ts", L + "utils/lead-time-logging.ts", L + "utils/stop-watch.ts", L + "aws/infra/api/handler-factory.ts"], state: [{ name: "task records", meaning: "periods and accumulated duration by task", where: "StopWatch.tasks" }], mechanism: [{ name: "DtLogger.log", where: L + "aws/runtime/dt-logger.ts" }, { name: "StopWatch.start / stop / getDuration", where: L + "utils/stop-watch.ts" }, { name: "HandlerFactory.createEventHandler", where: L + "aws/infra/api/handler-factory.ts" }], observe_at: ["lines written", "values returned"], hook_needed: null },
    technique: REPLAY, level_note: note("Values and errors are representatives of their kinds."),
  },
  {
    id: "C13", title: "Shared conversions and validations are exact for every value",
    statement: "The values the services share are converted and checked exactly. The WKT of a point, line, polygon (any number of rings) or multipolygon is well formed and has every coordinate as given, other geometries give POLYGON EMPTY and one logged error; GML has the coordinates with eight significant digits under the given reference system; the distance between two positions is the great-circle distance on a sphere of 6371 km, in metres and kilometres, for every pair, zeros included; positions of other than two or three coordinates are refused. GeoJSON schemas accept exactly geometries of the seven types, nested to any depth, with positions of two or three numbers, lines of at least two positions and rings of at least four, and features and collections of them, and a collection made has its features and update time. An integer is a valid IMO number if and only if its check digit fits, a valid MMSI if and only if it has nine digits, and a text is a Finnish LOCODE if and only if it is FI and three letters. Parameters parse to the number, date or text they say, empty ones count as missing or are refused with the message given; dates are formatted and parsed in UTC whatever the time zone of the process; base64, value comparisons, first and last elements, omitting keys at any depth, and environment variables do what they say and leave their arguments alone. A failing Slack notification or S3 upload is logged once and disturbs nothing.",
    quantifier: { over: ["inputs", "environments", "fault_sequences"], text: "geometries of every kind and nesting, pairs of places all over the globe, numbers and texts around every boundary, JSON trees, changes of the environment, and failing services" },
    why_tests_cant: "The tests look at single-ring polygons, a few valid numbers and non-zero coordinates; two of the guarantees were broken just outside these samples.",
    anchors: { files: [L + "utils/geometry.ts", L + "types/geojson.ts", L + "marine/id_utils.ts", L + "utils/zod-utils.ts", L + "utils/date-utils.ts", L + "utils/base64.ts", L + "utils/utils.ts", L + "utils/slack.ts", L + "aws/runtime/s3.ts"], mechanism: [{ name: "geoJsonToWKT / distanceBetweenPositionsInKm", where: L + "utils/geometry.ts" }, { name: "isValidIMO / isValidMMSI / isValidLOCODE", where: L + "marine/id_utils.ts" }], observe_at: ["values returned", "requests to Slack and S3", "log lines"], hook_needed: null },
    technique: REPLAY, level_note: note("Distances are compared with a table worked out independently; numbers and texts are representatives around the boundaries."),
  },
  {
    id: "C14", title: "Network, database, proxy and name stacks fit together and keep the data",
    statement: "The stacks of an environment hand on, under names of that environment, exactly what the others take: the network stack its VPC and its public and private A and B subnets, which lie in the first two availability zones, each with a route of its own (public ones to the internet, private ones to the NAT gateway of the same zone, or to the transit gateway when there is one, and then without NAT gateways); the database stack the identifier, writer and reader endpoints of the cluster it makes or imports (it needs exactly one of the two, and at least one parameter group for a cluster); the proxy stack its own writer and reader endpoints; and the name stack makes db, db-ro, proxy and proxy-ro in the environment's private zone lead to exactly these. A cluster made is private, encrypted unless told otherwise (with a rotated key of its own when encryption is asked for), has one writer and the readers asked for with its parameter group and work memory, its credentials from the secret, daily backups kept 35 days and minor upgrades only, is protected from deletion, and outlives its stack, as do its key and the zone. The identifier of an imported cluster is the part of its writer endpoint before the first .cluster, else the fallback, else it is refused.",
    quantifier: { over: ["configurations", "histories"], text: "every order of deploying, changing and removing the stacks with every kind of configuration, in every environment" },
    why_tests_cant: "The repository has no test of these stacks; a single template would not show that what one stack hands on is what another takes.",
    anchors: { files: [L + "aws/infra/stacks/network-stack.ts", L + "aws/infra/stacks/db-stack.ts", L + "aws/infra/stacks/db-proxy-stack.ts", L + "aws/infra/stacks/db-dns-stack.ts", L + "aws/infra/import-util.ts", L + "aws/infra/stack/parameters.ts"], state: [{ name: "exports and parameters", meaning: "values handed on between stacks", where: "CloudFormation exports and SSM parameters" }], mechanism: [{ name: "DbStack / parseClusterIdentifier", where: L + "aws/infra/stacks/db-stack.ts" }, { name: "NetworkStack.createVpc", where: L + "aws/infra/stacks/network-stack.ts" }], observe_at: ["synthesised templates, deployed one after another by the harness"], hook_needed: null },
    technique: REPLAY, level_note: note("CloudFormation is simulated by the harness."),
  },
  {
    id: "C15", title: "Schedules, alerts, bucket grants, log streams and plans do what they say",
    statement: "A schedule runs exactly the function given, with the right to be run by that rule only, at exactly the rate or cron expression given. The security rule tells its topic about a finding if and only if it is an imported Security Hub finding that is new, failed, and of high or critical severity. A bucket grant lets exactly the given distribution or user do the given actions (reading objects by default) on the given resources (all objects, not the bucket, by default), a denial wins over every grant, and nobody else gets in, whatever other grants there are. Logs of exactly the functions given are sent on, unfiltered and once the function is there, if and only if the stack has a destination. A usage plan made for an API has one key of its own, valid at the deployed stage, with the name and value asked for; a log group of a function is named after the stack and the function and keeps its logs a year unless told otherwise; documentation added is that of the resource, parameter, tags and summary given.",
    quantifier: { over: ["configurations", "inputs", "histories"], text: "every kind of schedule and combination of schedules, every finding, every combination of grants against every caller, action and object, sets of functions with and without destinations, and orders of plans, groups and documents" },
    why_tests_cant: "The tests compare four rates and one template; none evaluates a policy or pattern against callers or events, or combines several helpers in one stack.",
    anchors: { files: [L + "aws/infra/scheduler.ts", L + "aws/infra/security-rule.ts", L + "aws/infra/bucket-policy.ts", L + "aws/infra/stack/subscription.ts", L + "aws/infra/usage-plans.ts", L + "aws/infra/stack/lambda-log-group.ts", L + "aws/infra/documentation.ts"], mechanism: [{ name: "grantOACRights / grantOAIRights", where: L + "aws/infra/bucket-policy.ts" }, { name: "Scheduler.every", where: L + "aws/infra/scheduler.ts" }], observe_at: ["synthesised resources, evaluated on callers and events"], hook_needed: null },
    technique: REPLAY, level_note: note("Policies and event patterns are evaluated by the harness."),
  },
  {
    id: "C16", title: "Port activity messages are judged, joined to their call and kept once",
    statement: "Each message of a batch (marine/portactivity, process-queue) is dealt with by itself, in order. One that is not JSON, or that the database fails on, fails alone and leaves nothing behind. One is left out when its type, event time, record time, source, ship (MMSI or IMO) or port is missing or not valid, a LOCODE has more than five or a port area more than six characters, it is an ETD predicted by Awake.AI, or it is an ETA or ETB reckoned by VTS for a ship last seen within the hour anchored, moored, aground or slower than two knots. Its port call is the one it names, else the nearest in time of the calls of that ship to that port whose own ETA or ETD is not past, or whose ATA or ATD is (for an ETB of VTS or Awake.AI the ETA counts); the ship is found by MMSI or IMO, the missing one from the newest vessel, then port call. Without a port call only predictions of Awake.AI are kept, without an IMO nothing. An interval of confidence is kept, widened to whole numbers, only when it is two numbers below and above zero in order. A message kept twice is kept once; one of Portnet for a call that moved to another port removes what Portnet said of it elsewhere, and says so, in one transaction. Times and pilotages older than seven days are removed, no others.",
    quantifier: { over: ["inputs", "histories", "fault_sequences"], text: "batches of messages of every kind of flaw, source and type against worlds of port calls, ships and sightings; sequences of batches, failures, passing time and purges" },
    why_tests_cant: "The tests need a database of their own and deliver one or two messages; none delivers a malformed message among good ones (the whole batch failed), fails an insert after the removal, or tries the boundaries of the look-up.",
    anchors: { files: [PA + "lambda/process-queue/process-queue.ts", PA + "service/timestamp-validation.ts", PA + "service/timestamps.ts", PA + "dao/timestamps.ts", PA + "lambda/delete-old-timestamps/delete-old-timestamps.ts"], state: [{ name: "port_call_timestamp", meaning: "times kept", where: "marine/portactivity/database/update" }], mechanism: [{ name: "saveTimestamp / removeOldTimestamps", where: PA + "service/timestamps.ts" }, { name: "validateTimestamp", where: PA + "service/timestamp-validation.ts" }, { name: "FIND_PORTCALL_ID_SQL", where: PA + "dao/timestamps.ts" }], observe_at: ["outcomes of the handler", "rows of the database"], hook_needed: null },
    technique: REPLAY, level_note: note("The statements run in SQLite behind the PostgreSQL protocol."),
  },
  {
    id: "C17", title: "Port activity tells the newest word of each source, estimates merged",
    statement: "Asked by port, MMSI, IMO or source (marine/portactivity, get-timestamps; ids that are not valid are refused), port activity tells, in order of time, for every type, port, ship and source the time recorded last (by port call where both have one), if it is not more than twelve hours past and, from Portnet, less than fourteen days ahead; a pilotage is also told at the port it leaves from. Within a port call and type: an Awake.AI prediction without a call is dropped when the same one with a call is there, and any prediction when VTS or Awake.AI has an estimate; an estimate of VTS recorded an hour or more ago, or an hour or more later than that of Awake.AI, is dropped; one of each is averaged into one of VTS; sources have their display names. The public ship list has these rules with arrivals and departures of the last six hours, other times of the last hour, less than the hours asked ahead, no ETA for a call that has arrived, and the newest name of the ship; its page is for those with the right key (else 401 or 403) and valid ports (else 400), reaches 96 hours ahead unless told otherwise and shows the list whatever the names of ships. Ships whose ETA is asked from Awake.AI are those Portnet expects within 84 hours at the ports on a call of the last three days that has not arrived, the earliest call of each ship, without those Awake.AI expects within a quarter of an hour.",
    quantifier: { over: ["inputs", "histories"], text: "every small set of stored times out of pools around every limit, in several worlds, asked in every way" },
    why_tests_cant: "The tests store one or two rows of one kind; the rules interact (newest per source, per call, dropped predictions, averaged estimates) only in tables holding several.",
    anchors: { files: [PA + "dao/timestamps.ts", PA + "event-sourceutil.ts", PA + "service/timestamps.ts", PA + "dao/shiplist-public.ts", PA + "service/shiplist.ts", PA + "lambda/get-timestamps/get-timestamps.ts", PA + "lambda/get-shiplist-public/get-shiplist-public.ts"], state: [{ name: "port_call_timestamp", meaning: "times kept", where: "marine/portactivity/database/update" }], mechanism: [{ name: "mergeTimestamps", where: PA + "event-sourceutil.ts" }, { name: "SELECT_BY_LOCODE and its siblings", where: PA + "dao/timestamps.ts" }], observe_at: ["answers of the handler", "lists returned"], hook_needed: null },
    technique: REPLAY, level_note: note("The statements run in SQLite behind the PostgreSQL protocol; groups with two estimates of the same source are not judged."),
  },
  {
    id: "C18", title: "CloudFront takes each request to its own origin and lets in whom it should",
    statement: "A request to a distribution (other/cloudfront) is taken by the first of its behaviours, in the order given, whose path fits, else by its one default behaviour. It is answered without the origin when it comes over HTTP (sent to HTTPS), with a method the behaviour does not take, from an address the behaviour's own list does not name, or, where gzip is needed, as an OPTIONS request (204) or a GET that does not accept gzip (406), or when the behaviour redirects. Otherwise the behaviour's own origin is asked, under its own stage, with its own API key (if it has one) and read time, whatever other behaviours lead to the same host; with the path it was made to rewrite, the camera host or the history file or service that the address names. Answers get the CORS headers or file name asked for, a missing camera picture the placeholder; no header shows the API key. Answers are kept for at most the behaviour's time and are served only to requests with the same path, query (of the keys named), headers named and gzip. A behaviour has at most one handler at each event, a distribution exactly one default behaviour, a log and its origins, else building fails. Its access control list has the rules given to it, or those of the stack if none were, limits under 50 being refused unless only counting.",
    quantifier: { over: ["configurations", "inputs", "histories"], text: "stacks of distributions whose behaviours share hosts, names and lists in different ways, every pair of steps of a behaviour, requests of every kind of path, query, method, address and encoding, sequences of requests over time, bursts of requests" },
    why_tests_cant: "The tests run single handlers on single events and count the rules of one list; none builds a distribution, so what several behaviours do to each other was untested, and wrong in four ways.",
    anchors: { files: [CF + "cloudfront-cdk-stack.ts", CF + "distribution/behavior.ts", CF + "distribution/distribution-builder.ts", CF + "util/edgalambda-factory.ts", CF + "util/cachepolicy-factory.ts", CF + "util/lambda-creator.ts", CF + "util/function-creator.ts", CF + "acl/waf-rules.ts", CF + "acl/acl-creator.ts", CF + "lambda/lambda-lam-redirect.ts", CF + "lambda/lambda-gzip-requirement.ts", CF + "lambda/lambda-ip-restriction.ts"], mechanism: [{ name: "CloudfrontCdkStack.createBehavior / getOrigin", where: CF + "cloudfront-cdk-stack.ts" }, { name: "Behavior.addLambda / addFunction", where: CF + "distribution/behavior.ts" }, { name: "EdgeLambdaFactory", where: CF + "util/edgalambda-factory.ts" }], observe_at: ["synthesised distribution with its handlers, run on requests", "requests at the origin", "answers"], hook_needed: null },
    technique: REPLAY, level_note: note("CloudFront and WAF are simulated by the harness from the synthesised template; the handlers are the real ones."),
  },
  {
    id: "C19", title: "Winter navigation data follow their source through failures",
    statement: "The copy of the winter navigation data (marine/winter-navigation, update-data) asks for each kind of thing what has changed after the version taken over last, up to the version the source had when the run began; what is new, changed, withdrawn or restored is taken over, and what comes up while a run is under way is left to the next. A fetch that fails changes nothing of its kind, nor when it was last checked, and leaves the others be; a run cut off at any statement is made good by the next one that goes well: after it the copy is as the source is. Asked for, there are all the locations that are not withdrawn (or the one that has exactly the locode asked for in its list, or 404), each with its restrictions and the suspensions that name it; dirways with a point or the line of their points in order; and ships by IMO or MMSI (404 if withdrawn or unknown) or all that have something under way, with assistances and activities that overlap the time asked for (open ones by their start; by default from a week ago), each showing the other ship, the one that helps or the one that is helped. Answers tell, in body and header alike, when the data were last checked.",
    quantifier: { over: ["histories", "crash points", "inputs"], text: "every sequence of changes at the source and of runs that go well, fail in part, are cut off at a statement or meet changes under way, up to 5 steps (thorough: 6, of more kinds); every question after each" },
    why_tests_cant: "The tests store objects and read them back once; failures between kinds, cut-off runs and withdrawals that are taken back only show in sequences, and ships without numbers only in pairs.",
    anchors: { files: [WN + "service/data-updater.ts", WN + "api/ibnet-api.ts", WN + "db/vessels.ts", WN + "db/locations.ts", WN + "db/port-suspensions.ts", WN + "db/dirways.ts", WN + "db/deleted.ts", WN + "db/data-version.ts", WN + "service/vessel-service.ts", WN + "service/location-service.ts", WN + "service/dirway-service.ts", WN + "lambda/get-vessels/get-vessels.ts"], state: [{ name: "wn_data_version", meaning: "version taken over by kind", where: WN + "db/data-version.ts" }], mechanism: [{ name: "updateObjects", where: WN + "service/data-updater.ts" }, { name: "convertVessel", where: WN + "service/vessel-service.ts" }], observe_at: ["answers of the three handlers"], hook_needed: null },
    technique: REPLAY, level_note: note("The statements run in SQLite behind the PostgreSQL protocol; what is served between a cut-off run and the next good one is not judged, nor what refers to things withdrawn in part."),
  },
  {
    id: "C20", title: "Road sign data and pictures reach the public as sent",
    statement: "Variable signs (road/variable-signs, road/data-upload). A list of signs makes the signs on it (the last of two entries of one counts) the ones there are and everything else gone; a failed save changes nothing. States sent together are all kept, each with its rows, or none. Over the older interface all the situations of a message are saved or none: nothing, or not exactly one payload, is answered 400, a text cut off in mid-situation fails and ends. Over the newer one a message without known versions and types, or with nothing in it, is refused; one that cannot be kept or announced is answered 500; kept messages are worked through in the order in which they came, each once, marked processed or failed, and removed after 7 whole days. Each publication (2.2.3, 3.5 and 3.7; situations, controllers, statuses) has the latest text, unaltered whatever characters are in it, of each sign there is, in the order of their names, with the namespaces its prefixes need, and as publication time and Last-Modified the time of the newest; situations of the signs tried out are hidden in the nights of trial. A sign text with pictures is drawn as the texts and symbols it names, in order, unknown symbols refused.",
    quantifier: { over: ["histories", "inputs", "crash points"], text: "every sequence of lists, states, uploads, handlings, waits and failures of 2-3 steps (thorough: 3-4) from several starts over 2-3 signs, every publication read after each; every text for a picture of up to 2-3 pieces" },
    why_tests_cant: "The apps' tests need a database and store one or two messages; orders of messages, failures between two statements, cut-off texts and replacement patterns in a text do not occur in them.",
    anchors: { files: ["road/variable-signs/src/db/datex2.ts", "road/variable-signs/src/db/metadata.ts", "road/variable-signs/src/db/data.ts", "road/variable-signs/src/service/json-update-service.ts", "road/variable-signs/src/service/datex2-update-service.ts", "road/variable-signs/src/service/variable-signs.ts", "road/variable-signs/src/service/text-converter.ts", "road/data-upload/src/service/datex2-update.ts", "road/data-upload/src/service/variable-signs.ts", "road/data-upload/src/dao/data.ts", "road/data-upload/src/dao/variable-signs.ts"], state: [{ name: "device_data_datex2", meaning: "latest text by sign, version and kind", where: "road/variable-signs/src/db/datex2.ts" }, { name: "data_incoming", meaning: "messages kept until handled", where: "road/data-upload/src/dao/data.ts" }], mechanism: [{ name: "saveRealtimeDatex2", where: "road/variable-signs/src/service/datex2-update-service.ts" }], observe_at: ["answers of the handlers, rows of the tables"], hook_needed: null },
    technique: REPLAY, level_note: note("The statements run in SQLite behind the PostgreSQL protocol; the MQTT part, in the making, is left out, and so are versions the handler does not know."),
  },
  {
    id: "C21", title: "Rail passenger messages reach the public as sent, while they hold",
    statement: "Rail passenger information (rail/rami). A message handed in that is as agreed goes to the queue as it came (200), another one to the dead letters with what is wrong with it, nothing at all is answered 400; when the queue does not take it, the call fails. Each version of a message that comes from the queue is kept whole or not at all; one that fails (database, version already there, not JSON) is reported to the queue, and to the dead letters if it could be read, and the others of its batch are not affected. A message taken back is not shown again. The public sees, of each message, the newest version only: its texts in the three languages (first of each, trimmed), stations, train, validity and the delivery rules of its kind as they were sent, also if it has no stations, or its announcement no text; as active exactly those that hold now (start included, end not), as updated those created since the time given, active only unless asked otherwise, each narrowed by train, date, station or to general ones. What is asked in a form that cannot be understood is answered 400. Dead letters are put aside, each in its own readable file under its kind and the day, an upload that fails being tried twice. A database connection is given back whatever happens.",
    quantifier: { over: ["histories", "inputs", "crash points"], text: "every sequence of 3 steps (thorough: 4) of messages and waits over the limits of validity, every fault of the database at every statement before and after other messages, batches of two and three, every part and rule a message can have, every question in good and bad form" },
    why_tests_cant: "The tests need a MySQL of their own, insert one or two messages and query them; failing statements, batches, versions out of order, messages without stations or texts and the limits of validity do not occur in them.",
    anchors: { files: ["rail/rami/src/lambda/process-rosm-queue/process-rosm-queue.ts", "rail/rami/src/lambda/upload-rosm-message/upload-rosm-message.ts", "rail/rami/src/lambda/get-active-messages/get-active-messages.ts", "rail/rami/src/lambda/get-messages-updated-after/get-messages-updated-after.ts", "rail/rami/src/lambda/process-dlq/process-dlq.ts", "rail/rami/src/service/process-rosm-message.ts", "rail/rami/src/service/get-message.ts", "rail/rami/src/service/validate-message.ts", "rail/rami/src/dao/message.ts", "rail/rami/src/util/database.ts", "rail/rami/src/util/weekdays.ts", "rail/rami/src/util/s3.ts"], state: [{ name: "rami_message", meaning: "versions of the messages", where: "rail/rami/src/dao/message.ts" }], mechanism: [{ name: "ramiMessageToDtRamiMessage", where: "rail/rami/src/service/process-rosm-message.ts" }, { name: "FIND_ACTIVE / FIND_UPDATED_AFTER", where: "rail/rami/src/dao/message.ts" }, { name: "inTransaction", where: "rail/rami/src/util/database.ts" }], observe_at: ["answers of the handlers, messages in the queues, files put aside, connections held"], hook_needed: null },
    technique: REPLAY, level_note: note("MySQL is stood in for by SQLite, the statements being translated and the tables laid out by the harness; ajv and middy, which are not installed, by small stand-ins. Seconds of the created time, which the store drops, are not judged."),
  },
  {
    id: "C22", title: "Unknown delays and tracks of trains are kept as the source last told them",
    statement: "Stop monitoring (rail/rami). Of every message of a train that can be read, the message is kept and what it says of its calls where people may board is handed on: for the arrival and for the departure, where it has one, the time planned, whether the delay is unknown (no time expected) and whether the track is (no quay expected), under the train number and departure date in its journey name; nothing is handed on of buses or of messages without such calls. A message that does not fit goes to the dead letters; neither it nor one that is not JSON affects the others of its batch. What is handed on is kept whole or not at all, a statement being tried three times; a message that fails is reported to the queue. Each of its words is taken to the row of the train's own timetable as it is then, on that date, of the same place, kind and minute, or to none. Each row has one word, the last told; that nothing is unknown any more is kept, that nothing ever was is not; and its history tells each change, the last being the word it has. What is more than a day old is removed, from all tables or none. A database connection is given back whatever happens.",
    quantifier: { over: ["histories", "inputs", "crash points"], text: "every message of the calls, times around the minute, trains, dates and knowledge listed; every sequence of 3 messages (thorough: 4) about the same rows; every fault at connecting, reading, beginning, each statement once to three times, and commit; every sequence of 4 (5) messages, waits around a day and removals" },
    why_tests_cant: "The tests need a MySQL of their own and check counts of rows after one or two messages; retries, rollback, the minute's limits, times with other rows near them and removals are not run.",
    anchors: { files: ["rail/rami/src/lambda/process-sm-queue/process-sm-queue.ts", "rail/rami/src/lambda/process-udot-queue/process-udot-queue.ts", "rail/rami/src/lambda/delete-old-data/delete-old-data.ts", "rail/rami/src/service/process-sm-message.ts", "rail/rami/src/service/process-udot-message.ts", "rail/rami/src/dao/udot.ts", "rail/rami/src/dao/time_table_row.ts", "rail/rami/src/dao/stop_monitoring_message.ts", "rail/rami/src/util/database.ts"], state: [{ name: "rami_udot, rami_udot_history", meaning: "the word of each row and how it changed", where: "rail/rami/src/dao/udot.ts" }], mechanism: [{ name: "parseMonitoredCall", where: "rail/rami/src/service/process-sm-message.ts" }, { name: "findAttapId", where: "rail/rami/src/service/process-udot-message.ts" }, { name: "insertOrUpdate / executeWithRetry", where: "rail/rami/src/dao/udot.ts" }], observe_at: ["messages in the queues, failures reported, rows of the tables, connections held"], hook_needed: null },
    technique: REPLAY, level_note: note("MySQL is stood in for by SQLite, the statements being translated and the tables laid out by the harness; middy and the queue by stand-ins. Failures to keep a stop monitoring message, which the code only logs, and repeated entries of the history are not judged."),
  },
  {
    id: "C23", title: "State road maintenance data are taken in once, and a day of them kept",
    statement: "Maintenance of the state roads (road/maintenance-tracking). A message that is JSON goes to the queue as it came, whatever its size (200); another one, or one the queue does not take, is refused (400) and not queued. Of a message from the queue, fetched from the bucket if it was big, all observations are kept or none, each outcome being told apart from those of the others of its batch, which it does not affect; if the secret or the bucket cannot be read, the whole batch fails and is left in the queue. Each observation is kept once, unaltered, however often and with whatever other words it is sent, as first told, with its machine, contract, times, and sender (UNKNOWN if none is named); observations that differ in anything are kept apart. Messages that failed are put aside as files, each as it was, none in the place of another. Cleaning keeps exactly the trackings that ended within 26 hours (to the limit), those they go on from, and the newest of each domain, older ones no longer pointing to others; a step of it that fails changes nothing, and is told.",
    quantifier: { over: ["histories", "inputs", "crash points"], text: "every sequence of 2-4 (thorough: 3-6) sent and taken messages of those listed (repeated, overlapping, big, unreadable, with bad times or quotes in them), alone and in batches of up to three, with the queue, the bucket, the secret, the connection and the saving of an observation failing; every pair of ends and creation times around the limits, chains and domains, cleaned with every fault and over days" },
    why_tests_cant: "The tests need a database of their own, save one or two messages and clean a line of trackings once; batches with a failing one among them, messages repeated in other words, limits to the minute, domains and failures between the statements do not occur.",
    anchors: { files: ["road/maintenance-tracking/src/lambda/update-queue/update-queue.ts", "road/maintenance-tracking/src/lambda/process-queue/process-queue.ts", "road/maintenance-tracking/src/lambda/process-dlq/process-dlq.ts", "road/maintenance-tracking/src/lambda/clean-maintenance-tracking-data/clean-maintenance-tracking-data.ts", "road/maintenance-tracking/src/service/maintenance-tracking.ts", "road/maintenance-tracking/src/service/sqs-big-payload.ts", "road/maintenance-tracking/src/dao/maintenance-tracking-dao.ts"], state: [{ name: "maintenance_tracking_observation_data", meaning: "observations kept, by hash", where: "road/maintenance-tracking/src/dao/maintenance-tracking-dao.ts" }, { name: "maintenance_tracking", meaning: "trackings and what they go on from", where: "road/maintenance-tracking/src/dao/maintenance-tracking-dao.ts" }], mechanism: [{ name: "createObservationHash / ON CONFLICT(hash)", where: "road/maintenance-tracking/src/service/maintenance-tracking.ts" }, { name: "cleanMaintenanceTrackingData", where: "road/maintenance-tracking/src/dao/maintenance-tracking-dao.ts" }], observe_at: ["answers of the handlers, queue, rows of the tables, files put aside"], hook_needed: null },
    technique: REPLAY, level_note: note("The statements run in SQLite behind the PostgreSQL protocol; the client for big messages is stood in for at its interface. Whether the queue tries a message again whose outcome is told as a failure is up to it and not judged."),
  },
  {
    id: "C24", title: "Municipal maintenance is shown as unbroken trackings of one work each",
    statement: "Maintenance of the streets of municipalities (road/maintenance-tracking-municipality). Each run reads what the devices told between nine and two minutes ago and, of each machine, what it has not taken in yet, in the order of time, whatever order it comes in. Words without a work that is mapped and not ignored, as the mappings are when the run begins, are passed over. What is told makes trackings: of one machine, with the works of its channels, its places in order without repetitions, its first and last times, last place and heading. A tracking goes on to the next word only if it is told within five minutes and five seconds, at most 520 metres away and, over 50 metres, at a speed from 5 km/h (over 200 metres, 20) to 80; else a new one begins. When the channels change, the tracking ends where the one of the new works begins. The last tracking of a machine stays open: the next run ends it, at the place, time and heading where the new one begins if the machine can have driven there (a new one with the same works then names the one it follows), else where it was. So of one machine they do not overlap and at most one is open, and what is finished stays. Trackings of a machine are kept all or none; a machine that fails is counted and does not affect others. New channel names are kept as unknown and ignored, known ones stay. When the source, the secret or the database cannot be reached the run fails and no trackings change; when the data were last checked moves on only with runs that go well, and when they were last updated only with new trackings.",
    quantifier: { over: ["histories", "inputs", "crash points"], text: "every pair of words 23 times and 14 distances apart around the limits, with the same works and others; every three words of four sets of works, unusual channels, lines and orders; every sequence of 2-3 runs (thorough: 2-5) over those listed, with words that come late or are seen again, two machines, and every fault at the source, secret, connection and each kind of statement" },
    why_tests_cant: "The tests need a database of their own and save a few hand-made tracks; limits in combination, exchanged works, late words, chains over several runs and failing statements do not occur in them.",
    anchors: { files: ["road/maintenance-tracking-municipality/src/lambda/paikannin-update-data/paikannin-update-data.ts", "road/maintenance-tracking-municipality/src/service/paikannin-update.ts", "road/maintenance-tracking-municipality/src/service/paikannin-utils.ts", "road/maintenance-tracking-municipality/src/service/common-update.ts", "road/maintenance-tracking-municipality/src/service/utils.ts", "road/maintenance-tracking-municipality/src/api/paikannin.ts", "road/maintenance-tracking-municipality/src/dao/data.ts", "road/maintenance-tracking-municipality/src/constants.ts"], state: [{ name: "maintenance_tracking", meaning: "trackings, open or finished, and what they follow", where: "road/maintenance-tracking-municipality/src/dao/data.ts" }], mechanism: [{ name: "groupEventsToIndividualTrackings / isExtendingPreviousTracking", where: "road/maintenance-tracking-municipality/src/service/paikannin-utils.ts" }, { name: "saveMaintenanceTrackings", where: "road/maintenance-tracking-municipality/src/service/paikannin-update.ts" }], observe_at: ["rows of the tables, result of the handler"], hook_needed: null },
    technique: REPLAY, level_note: note("The statements run in SQLite behind the PostgreSQL protocol, with simple stand-ins for PostGIS that drop no points; speeds exactly at a limit and words of one machine at the very same time are not tried. The Autori source, which no lambda uses, is left out."),
  },
  {
    id: "C25", title: "Fairway lights are bright while ships move there, and asked only then",
    statement: "Ship lights (marine/shiplight, update-lights). A run asks, for each area, in the order of their ids, for bright lights exactly if a ship of the register was seen in it (its edge included) within two minutes, edge included, moving at more than 2 knots with a known speed (102.3 means unknown), and the lights have never been made bright or are to end in less than a minute. The lights are told the id of the area, how long they are to be bright (the minutes of the area), the MMSI (as text) and name of the ship, the first by name if there are several, and the visibility of the moment as the source tells it, 0 being told as 0 and what cannot be had as null. An attempt that fails is repeated twice. Once the lights answer, the area is noted as bright from now for its minutes; if they do not, its times stay, so that the next run tries again. What fails for one area, its lights or the noting of its time, does not affect the others, and a source of visibility that fails stops nothing. If the secret or the ships cannot be read, the run fails and nothing is asked. After a run that goes well every area with a moving ship is bright until the next run, a minute later, at least. Each of the two services is asked with its own key.",
    quantifier: { over: ["histories", "inputs", "crash points"], text: "every spot of a grid about three areas, two of which overlap, speeds and ages at and around their limits; every sequence of 2-5 (thorough: up to 7) sightings, waits and runs; every answer of the source of visibility; the lights of each area failing none to three times; faults of the secret, the connection, reading, and noting the times of one or all areas" },
    why_tests_cant: "The tests need a database of their own, run one area with one ship once, and repeat one failed attempt; what a failure leaves to the next run and to other areas, the limits of times and the last minute do not occur in them.",
    anchors: { files: ["marine/shiplight/src/lambda/update-lights/update-lights.ts", "marine/shiplight/src/service/areatraffic.ts", "marine/shiplight/src/service/arealights.ts", "marine/shiplight/src/service/areavisibility.ts", "marine/shiplight/src/api/arealights.ts", "marine/shiplight/src/api/areavisibility.ts", "marine/shiplight/src/db/areatraffic.ts"], state: [{ name: "areatraffic", meaning: "areas, and until when their lights are bright", where: "marine/shiplight/src/db/areatraffic.ts" }], mechanism: [{ name: "needToBrighten", where: "marine/shiplight/src/service/areatraffic.ts" }, { name: "SQL_GET_AREA_TRAFFIC", where: "marine/shiplight/src/db/areatraffic.ts" }, { name: "handlerFn", where: "marine/shiplight/src/lambda/update-lights/update-lights.ts" }], observe_at: ["requests to the control of the lights and the source of visibility", "times kept of the areas"], hook_needed: null },
    technique: REPLAY, level_note: note("The statements run in SQLite behind the PostgreSQL protocol, with simple stand-ins for PostGIS; lights that the control says it did not reach are only logged by the code and not judged, nor two runs at the same time."),
  },
  {
    id: "C26", title: "Port visits are kept as the source last told them and found as asked",
    statement: "Port visits (marine/port-call, v2). An update asks the source, with the certificate and key of the secret, for each day from yesterday to 99 days from now, one by one; the visits of a day are kept all or not at all, an update ends with the first day that fails, what the days before it brought being kept, and only one that comes to its end notes its time. A visit is kept once, as the source last told it: port, estimated and actual times of arrival and departure (also times taken back), status, and when the source updated it; told anew with the same port, times and status it stays as it was, its update time included. Nothing is removed. The public is shown the visits whose estimated arrival is within three months of now, either way, and that fit all that is asked for: some one of the four times at or after fromDateTime and before toDateTime, the port (in any case), a part of the vessel's name (in any case), the IMO number, the status (as expected-to-arrive, arrived, departed, cancelled, in any case); in the order asked for by field and direction, what lacks the time coming last either way, else by actual arrival or, without one, estimated arrival; times that are missing are left out. A single visit is found by its id, whenever it is, with its update time as the time of the answer, or 404. Anything else asked for, or a value that cannot be read or is empty where text is needed, is answered 400, and a failure of the secret or database 500.",
    quantifier: { over: ["inputs", "histories", "crash points"], text: "every sequence of 4 (thorough: 5) versions of two visits told, updates and questions; each of 64 versions told over each; arrivals on 14 days and hours around the limits of the days with waits between; every sequence of 4 (5) tellings of visits over several days and updates that fail at the source (three ways) on some day, at saving one, at noting the time, at the secret or connection; three sets of visits with every order, 13 x 13 times around the limits, parts, mixtures and bad questions, also 60 days later" },
    why_tests_cant: "The tests need a database of their own, save one or two visits and ask by one parameter; failures on a day among others, times taken back, combined limits and the answer when the database fails do not occur in them (the last was a rejected call instead of 500).",
    anchors: { files: ["marine/port-call/src/service/visit-service.ts", "marine/port-call/src/db/visits.ts", "marine/port-call/src/api/nemo-api.ts", "marine/port-call/src/model/get-visits-schema.ts", "marine/port-call/src/lambda/update-visits/update-visits.ts", "marine/port-call/src/lambda/get-visits/get-visits.ts", "marine/port-call/src/lambda/get-visit/get-visit.ts"], state: [{ name: "pc2_visit", meaning: "visits as last told", where: "marine/port-call/src/db/visits.ts" }], mechanism: [{ name: "UPSERT_VISITS_SQL / FIND_ALL_VISITS_PS", where: "marine/port-call/src/db/visits.ts" }, { name: "updateVisits", where: "marine/port-call/src/service/visit-service.ts" }, { name: "getVisitsSchema", where: "marine/port-call/src/model/get-visits-schema.ts" }], observe_at: ["answers of the two handlers", "rows kept after an update"], hook_needed: null },
    technique: REPLAY, level_note: note("The statements run in SQLite behind the PostgreSQL protocol, where a month is 30 days: arrivals are 80 or 100 days off, not at the very limit. A visit's vessel, which the code never changes, does not change at the source; names are asked for without % or _."),
  },
];
