// Per property: what is specified, how it is bound, bounds, cost (quick / thorough).
export const design = {
  C01: ["Retry: callers, attempts running, waits pending, what was logged, late outcomes of abandoned attempts. Actions: call, an attempt succeeds/fails/hangs, a late outcome, time passing to the next due instant. Invariants: number of attempts, one at a time, finished stays; liveness: every call ends under fairness.", "replay of the whole graph (single caller with all rules, long runs, two callers interleaved); traces of up to three callers with retry counts up to 100 recorded on a virtual clock and validated; liveness model-checked.", "24 s / minutes"],
  C02: ["ProxyResponse, LambdaResponse: the builder's settings so far and the built answer; setting, building again, ready-made answers.", "replay; the oracle decodes the response by its own flags. Contents are representatives (empty, tiny, compressible, random, non-ASCII, object, just around 6 MiB).", "60 s"],
  C03: ["Secrets: the store's version and health, what each holder has cached until when, overlapping reads with fetches under way, environment. Invariant: nothing served older than the time to live; action property: a failure keeps what was there.", "replay (caching, concurrent readers, credentials, direct reads) and validated random traces; SDK client and clock replaced.", "7 s"],
  C04: ["Database: sessions (new, connecting, discarding, working, committing, closed), statements sent, staged and committed effects. Every server answer may be success, error or a dropped connection, at every point.", "replay against the real pg-promise and pg over a server speaking the PostgreSQL protocol; one session with all kinds and faults, two sessions interleaved.", "7 s"],
  C05: ["WebAcl: the builder's steps and the list they make; requests counted per address and path. Decides each request itself from the *steps*, not from the rules.", "replay: the synthesised rules are evaluated by a firewall model in the driver and must decide as the specification; building (all pairs of steps), throttling (sequences of requests), filtering.", "5 s"],
  C06: ["Functions: the settings after the builder's or helper's steps, what the role may do, alarms over sequences of readings.", "replay: synthesised function, policies (evaluated, not compared textually) and alarms (evaluated over readings as CloudWatch does).", "35 s"],
  C07: ["StackChecks: stack kind, whitelist, resources; the report is a function of them.", "replay: constructs are made, aspects applied, annotations read; up to 4 resources, nested, with every whitelist entry shape.", "6 s"],
  C08: ["Queues: messages in the queue, receive counts, dead letters, bucket objects. Invariant: no message is lost or delivered too often.", "replay: delivery and redrive simulated from the synthesised template; the dead-letter function is run from its synthesised source.", "7 s"],
  C09: ["Integration: declared parameters, requests, what the lambda must get, what the client must get.", "replay through a model of the API gateway (velocity templates, selection patterns, passthrough); hostile values in every position.", "16 s / 5 min"],
  C10: ["RestApi: API kind, address list, resources and methods, usage plans and keys; probes from addresses, with keys, preflights; documentation parts; export.", "replay: the policy and the plans of the synthesised template are evaluated.", "21 s / 4 min"],
  C11: ["Canary: a run's checks and answers; database checks with counts and timings; deployments.", "replay with a small Synthetics runtime (steps, answers in pieces), PostgreSQL and secret store stand-ins.", "5 s"],
  C12: ["Logging, StopWatch: levels, fields, errors, handlers running at the same time, tasks of the watch over periods. Invariant: durations are the sum of the periods.", "replay: stdout captured, parsed line by line; virtual clock.", "11 s / 2 min"],
  C13: ["Values: tables of probes with what each must give; the numbers (check digits, LOCODEs, WKT) are worked out in TLA+ itself.", "replay; the distances come from a table worked out independently. Thorough: all IMO candidates of a range.", "2 s"],
  C14: ["Environment: which stacks exist, what each exports, imports and keeps. Invariants: everything imported is exported; property: data are never lost by destroying a stack.", "replay over sequences of deployments and destructions; CloudFormation simulated from the templates.", "5 s"],
  C15: ["Wiring: schedules, findings, grants and denials, subscriptions, plans, log groups, documentation, each with who gets what.", "replay; policies and event patterns evaluated as AWS documents it.", "15 s"],
  C16: ["PortTimes: the tables (timestamps, pilotages, port calls, vessels, positions), batches of messages, time. Judgement, choice of the port call, the upsert, the move to another port and the clean-up are operators of the specification. Invariants: one row per key, at most one port for what Portnet says of a call.", "replay: the queue handler runs on SQL (sqlpg); after every batch the whole table is compared. Suites: every way a message can be wrong; port-call choice; histories of batches, time and clean-up.", "22 s / 1.5 min"],
  C17: ["PortTimes: the answers to queries are operators over the tables (newest per source, merging, ship lists, ships to ask about).", "replay of all queries over initial databases of up to two (thorough three) rows of chosen kinds and times around each limit.", "11 s"],
  C18: ["Edge: a distribution is described by the steps that made its behaviours; what a request comes to (who takes it, the handlers, cache, origin, answer) is worked out from the steps. State: what is kept, for how long. EdgeLimits: the rules of distribution and stack and what a burst of requests comes to.", "replay: the synthesised distribution is interpreted by a CloudFront model in the driver, which runs the deployed handler code; suites limits (firewall), building (every pair of steps), flow (single requests on stacks of every kind), cache (sequences of requests and time).", "35 s / 7 min"],
  C19: ["WinterNav: the source (form and version of each object), the copy, the version taken over by kind, when checked, what a cut-off run left in doubt. Invariant InStep (what has been taken over is as at the source), property Recovers (one good run sets everything right).", "replay: changes of the source and runs (failing fetches, statements cut off, changes under way) against the real updater over SQLite behind the PostgreSQL protocol; after each the three handlers are asked everything. Suites locations, vessels, dirways.", "30 s"],
  C20: ["SignData: the signs and whether they are there, the latest text by sign, version and kind, the messages kept and how they were marked, states and rows, time. Invariant Safe (nothing of signs that are not there, nothing of the trials, one text of a sign), properties Untouched (what is refused or fails changes nothing), Once, Forward (time published does not go back). SignImage: symbols, frames and where they stand; Tiled, Brackets, Case.", "replay: lists, states, uploads over both interfaces, handlings, removals and waits against the real handlers over SQLite behind the PostgreSQL protocol, with a stand-in for the queue; after each step all seven publications are read, their namespaces resolved and each text compared with what was sent. Pictures: every text of up to 2-3 pieces.", "70 s"],
  C21: ["RailMessages: the versions kept and which were taken back, time. What the public is told of a message is a function of what was sent (texts, rules by kind). Invariant Safe: one word per message (OneWord), nothing taken back is shown (Gone), nothing outside its validity (NothingStale), every failure reported (Reported).", "replay: batches, faults at each statement, connect, begin and commit, waits to either side of the validity limits, uploads, dead letters and questions against the real handlers over SQLite behind the interface of mysql2; after each step the active messages are read, and the number of connections held is compared.", "10 s"],
  C22: ["TrackNews: the word of each timetable row, its history, the messages kept, time. Parsing (Says, Data, HandedOn), matching to a minute (Meant), retry and rollback (Fails) are functions of the specification. Invariant Safe: OneWord, InTime (only rows of the timetable), Last (the word is the last of its history), Begins (a history begins with something unknown).", "replay: stop monitoring messages go through the real first handler, what it puts into its queue is compared and passed to the real second one, over SQLite behind the interface of mysql2 with faults; after each step all tables are read.", "15 s"],
  C23: ["RoadWorks: the queue, the observations kept in the order in which they were, the trackings with their ends, creation times and predecessors, the files put aside, time. Invariants Once, Good (nothing of a message that failed), Joined (no tracking goes on from one that is gone); action properties Stay (what is kept stays as it was), Young (cleaning takes nothing recent), Newest (of no domain everything goes).", "replay: messages go through the real handlers, over a queue with a bucket for big ones, into SQLite behind the PostgreSQL protocol, with faults; every row is compared with what was sent, and every table of trackings with what should stay.", "25 s"],
  C24: ["WorkTrails: what the devices told, the trackings in the order in which they were made, the mappings of channels, when data were last updated and checked, time. Invariants OneOpen, Apart (those of a machine do not overlap), Ordered, Chained (what a tracking follows is an earlier one of its machine, with its works); action property Final (what is finished stays).", "replay: the real handler runs against a source at fetch that tells what the behaviour says, within the times asked for, and SQLite behind the PostgreSQL protocol, with faults; after each run every row of every table is compared.", "28 s"],
  C25: ["Fairways: where ships were last seen and how fast, until when the lights of each area are bright, time. Invariant Safe (after a run that goes well an area with a moving ship is bright for a minute at least; end = start + the area's minutes; only areas with ships are asked for); action property Sparing (times move only with a ship and less than a minute left).", "replay: the real handler with the real HTTP client runs against a source of visibility and a control of lights at fetch, and SQLite behind the PostgreSQL protocol, with faults; after each run every request and the times of all areas are compared.", "60 s"],
  C26: ["Visits: what the source tells of each visit, what is kept, when an update last came to its end, time. Invariants One (a visit is kept once) and Current (after a good update what was asked for is kept as told); action property Lasting (nothing is dropped, only updates change anything). The answers are computed from what is kept, as groups of equal rank.", "replay: the three real handlers run against a source at the interface of the HTTP client and SQLite behind the PostgreSQL protocol, with faults; after an update every row is compared, and of every question the whole answer.", "25 s"],
};
export const missedFirst = {
  "remembered-mappings": "missed first: mappings did not change between runs; the suite `mapped` was added",
  "timetable-remembered": "missed first: the timetable did not change; the suite `timetables` was added",
  "chain-by-order-of-works": "missed first: an order of works other than the alphabet's was added to the suite `chain`",
  "dead-letters-overwritten": "missed first: a batch of dead letters may now have several of one kind",
  "deny-without-condition": "missed first: the key policies of C15 now judge deny statements with their conditions",
  "zero-threshold": "missed first: thresholds of 0 were added to the steps (alarmsZero)",
  "fifo-unencrypted": "missed first: FIFO queues were added to the resources",
  "dlq-same-names": "missed first: the messages of a batch may now have equal bodies, and the clock does not move within a batch",
  "watch-third-period": "missed first: the suite `periods` was added",
};
