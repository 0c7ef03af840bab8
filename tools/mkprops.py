#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (kept as a script so statements are edited in one place)."""
import json, os
P = []
def p(id, title, statement, over, text, why, files, mech, state):
    P.append({"id": id, "title": title, "statement": statement,
      "quantifier": {"over": over, "text": text}, "why_tests_cant": why,
      "anchors": {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech], "state": [{"name": x, "where": mech[0][1]} for x in state]}})

p("C01", "Single-client data scopes generate exactly one value per scope iteration",
  "A data key scoped to a statement, row, transaction file, iteration, client or value is backed by its own generator per scope instance, and that generator is called exactly when its scope iterates (client scope: on connect and on every recovered query error), or when the key is called explicitly. Every other use of the key sees the last value generated in its scope, never a value of another client, transaction or statement. This holds for every mix of keys, statements, transaction files, iterations and recovered errors.",
  ["programs", "histories"], "All trx-file programs of up to 2 files x 2 statements x 2 uses of a key (implicit or explicit), every single-client scope, 2-3 iterations, 1-2 clients, with query errors at every statement position.",
  "Unit tests check a few fixed programs; the guarantee is about every program and every error history, and combines trx parsing, workload allocation, the client loop and the scoped generator.",
  ["data/scope.go", "workload/workload.go", "client/client.go", "trx/trx.go", "finch.go"],
  [("scoped generator", "data/scope.go ScopedGenerator.Values/Call"), ("scope copy", "data/scope.go Scope.Copy"), ("run counters", "client/client.go Run")],
  ["run counters", "last value", "copy per run level"])
p("C02", "Shared data scopes give each client iteration exactly one value of its own",
  "A data key scoped to a client group, execution group or workload has one generator shared by exactly the clients in that scope, called once when each client starts a new iteration (and on explicit calls). All statements of that client in that iteration see the value from that call, and no other client or iteration is handed it, whatever the interleaving of the clients.",
  ["schedules", "configurations"], "All interleavings (up to the preemption bound) of 2-3 clients in 1-2 client groups and execution groups, 2 iterations, one or two keys, implicit and explicit calls.",
  "Lost or shared values need particular interleavings or particular client numbering across groups; a test samples one schedule and one numbering.",
  ["data/scope.go", "workload/workload.go", "client/client.go"],
  [("per-client value table", "data/scope.go ScopedGenerator.Values/Call"), ("scope copy", "data/scope.go Scope.Copy")],
  ["last iteration and value per client"])
p("C03", "Stage- and global-scoped data keys are generated exactly once",
  "A stage-scoped data key is generated once per stage run and a global-scoped key once per Finch run; every implicit use by any client, group or (for global) later stage sees that same non-empty value. Only an explicit call generates a new value, which then replaces it. This holds for every interleaving of clients on first use.",
  ["schedules", "histories"], "All interleavings of 2-3 clients racing on first use, over 1-3 consecutive stages, implicit and explicit calls; a server and up to 2 remote instances over up to 3 stages with every single fault.",
  "First-use races and the hand-over between stages are schedule- and history-dependent.",
  ["data/scope.go", "compute/server.go", "workload/workload.go"],
  [("one-time scope", "data/scope.go ScopedGenerator.Values"), ("scope reset between stages", "data/scope.go Scope.Reset")],
  ["one-time value"])
p("C04", "Iteration limits are exact under concurrency",
  "With a per-client iteration limit every client executes exactly that many iterations; with a client-group or execution-group limit the clients sharing it execute exactly that many iterations in total, no more and no fewer, under every interleaving. When several limits are combined none is exceeded, every client goes on until a limit that covers it is reached, and the stage ends once the limits are reached.",
  ["schedules", "configurations"], "All interleavings (preemption bound 2-3) of 2-3 clients in 1-2 client groups, limits 1-3, single and combined.",
  "Over- and under-counting shows only when clients race on the shared counter.",
  ["client/client.go", "workload/workload.go"],
  [("shared iteration counters", "client/client.go Run"), ("counter allocation per group", "workload/workload.go Clients")],
  ["shared iteration counters"])
p("C05", "Clients execute exactly the configured statements, in order, with the right values",
  "In every iteration a client sends the statements of its assigned transaction files to the database in file order and assignment order, each exactly once and nothing else, on one connection in its configured default database. Statements marked prepared run through a prepared statement made on that connection, others as text; in both cases each data key (including multi-value keys and keys whose names are prefixes of others) is replaced by its own value and the remaining text is untouched.",
  ["programs", "configurations"], "All programs over an alphabet of statement shapes (read/write/DDL/BEGIN/COMMIT/idle/copies/csv, prepared or not, 0-3 keys with colliding names and literals) up to 3 statements in up to 2 files, with and without default database.",
  "The space of programs is a product of statement shapes, modifiers and key names; tests execute none of them because they need MySQL.",
  ["client/client.go", "trx/trx.go", "workload/workload.go"],
  [("statement loop", "client/client.go Run"), ("data key replacement", "trx/trx.go statements"), ("prepare", "client/client.go Connect")],
  ["prepared statements", "input values"])
p("C06", "Saved columns and insert ids flow unchanged to later statements",
  "A column saved from a result set, or a saved insert id, is what later statements that use that data key receive: exactly the last row's value (or the insert id) the same client got most recently within the scope of the data key, for every column type, including NULL, empty and reused byte buffers. No-op columns are skipped without shifting others, and clients never see each other's saved values.",
  ["inputs", "histories"], "All result sequences over a small alphabet of values/types (int, bytes of growing and shrinking length, empty, NULL, float, time), 1-3 columns with no-op positions, 0-2 rows, 2 iterations, 1-2 clients.",
  "Values depend on result history (buffer reuse, type changes between rows) that tests without a database do not produce.",
  ["client/client.go", "data/column.go", "trx/trx.go"],
  [("scan into generators", "client/client.go Run"), ("column copy", "data/column.go Scan/Values")],
  ["saved value buffers"])
p("C07", "Query errors are handled as documented: continue, roll back or reconnect, then a new iteration",
  "After any query error the client executes nothing more of that iteration and starts the next one from the first statement: on deadlock or killed query on the same connection, on lock wait timeout or read-only after a ROLLBACK on the same connection if inside a transaction file, on other errors after reconnecting. A failed DDL statement with an error that is not specially handled, and a failed rollback, stop that client with the error reported.",
  ["fault_sequences"], "Every error code class x every statement position x read/write/prepared/DDL x transaction position, single and double faults over 3 iterations.",
  "Handling depends on error code, position and statement type together; tests have no database to return errors.",
  ["client/client.go", "finch.go"],
  [("error path", "client/client.go Connect"), ("error table", "finch.go MySQLErrorHandling")],
  ["connection", "transaction active flag"])
p("C08", "A reconnected client is indistinguishable from a freshly connected one",
  "Whenever a client gets a new connection, before the next iteration's first statement it has selected the configured default database and prepared every prepared statement again on that connection, and it never uses the old connection or its statements again. Failed connection attempts are retried until one succeeds or the run ends, and no connection or prepared statement is left open when the client is done.",
  ["fault_sequences", "crash_points"], "Connection loss at every statement position (1-2 losses), followed by 0-2 failed connection attempts, failures of USE and of PREPARE, run end at every point during reconnection.",
  "Needs a connection lost at a particular statement with prepared statements in use.",
  ["client/client.go"],
  [("reconnect", "client/client.go Connect"), ("cleanup", "client/client.go Run")],
  ["prepared statements", "connection"])
p("C09", "Statistics count every executed query exactly once, in the right class",
  "For every client with statistics enabled, each query sent to the database is counted exactly once in the total of the transaction file it belongs to and in exactly its own class (read, write, commit, or total only), with its measured response time, and each query error exactly once under its MySQL error code. Reported trx and stage totals equal the sum over clients; client groups with statistics disabled contribute nothing.",
  ["histories", "fault_sequences"], "All short programs over the statement classes with errors at every position, 1-3 trx files, groups with and without statistics, fixed per-query latencies.",
  "The accounting joins the client loop, the per-transaction statistics and the collector; tests cover each alone on fixed values.",
  ["client/client.go", "stats/stats.go", "stats/collector.go", "workload/workload.go"],
  [("record", "client/client.go Run"), ("per-trx stats", "stats/stats.go Trx"), ("collector", "stats/collector.go Collect")],
  ["per-trx counters"])
p("C10", "QPS and TPS limits are never exceeded",
  "With a queries-per-second (or transactions-per-second) limit on a client, client group, execution group or stage, the clients it covers together start at most rate*T + a small constant burst (two per limiter and combination of limiters in the path) queries (or BEGIN statements) in every time window of length T, for every combination of limits at several levels. Limited clients still make progress, and statements other than BEGIN are not slowed by a TPS limit.",
  ["schedules", "configurations"], "All combinations of QPS/TPS limits at the four levels with 1-2 clients in 1-2 groups, in virtual time, over all schedules up to the bound and all windows of the resulting history.",
  "A rate bound is about every window of a timed concurrent history; real-time tests are either slow or flaky and sample one schedule.",
  ["limit/rate.go", "workload/workload.go", "client/client.go"],
  [("token channel", "limit/rate.go rate.run"), ("combined limiter", "limit/rate.go and.run"), ("assignment", "workload/workload.go Clients")],
  ["token channels", "limiter state"])
p("C11", "Data limits stop writes at the limit",
  "With a row limit, clients sharing it stop executing the limited statement once the affected rows reported for it (plus offset) reach the limit: every execution starts while the total was below the limit, so it is exceeded at most by executions already under way, and once reached no client executes it again. With a table or database size limit, execution stops when the measured size reaches the limit, a measured size below the limit lets it continue, and of two limits the first reached stops it.",
  ["schedules", "inputs"], "All interleavings of 1-3 writers with 1-2 rows per write and all limits/offsets in a small range; all measured-size sequences up to length 4 around the limit, with errors.",
  "Needs interleaved writers around the limit and size query results over time.",
  ["limit/data.go", "client/client.go", "trx/trx.go"],
  [("row limit", "limit/data.go Rows"), ("size limit", "limit/data.go Size"), ("disjunction", "limit/data.go or")],
  ["row counter", "size check schedule"])
p("C12", "Workload allocation assigns the configured clients and transactions, and isolates DDL",
  "Every configured client group becomes exactly its configured number of clients, each with its assigned transaction files in order (all of them if unassigned), its limits, default database and 1-based stage/group/client/trx/query numbering; consecutive groups with one name form one execution group, in order. Without explicit groups, DDL transaction files are allocated alone in their own execution group with one iteration, in configuration order with the others.",
  ["configurations"], "All workloads of up to 3 client groups over up to 3 transaction files (DDL or not), group names, client counts 1-2 and trx subsets, against a reference allocator.",
  "The allocator is a product of naming, DDL and trx rules; tests cover a handful of shapes.",
  ["workload/workload.go", "config/file.go"],
  [("exec groups", "workload/workload.go Groups"), ("clients", "workload/workload.go Clients"), ("auto-assignment", "workload/workload.go AutoAssign")],
  ["run levels"])
p("C13", "A stage runs execution groups in sequence, clients concurrently, and always ends",
  "Execution groups run strictly one after another: no client of a group executes anything before every client of the earlier groups is done. All clients of a group run concurrently, each exactly once, and the stage ends when all are done, or promptly after its runtime, a client group's runtime, or cancellation ends them; a client that fails neither stops the others nor keeps the stage from ending.",
  ["schedules", "fault_sequences"], "All interleavings of 2-3 clients in 1-3 client groups and 1-2 execution groups, with client errors, stage and group runtimes and cancellation at every step.",
  "Sequencing and termination depend on interleavings and on when a deadline or cancellation lands.",
  ["stage/stage.go", "client/client.go"],
  [("stage loop", "stage/stage.go Run"), ("done channel", "client/client.go Run")],
  ["done channel", "client count"])
p("C14", "Latency statistics are faithful to the recorded response times",
  "For any recorded response times, the count is exact, minimum and maximum are exact, and each requested percentile lies in the same histogram bucket as the exact order statistic (and never outside minimum and maximum by more than that bucket). Combining statistics of clients, transactions and instances gives the same result as recording everything in one place, in any order and grouping, including empty ones; copying gives an independent equal value.",
  ["inputs"], "All multisets of up to 4-5 response times over bucket-edge values and all event classes, all partitions into 1-3 parts in all combine orders, all percentile lists over a small set.",
  "Bucket edges, empty parts and combine orders are a combinatorial space; tests use a few fixed sequences.",
  ["stats/stats.go"],
  [("histogram", "stats/stats.go Record/Percentiles"), ("combine", "stats/stats.go Combine/Copy/Reset")],
  ["histogram buckets", "min/max", "error counts"])
p("C15", "No recorded query is lost or counted twice across reporting intervals",
  "While a client records queries concurrently with interval collection, every query recorded before a collection starts or after it ends is in exactly one reported interval, and with several collections the reported intervals together contain every query recorded while no collection was in progress exactly once, under every interleaving; no query is lost by swapping statistics, and error counts are never accessed by client and collector at once. The intervals cover the whole run without gaps. A reported interval never changes after it was reported.",
  ["schedules"], "All interleavings (preemption bound 2-3) of a recording client with 1-3 collections.",
  "Lost updates around the statistics swap need a preemption between particular statements.",
  ["stats/stats.go", "stats/collector.go"],
  [("double buffer swap", "stats/stats.go Trx"), ("collection", "stats/collector.go Collect")],
  ["active and collected buffers"])
p("C16", "Every reporting interval reports each instance at most once, in order, and collection terminates",
  "Interval statistics received from instances are reported per interval in increasing order: an interval is reported with every instance's statistics for that interval as soon as they are all in, and a report never mixes statistics of different intervals or counts an instance twice. When collection is stopped it ends within the timeout even if instances never report, says whether all did, and every report given to reporters holds at least one instance.",
  ["schedules", "histories", "fault_sequences"], "All arrival orders of up to 3 intervals from up to 3 instances with missing, late and duplicate deliveries, interleaved with local collection and stop.",
  "The interval protocol's states are sequences of deliveries from several instances; tests send two in order.",
  ["stats/collector.go"],
  [("receive", "stats/collector.go Recv"), ("stop", "stats/collector.go Stop"), ("collect", "stats/collector.go Collect")],
  ["current interval", "instances received"])
p("C17", "Reports state exactly the collected statistics",
  "CSV and terminal reports contain one line per interval (and, where configured, per instance), with every column equal to the value computed from the collected statistics: interval, duration, runtime, clients, queries per second and response times per class, transactions per second and error counts; combined lines equal the combination of the instances. CSV rows always have the header's number of fields, in order, and are all on disk when the report has been written.",
  ["inputs"], "All statistics over a small alphabet of counts/latencies/errors x 1-3 instances x interval lengths x percentile configurations, parsed back and compared with a reference computation.",
  "Output correctness is over all statistics and reporter options; tests compare one fixed case.",
  ["stats/csv.go", "stats/stdout.go", "stats/reporter.go", "stats/stats.go"],
  [("csv", "stats/csv.go Report"), ("stdout", "stats/stdout.go Report")],
  ["report rows"])
p("C18", "No instance runs a stage before every required instance has booted it",
  "A stage with N instances starts running on no instance until N instances (including the local one unless disabled) have booted that stage successfully; each joins it at most once and no more than N ever run it. Stages run strictly one after another in the given order, and a boot test runs nothing.",
  ["schedules", "fault_sequences", "histories"], "All interleavings of the server with 1-3 remote instances up to the bound, with boot failures, extra instances, lost or repeated requests and responses.",
  "The barrier is a distributed protocol property over message orders and failures; repository tests run no remote instance.",
  ["compute/server.go", "compute/api.go", "compute/client.go", "proto/proto.go"],
  [("boot barrier", "compute/server.go run"), ("client state machine", "compute/api.go boot/run"), ("client protocol", "compute/client.go run")],
  ["client state", "booted count", "stage slots"])
p("C19", "The server finishes a stage when, and only when, all its instances are done",
  "The server does not return from (or move past) a stage while an instance that started it is still running, unless the run is cancelled; once all have finished or the run is cancelled it returns within bounded time, whatever clients and messages are lost after that. A message about an earlier stage never advances the current one.",
  ["schedules", "fault_sequences"], "All interleavings of the server with 1-2 remote instances with cancellation at every point, instance crash after each protocol step, and requests of an earlier stage replayed later.",
  "Termination and isolation depend on message orders, losses and the moment of cancellation.",
  ["compute/server.go", "compute/api.go", "compute/client.go"],
  [("done wait", "compute/server.go run"), ("stage hand-over", "compute/api.go Stage"), ("stage id check", "compute/api.go client")],
  ["done channel", "stage id", "clients per stage"])
p("C20", "Protocol requests retry with the same content, a bounded number of times",
  "A client request is retried on network error, timeout or error status, at most the given number of tries (or until cancelled if unlimited), every attempt carrying the same method, address, parameters and body, and waiting the given time between attempts. It reports success exactly when an attempt got a success (or stage-reset) status with its complete body, whatever its size, and failure otherwise; cancellation ends it promptly.",
  ["fault_sequences"], "All fault sequences up to length 4 over {ok, reset, error statuses, connection error, timeout, truncated body} x body sizes x tries x cancellation before/during each attempt; sequences of 2-3 requests of one client, and interleavings of 2 at the same time.",
  "Needs fault sequences on the wire.",
  ["proto/proto.go"],
  [("retry loop", "proto/proto.go request")],
  ["request body", "attempt count"])
p("C21", "Remote instances execute exactly the server's transaction files",
  "Every transaction file a remote instance executes is byte-for-byte the server's file for that position in the stage, whatever the files' sizes, contents and names (including equal base names in different directories), and the server's own files are never modified. If a file cannot be fetched completely the instance does not run the stage. (By design, a file that exists on the remote host at the very path the server uses is not fetched; such files are out of scope.)",
  ["inputs", "fault_sequences"], "All assignments of small and large contents to 1-3 files with equal and different base names, with a fault on every request, end to end through client and server.",
  "Needs client and server together with file-name collisions, big files and transfer faults.",
  ["compute/client.go", "compute/api.go", "proto/proto.go"],
  [("fetch", "compute/client.go getTrxFiles"), ("serve", "compute/api.go file")],
  ["temporary files"])
p("C22", "Remote statistics reach the server's report at most once, and all of them without faults",
  "Statistics a remote instance reports for an interval appear in the server's reports of that stage at most once, unchanged, under the right instance name, whatever requests or responses are lost, delayed, retried or duplicated and whatever instance crashes; one report never mixes intervals and never counts more than was executed. Every interval a remote instance sent, including the last, is reported exactly once if no request fails, or if one request fails and its retry arrives before the next interval, whether instances end at the same time or not and with or without a local instance (statistics of the last interval of the local instance that arrive more than 3 seconds after it ended are excepted).",
  ["fault_sequences", "schedules"], "1-2 remote instances, with and without a local one, 1-2 stages, 1-5 intervals: every single fault of each /stats request, every pair of them for at-most-once, every fault of any other request, duplicates, crashes and cancellations at every event, instances of different speeds; all schedules up to the bound.",
  "Needs lost responses, retries and instances that do not end together on the statistics path.",
  ["stats/remote.go", "compute/api.go", "compute/server.go", "stats/collector.go", "proto/proto.go"],
  [("remote reporter", "stats/remote.go Report"), ("receive", "compute/api.go stats; stats/collector.go Recv, Close")],
  ["interval number", "instances received"])
p("C23", "Configuration precedence: command line over stage file over base file over defaults",
  "For every setting that can be given in several places, the effective value is the most specific one given: command line, then the stage file, then the base file of the stage file's directory, then the documented default; a setting not overridden is never lost, and settings of one stage or directory never leak into another. Enabled stages are returned in command-line order, numbered from 1.",
  ["configurations"], "All subsets of places x every overridable setting (params, mysql, stats, dsn, database), for 1-3 stage files in 1-2 directories.",
  "Precedence is a product of settings and places; tests cover one base file.",
  ["config/config.go", "config/file.go"],
  [("load", "config/config.go Load"), ("base", "config/file.go Stage.With"), ("command line", "config/file.go Stage.CommandLine")],
  ["base config cache", "params"])
p("C24", "Variables in configuration are fully and only interpolated as documented",
  "In every configuration value, each $params.name, $sys.name and $ENV reference (bare or in braces) is replaced by exactly that variable's value and an undefined one is an error; human-readable numbers are turned into the right integers where numbers are expected, and all other text is unchanged. The result does not depend on map iteration order.",
  ["inputs", "configurations"], "All strings of up to 4 tokens over variables with colliding name prefixes, literals and numbers, in both modes, and every interpolated configuration field; all map iteration orders.",
  "Token combinations and name prefixes form a combinatorial input space, and map order is invisible to a test.",
  ["config/config.go", "config/file.go"],
  [("interpolation", "config/config.go Vars"), ("fields", "config/file.go *.Vars")],
  ["params"])
p("C25", "Only valid stage configurations are accepted",
  "Loading accepts a stage exactly when it satisfies the documented rules: at least one existing transaction file, known generator scopes used consistently, integers where integers are required, positive durations, client groups that refer to defined transactions (all or none of them), and execution group names that are consecutive. What it accepts never makes later preparation crash.",
  ["configurations"], "All single and pairwise deviations of every field over a small alphabet of valid and invalid values, workload shapes of up to 3 groups, against a reference validator.",
  "Validation is over all field combinations.",
  ["config/file.go", "config/config.go"],
  [("validate", "config/file.go Stage.Validate, ClientGroup.Validate, TLS.Validate")],
  [])
p("C26", "Transaction files are parsed as documented",
  "For every transaction file made of documented constructs (statements over one or more lines separated by blank lines, modifiers, data keys, explicit calls, @PREV, CSV expansion, copies, EOF marker), the parsed statements have exactly the documented order, text, classification and effects, and each undocumented or malformed construct that is documented as an error is rejected with an error, never a crash. Data keys are shared by name across the files of a stage; otherwise parsing one file does not affect another.",
  ["programs"], "All files of up to 4 lines over an alphabet of line kinds, and all combinations of modifiers on one statement, compared with an independent reference parser.",
  "Line and modifier combinations are combinatorial; tests use three sample files.",
  ["trx/trx.go"],
  [("line machine", "trx/trx.go line/statements"), ("csv and row scope", "trx/trx.go RowScope")],
  ["line buffer", "modifiers", "column references"])
p("C27", "Data generators produce values in their documented domain and sequence",
  "Every generator returns, for every valid parameter set and every random draw, values inside its documented range and shape; sequential generators visit exactly their documented sequence, including wrap-around, and when shared by concurrent clients never skip or repeat an element. A value that was returned never changes when the generator is called again. Copies of a generator are independent with the same parameters, and invalid parameters are rejected.",
  ["inputs", "schedules"], "All small parameter sets x all random draws (enumerated, not sampled) x call sequences to exhaustion, and all interleavings of 2-3 callers for shareable generators.",
  "Edge draws have tiny probability in a test, and shared-use races need interleavings.",
  ["data/integer.go", "data/string.go", "data/id.go"],
  [("int family", "data/integer.go"), ("string", "data/string.go"), ("ids", "data/id.go")],
  ["sequence positions"])
p("C28", "The database connection is exactly what the configuration says, and secrets are never printed",
  "The data source name built from any combination of DSN, user, password, password file, host, socket, database, timeout, TLS and my.cnf settings connects to exactly the configured server with exactly those credentials and options, stage settings overriding my.cnf. The redacted form shown to the user never contains the password, and invalid files or settings give an error.",
  ["configurations"], "All subsets of settings over small value alphabets including special characters, and all my.cnf combinations, parsed back with the driver's own parser.",
  "Settings combine multiplicatively; tests without MySQL cover none.",
  ["dbconn/factory.go", "dbconn/mycnf.go", "config/file.go"],
  [("dsn", "dbconn/factory.go"), ("my.cnf", "dbconn/mycnf.go")],
  [])
p("C29", "The program runs the enabled stages in order, prepares all with --test, and CTRL-C ends it",
  "Started with any list of stage files the program runs each enabled stage exactly once, in the given order, from the directory of its own file, and starts nothing of a stage before the previous one is done and reported. With --test every stage is prepared and no statement is executed. A stage that is invalid or cannot be prepared ends the run with an error and no later stage starts. After CTRL-C no new stage starts, what was counted so far is reported, and the program ends promptly and successfully even if the database or the stages do not respond. Started as a server and as clients on several machines, the programs find each other at the given addresses and run each stage on the configured number of machines. Options and environment variables take effect in every stage, and secrets are never printed.",
  ["programs", "schedules", "crash points"], "All sequences of up to 3 (thorough: 4) stages of 10 kinds x --test x directory layouts; CTRL-C at every event, with delayed and unresponsive databases and schedules of preemption bound 1; options x environment x position; a server and up to 2 clients: forms of addresses, all sequences of up to 2 (thorough: 3) stages of 5 kinds, CTRL-C of server or client at every event, schedules of preemption bound 1.",
  "Whole-program behaviour is the composition of all parts; tests never run the program.",
  ["boot/boot.go", "boot/cmdline.go", "compute/server.go", "compute/client.go", "stage/stage.go", "config/file.go"],
  [("run loop", "compute/server.go Run"), ("interrupt", "boot/boot.go"), ("stage", "stage/stage.go Run")],
  ["process-wide configuration and signals"])
SHORT = {
 "C12": "Allocation assigns the configured clients and transactions, and isolates DDL",
 "C05": "Clients execute exactly the configured statements, in order, with right values",
 "C07": "Query errors are handled as documented, then a new iteration starts",
 "C13": "Execution groups run in sequence, clients concurrently, and a stage always ends",
 "C16": "Intervals are reported in order, each instance at most once, and reporting ends",
 "C22": "Remote statistics are reported at most once, and all of them without faults",
 "C23": "Configuration precedence: command line, stage file, base file, default",
 "C29": "Enabled stages run in order, --test only prepares, and CTRL-C ends the run",
 "C28": "Database connections match the configuration and secrets are never printed",
}
for x in P:
    x["title"] = SHORT.get(x["id"], x["title"])
out = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "properties.jsonl")
with open(out, "w") as f:
    for x in P:
        assert len(x["title"]) <= 80, (x["id"], len(x["title"]), x["title"])
        f.write(json.dumps(x) + "\n")
print(len(P))
