"""The properties and the checks: the source of properties.jsonl and MANIFEST.json."""

P = []


def prop(id, title, statement, over, over_text, why, files, mechanism, state=(), observe_at=None, technique="", level="exploration", note="", claimed=True, reason=""):
    P.append(dict(locals()))


prop(
    "C01", "Storage is granted only against enough valid passes bound to the request",
    "A storage server performs an allocation, a lease addition or a mutable write only when the request carries at least as many valid passes as the request costs, where a pass is valid only if it was signed for exactly this operation on exactly this storage index by the server's own key; a request that sets a mutable share's length is never performed. "
    "A refused request leaves the stored data, the leases and the record of spent passes exactly as they were, and the refusal reports exactly the number of valid passes, the number required and the positions of the passes that failed verification. "
    "Reads, share sizes, share stats and the version need no passes and change nothing.",
    ["inputs", "histories"],
    "every sequence of storage requests, every mix, order and number of valid, misbound, foreign, corrupted and malformed passes, every pass value, share size and lease age",
    "Tests present all-valid or all-invalid passes to fresh servers; which passes in a mixed list count, for which operation, against shares in which lease state is a product no sample covers.",
    ["src/_zkapauthorizer/_storage_server.py", "src/_zkapauthorizer/storage_common.py", "src/_zkapauthorizer/foolscap.py"],
    [("pass validation and price check before each storage-allocating operation", "src/_zkapauthorizer/_storage_server.py"), ("request binding messages", "src/_zkapauthorizer/storage_common.py")],
    technique="runtime monitoring: reference monitor (price and validity by construction, disk image comparison) over random hostile request histories on the real server and backend",
    note="The real server runs over a real Tahoe-LAFS backend in a scratch directory; passes are made with the Ristretto library alone so that validity is known by construction. Bound: histories of 14 requests, 1-3 storage indexes, shares up to six pass values.",
)

prop(
    "C02", "The client pays exactly the price the server charges, at the first attempt",
    "For every allocation, lease renewal and mutable write a client sends exactly as many passes as the operation costs - for each new or expired share the passes covering its full size, for each share that stays leased only the passes its growth adds, each share rounded up on its own - so that a server with the same pass value never refuses it for want of passes. "
    "When it succeeds the client gives up exactly the passes the server records as spent, and every other pass it drew becomes available again.",
    ["inputs", "histories", "configurations"],
    "every pass value, share count and size, existing share set, lease age at, before and after expiry, and write vector shape",
    "Tests compare client and server through the same pricing helper on fresh shares, so a fault common to both and the combination with expired, partly present or growing shares go unseen.",
    ["src/_zkapauthorizer/_storage_client.py", "src/_zkapauthorizer/_storage_server.py", "src/_zkapauthorizer/storage_common.py", "src/_zkapauthorizer/spending.py"],
    [("client side price computation from share sizes and stats", "src/_zkapauthorizer/_storage_client.py"), ("server side price computation", "src/_zkapauthorizer/_storage_server.py"), ("shared price arithmetic", "src/_zkapauthorizer/storage_common.py")],
    technique="runtime monitoring: independent price oracle and client/server spend conservation over random histories of the real client against the real server",
    note="Client, spending controller, token database and server are all real; only the network is replaced by a direct call which checks the declared protocol schema both ways.",
)

prop(
    "C03", "Paid storage time is granted in full, and only what was paid for",
    "Each share a granted request paid for - a newly allocated or created share, an existing share when its lease is renewed, or a written share whose leases had expired - carries a lease of exactly 31 days from the moment of the request. "
    "No granted or refused request changes any other lease, of another share or of another holder, on the server. "
    "The share sizes and lease expiry times the server reports are those of the completed shares it holds.",
    ["inputs", "histories"],
    "every sequence of requests by several lease holders at every age of the existing leases, the exact expiry instant included",
    "Tests look at one share with one lease right after one request; the boundary instants, the other holders' leases and the other shares are not looked at.",
    ["src/_zkapauthorizer/_storage_server.py"],
    [("lease addition after allocation and mutable write", "src/_zkapauthorizer/_storage_server.py"), ("share stat and size readers", "src/_zkapauthorizer/_storage_server.py")],
    technique="runtime monitoring: every lease of every share compared with a reference model after each request of random histories on a virtual clock",
    note="Leases are read back from the share files with Tahoe-LAFS's own readers after every request.",
)

prop(
    "C04", "Every granted request is recorded and counted as spending exactly once",
    "Each granted request hands to the spending record, exactly once and without duplicates, the validly presented passes that paid for it and none that failed verification; an allocation hands over passes only for the shares it really allocated. "
    "The published spending metric grows by one operation and by the number of passes consumed per granted request, in the bucket of that number, and by nothing for a refused request; when a metrics file is configured it holds these values at every export interval.",
    ["inputs", "histories"],
    "every sequence of granted and refused requests with surplus, exact and missing passes and shares already present",
    "Tests look at one operation at a time with exactly enough valid passes and fresh shares.",
    ["src/_zkapauthorizer/_storage_server.py", "src/_zkapauthorizer/server/spending.py", "src/_zkapauthorizer/_plugin.py"],
    [("spend recording after success", "src/_zkapauthorizer/_storage_server.py"), ("metric observation and textfile export", "src/_zkapauthorizer/_plugin.py")],
    technique="runtime monitoring: conservation check between presented passes, spend record and metric over random histories",
    note="The spending record is observed through the documented spender interface.",
)

prop(
    "C05", "A client's tokens are never lost, duplicated or spent twice",
    "At every moment each token a client has ever accepted is in exactly one of: available, held by one operation in progress, spent, or set aside as invalid. "
    "An operation that ends - by success, refusal, disconnection, cancellation or any error - leaves none of its tokens held: those that paid for a success are spent, those the server rejected are set aside, and all others are available again; concurrent operations never hold the same token, and a restart makes held tokens available again and keeps spent and rejected ones out of use.",
    ["schedules", "fault_sequences", "histories"],
    "every interleaving of concurrent storage operations, every outcome of every call, every rejection pattern, every restart point",
    "Tests run one operation at a time against at most one rejection; conservation over interleaved operations with mixed outcomes and restarts is not looked at.",
    ["src/_zkapauthorizer/_storage_client.py", "src/_zkapauthorizer/spending.py", "src/_zkapauthorizer/model.py"],
    [("retry loop replacing rejected passes", "src/_zkapauthorizer/_storage_client.py"), ("token states", "src/_zkapauthorizer/model.py"), ("pass groups", "src/_zkapauthorizer/spending.py")],
    technique="runtime monitoring: conservation monitor over the token ledger under random interleavings, injected faults, cancellations and restarts",
    note="Operations are interleaved at every remote call; the server side answers with success, refusal of any subset of passes, connection loss or arbitrary errors.",
)

prop(
    "C06", "Redeeming a voucher never loses paid-for value",
    "A voucher that has been stored is worked on until the issuer has granted all of its tokens, whatever errors, unpaid answers, lost replies, crashes and restarts come between: each part of it is requested in order, always with the same blinded tokens for the same part, so that a part the issuer already granted is granted again rather than refused. "
    "While the process runs, a voucher whose last attempt failed or was unpaid is tried again within a bounded number of retry intervals, without ever running two attempts for one voucher at once. "
    "When it completes, the client holds exactly as many tokens as were requested for the voucher, from every part exactly once.",
    ["fault_sequences", "crash_points", "schedules"],
    "every sequence of issuer answers and failures, every crash and restart point, every number of vouchers in progress",
    "Tests fail one attempt in one way; what a later attempt does after partial progress, after an unpaid answer, after a lost reply and across restarts is a sequence no test drives.",
    ["src/_zkapauthorizer/controller.py", "src/_zkapauthorizer/model.py"],
    [("redemption loop over groups", "src/_zkapauthorizer/controller.py"), ("retry loop", "src/_zkapauthorizer/controller.py"), ("persistence of random tokens per voucher and group", "src/_zkapauthorizer/model.py")],
    technique="runtime monitoring: model issuer that grants each voucher part once for one token set, with injected faults, lost replies and restarts; bounded-progress and value-conservation oracles",
    note="Liveness is decided as bounded progress on a virtual clock after faults stop.",
)

prop(
    "C07", "Only tokens proven to be signed by a permitted issuer key can be spent",
    "Tokens from a redemption are accepted only if the issuer's proof verifies for exactly the blinded tokens that were sent and the key that was reported; otherwise the attempt fails and nothing is stored. "
    "Tokens signed by a key that is not in the configured set are kept but are never offered for spending and never counted as spendable or in the voucher's reported token count, and this holds across restarts and later redemptions of the same voucher with permitted keys.",
    ["inputs", "fault_sequences", "histories"],
    "every issuer reply: wrong key, wrong proof, reordered, missing, additional or foreign signatures, malformed encodings; every sequence of permitted and unpermitted keys over a voucher's parts",
    "Tests cover one mismatched key and one bad proof; replies that are wrong in other places, and mixtures of keys over parts and restarts, are not tried.",
    ["src/_zkapauthorizer/controller.py", "src/_zkapauthorizer/model.py"],
    [("proof verification and unblinding", "src/_zkapauthorizer/controller.py"), ("redemption groups with a spendable mark", "src/_zkapauthorizer/model.py")],
    technique="runtime monitoring: adversarial model issuer with real Ristretto keys; every stored token checked against the keys by the harness",
    note="The issuer is a real in-memory HTTP resource with real signing keys.",
)

prop(
    "C08", "A voucher's reported state always tells the truth",
    "What the client reports for a voucher is, at every moment: in progress with the part number and start time while an attempt is running; otherwise complete with its finish time and token count once all parts are in, or refused as already spent with its finish time once the issuer said so, permanently; otherwise what the most recent attempt since start-up ended with - unpaid, or an error with its details - and pending with the number of completed parts before any attempt ended. "
    "The creation time and expected token count never change.",
    ["histories", "schedules", "fault_sequences"],
    "every sequence of attempts and outcomes, every moment of observation, every restart point",
    "Tests look at the state after one attempt; sequences in which one kind of failure follows another, and restarts, are not looked at.",
    ["src/_zkapauthorizer/controller.py", "src/_zkapauthorizer/model.py", "src/_zkapauthorizer/resource.py"],
    [("transient states merged over persistent ones", "src/_zkapauthorizer/controller.py"), ("persistent voucher state", "src/_zkapauthorizer/model.py")],
    technique="runtime monitoring: trace-specification monitor comparing the reported state after every event with a state machine fed from the issuer's side",
    note="The monitor runs on the same executions as C06, with its own workloads biased to alternating outcomes.",
)

prop(
    "C09", "Recovering from the replica restores exactly the replicated state",
    "Whenever replication has caught up, recovering into a new, empty client from the replica alone yields every voucher, token, redemption record, sequestered or invalid token and maintenance record that the original client holds, with the same contents, and all unspent tokens available for spending. "
    "At any other moment - between any two uploads, deletions or crashes - it yields the state as of some committed change no older than the last change that was replicated, never a mixture or a state that never existed, and it never fails; recovery of a recovered client gives the same again.",
    ["crash_points", "histories", "fault_sequences"],
    "every history of client operations, every interleaving with uploads and prunes, every point between replica operations",
    "Tests replay one hand-made stream onto one snapshot; overlapping streams, streams older than the snapshot, restarts and partial prunes do not occur in them.",
    ["src/_zkapauthorizer/replicate.py", "src/_zkapauthorizer/recover.py", "src/_zkapauthorizer/sql.py", "src/_zkapauthorizer/model.py"],
    [("recorded mutations and event stream", "src/_zkapauthorizer/replicate.py"), ("snapshot import and replay", "src/_zkapauthorizer/recover.py")],
    technique="runtime monitoring: offline checker comparing the recovered database with recorded committed states, at every replica state reached by random histories with faults and crashes",
    note="The replica is an in-memory directory which records every state it passes through; each such state is recovered into a fresh client.",
)

prop(
    "C10", "The event stream holds exactly the committed changes, in order",
    "Every change a committed transaction makes to the client's data is recorded for replication exactly once, with its values, in execution order and with increasing sequence numbers, and nothing is recorded that was rolled back, was only read, or concerns only the current process. "
    "Applying the recorded changes, as encoded for upload and decoded again, to a copy of the data taken when recording began reproduces the data.",
    ["histories", "inputs", "fault_sequences"],
    "every mixture of transactions that commit, fail part-way or are nested in failures, every value type and statement shape the client uses, hostile text and binary values",
    "Tests record one or two statements; failures inside transactions, bulk statements and the values' round trip through encoding are sampled at single points.",
    ["src/_zkapauthorizer/replicate.py", "src/_zkapauthorizer/sql.py"],
    [("recording connection and cursor", "src/_zkapauthorizer/replicate.py"), ("statement binding and encoding", "src/_zkapauthorizer/sql.py")],
    technique="runtime monitoring: shadow database fed from the decoded event stream and compared with the real one after every transaction of random histories with injected failures",
    note="Statements are the store's own operations and a generator of SQL of the same shapes.",
)

prop(
    "C11", "Replication uploads promptly, retries, and prunes only what a snapshot covers",
    "A change that cannot be recreated from anywhere else is uploaded at once, other changes once enough of them have gathered, each upload holding every change not yet known to be uploaded, and failed uploads are tried again until they succeed without any change being dropped from what is still to be uploaded. "
    "When a snapshot has been uploaded, the event streams it covers - and nothing else - are removed from the replica, only after the snapshot itself is safely there; a new snapshot is made when the replica has grown beyond its configured factor and not before.",
    ["schedules", "fault_sequences", "histories"],
    "every order of changes, upload completions, failures and snapshot requests, every size of change around the thresholds",
    "Tests check one upload and one snapshot at a time; the order in which jobs, failures and further changes meet is not driven.",
    ["src/_zkapauthorizer/replicate.py", "src/_zkapauthorizer/_plugin.py"],
    [("replication service queue and jobs", "src/_zkapauthorizer/replicate.py"), ("cost based snapshot policy", "src/_zkapauthorizer/_plugin.py")],
    technique="runtime monitoring: trace-specification monitor over the sequence of commits, uploads, failures and prunes on a virtual clock",
    note="Uploads complete, fail and are delayed under control of the workload.",
)

prop(
    "C12", "Recovery never touches existing state and reports its outcome faithfully",
    "Recovery is carried out only into a client without vouchers and only once per process; a request to recover a client that already has state is refused and changes nothing. "
    "If the replica is missing, unreadable, truncated or corrupted, recovery ends in a failure that is reported as such, and it reports success only if everything in the replica was applied. "
    "Every observer is told every stage in order, ending with exactly one final stage, whenever it starts observing; an observer asking for a different replica is rejected without disturbing the others.",
    ["inputs", "schedules", "fault_sequences"],
    "every replica content including damaged ones, every moment at which clients connect, repeat or disagree, every point at which a download fails",
    "Tests recover from one well-formed replica with one observer.",
    ["src/_zkapauthorizer/recover.py", "src/_zkapauthorizer/resource.py", "src/_zkapauthorizer/model.py"],
    [("emptiness guard", "src/_zkapauthorizer/model.py"), ("recovery stages and observers", "src/_zkapauthorizer/recover.py"), ("recovery websocket", "src/_zkapauthorizer/resource.py")],
    technique="runtime monitoring: stage-sequence monitor and database comparison over damaged replicas, download faults and scheduled websocket observers",
    note="Observers are driven through the real websocket protocol objects over in-memory transports and through the recovery object itself.",
)

prop(
    "C13", "Every client HTTP endpoint requires the API token",
    "No request to any path below the client's web resource, whatever its method, headers, body or spelling of the path, reads or changes anything or tells existing from missing paths unless it carries the node's API token in the documented authorization scheme; all others are answered 401. "
    "The token is compared in full and byte for byte.",
    ["inputs"],
    "every method, path, header spelling, near-miss token and malformed credential",
    "Tests try a few paths with one wrong credential.",
    ["src/_zkapauthorizer/private.py", "src/_zkapauthorizer/resource.py"],
    [("credential check wrapping the resource tree", "src/_zkapauthorizer/private.py")],
    technique="runtime monitoring: request fuzzing through the real HTTP server stack with a monitor on the store and the response",
    note="Requests are parsed by Twisted's real HTTP server over an in-memory transport.",
)

prop(
    "C14", "Vouchers submitted over HTTP are validated, stored durably and never duplicated",
    "A well-formed voucher submission is answered with success only once the voucher is durably stored with its redemption material, and repeating it changes nothing; a malformed submission or voucher number is answered 400 and stores nothing. "
    "Listing and single retrieval report exactly the stored vouchers with their truthful state and 404 for any other well-formed number.",
    ["inputs", "histories"],
    "every body, content type and voucher number, valid or hostile, every order and repetition of submissions and reads, and crashes right after an answer",
    "Tests use generated valid numbers and a few kinds of invalid ones, and do not look at durability at the time of the answer.",
    ["src/_zkapauthorizer/resource.py", "src/_zkapauthorizer/validators.py", "src/_zkapauthorizer/model.py", "src/_zkapauthorizer/controller.py"],
    [("voucher collection resource", "src/_zkapauthorizer/resource.py"), ("voucher number validation", "src/_zkapauthorizer/validators.py")],
    technique="runtime monitoring: request histories against a model of the voucher collection, with the database file read independently at each answer",
    note="Requests go through the real HTTP server stack; durability is read through a second database connection.",
)

prop(
    "C15", "Price calculation over HTTP matches what storage really costs",
    "For any list of object sizes the price endpoint answers the number of passes that storing those objects for one period costs with the configured encoding - for each object the share size for the needed shares, rounded up to whole passes, times the total number of shares - and the period of 31 days, less the configured minimum remaining lease time, in seconds. "
    "A request of any other version, shape or value type is answered 400, and asking never changes anything.",
    ["inputs", "configurations"],
    "every list of sizes, encoding parameters and pass value; every malformed body",
    "Tests compare with the same helper code the endpoint uses.",
    ["src/_zkapauthorizer/pricecalculator.py", "src/_zkapauthorizer/resource.py", "src/_zkapauthorizer/storage_common.py"],
    [("price calculator", "src/_zkapauthorizer/pricecalculator.py"), ("price endpoint", "src/_zkapauthorizer/resource.py")],
    technique="runtime monitoring: independent integer-arithmetic oracle over fuzzed requests through the real HTTP stack",
    note="The oracle uses exact integers and sizes up to very large values.",
)

prop(
    "C16", "Lease maintenance renews every reachable due share once and accounts for it",
    "One maintenance run visits every file and directory reachable from every root exactly once, whatever the directory graph looks like, and on every connected storage server renews this client's lease on every visited storage index which has a share whose last lease expires within the configured minimum, and no other, as long as there are passes. "
    "A directory that cannot be read, a server that fails, a renewal that fails, or a share that is missing or that its server cannot read does not keep the others from being renewed. "
    "The recorded activity of the run is the exact number of passes needed for the shares it saw, with its start and end, and is reported as the latest activity only once the run has finished.",
    ["inputs", "fault_sequences", "schedules"],
    "every directory graph with sharing and cycles, every set of servers, shares and lease ages, every failing call",
    "Tests use small trees without sharing and servers that all answer.",
    ["src/_zkapauthorizer/lease_maintenance.py", "src/_zkapauthorizer/model.py", "src/_zkapauthorizer/_plugin.py"],
    [("directory traversal", "src/_zkapauthorizer/lease_maintenance.py"), ("lease renewal decision", "src/_zkapauthorizer/lease_maintenance.py"), ("activity record", "src/_zkapauthorizer/model.py")],
    technique="runtime monitoring: exactly-once and accounting monitors over runs on random directory graphs and servers with injected faults",
    note="Fake directory nodes and servers record every call; the store is real.",
)

prop(
    "C17", "Lease maintenance runs on schedule and survives restarts and failures",
    "While the client runs, the next maintenance run starts at a random time between the mean interval minus half the range and the mean interval plus half the range after the end of the last one, never overlapping another; the end of every run, failed or not, is recorded, and after a restart the next run is due by the same rule counted from the last recorded run, at once if overdue and within one interval if none is recorded. "
    "Neither a failing run nor a failure to record it ends the schedule, a stopped service begins no run, and the recorded time of the last run is what was written whole by the last run, whatever point a crash hits.",
    ["schedules", "crash_points", "fault_sequences", "configurations"],
    "every interval configuration, every run duration and outcome, every restart and crash point, every content of the recorded time file",
    "Tests check one or two timer firings.",
    ["src/_zkapauthorizer/lease_maintenance.py", "src/_zkapauthorizer/config.py", "src/_zkapauthorizer/_plugin.py"],
    [("randomised timer service", "src/_zkapauthorizer/lease_maintenance.py"), ("last-run file", "src/_zkapauthorizer/lease_maintenance.py")],
    technique="runtime monitoring: timing monitor on a virtual clock over many runs, restarts and failures",
    note="Bounded: tens of runs per execution.",
)

prop(
    "C18", "Upgrading a database of any earlier version keeps its data and leaves it usable",
    "Opening a database written by any earlier schema version keeps every voucher, its state, counts and times (as instants, to the second where they had no time zone), every unspent and every invalid token, every random token, every maintenance record and every recorded change, makes exactly the tokens spendable that were spendable, and leaves a database on which every operation works as on a new one. "
    "An upgrade interrupted at any point leaves the old version or the new one, never anything in between, and opening an up-to-date database changes nothing.",
    ["inputs", "crash_points"],
    "every earlier version, every content such a database can hold, every statement at which the upgrade is interrupted",
    "Tests upgrade a few hand-written databases by one or two versions and look at one table.",
    ["src/_zkapauthorizer/schema.py", "src/_zkapauthorizer/model.py"],
    [("schema upgrades", "src/_zkapauthorizer/schema.py"), ("upgrade on open", "src/_zkapauthorizer/model.py")],
    technique="runtime monitoring: random old databases upgraded by the real code with interruption at every statement; oracle reads old and new contents independently",
    level="fault_enumeration",
    note="Every statement of the upgrade is an interruption point.",
)

prop(
    "C19", "Every client database operation takes effect completely or not at all",
    "Each operation on the client's database - adding a voucher, storing redeemed tokens, taking, returning, spending or invalidating tokens, marking a voucher spent, recording maintenance - either has its whole effect, durably, or none, when any statement in it fails or the process dies at any point in it; an operation that reported success survives any later crash. "
    "Requests that cannot be met - more tokens than available, an unknown voucher, a state that does not permit it - raise the documented error and change nothing.",
    ["crash_points", "fault_sequences", "histories"],
    "every operation in every state, every statement at which it fails or the process is killed",
    "Tests only run operations to completion.",
    ["src/_zkapauthorizer/model.py", "src/_zkapauthorizer/replicate.py"],
    [("transaction decorator", "src/_zkapauthorizer/model.py"), ("connection wrapper", "src/_zkapauthorizer/replicate.py")],
    technique="runtime monitoring: statement-level fault injection and copies of the database files taken at every statement, compared with a reference model",
    level="fault_enumeration",
    note="A crash is modelled by copying the database and its journal between any two statements and opening the copy.",
)

prop(
    "C20", "What is serialised reads back as the same value",
    "A voucher in any state reads back from its JSON form as the same voucher, and every value, statement and event written to the replica reads back from its encoded form as the same value; anything that is not such an encoding is refused with an error instead of being read as something else. "
    "Replaying a recorded statement with its recorded arguments has exactly the effect of the statement executed with those values.",
    ["inputs"],
    "every voucher state and time, every SQL value including extreme integers, floats, empty and hostile text and binary, every truncated or mutated encoding",
    "Property tests in the suite sample ordinary values of some of these types.",
    ["src/_zkapauthorizer/model.py", "src/_zkapauthorizer/replicate.py", "src/_zkapauthorizer/sql.py", "src/_zkapauthorizer/recover.py", "src/_zkapauthorizer/validators.py"],
    [("voucher JSON", "src/_zkapauthorizer/model.py"), ("event stream encoding", "src/_zkapauthorizer/replicate.py"), ("argument replay", "src/_zkapauthorizer/recover.py"), ("base64 validation", "src/_zkapauthorizer/validators.py")],
    technique="runtime monitoring: round-trip and differential oracles (sqlite as reference) over generated and mutated values",
    note="Snapshots are only given values which the client stores: sqlite's own dump has no exact text form for infinities or NUL characters inside text.",
)

prop(
    "C21", "Replication is set up exactly once and its secret stays local",
    "Configuring replication creates one replica directory, writes its write capability whole into the node's private directory before reporting success, and answers with the matching read-only capability and never the writable one. "
    "Repeated, concurrent or interrupted configuration never replaces an existing replica: later requests report the same read-only capability, a failed attempt leaves nothing configured and can be repeated, and after a restart the configured replica is the one that is used.",
    ["schedules", "fault_sequences", "histories"],
    "every number and interleaving of concurrent requests, every failure of the directory creation or of the disk, every death of the process, every restart",
    "Tests make one request and one repeat.",
    ["src/_zkapauthorizer/replicate.py", "src/_zkapauthorizer/resource.py", "src/_zkapauthorizer/_plugin.py", "src/_zkapauthorizer/config.py"],
    [("replication setup", "src/_zkapauthorizer/replicate.py"), ("replicate endpoint", "src/_zkapauthorizer/resource.py")],
    technique="runtime monitoring: scheduled concurrent setups with injected faults; monitor on the private directory, the HTTP answers and the directories created",
    note="Loss of power is not modelled: the capability file is not fsynced. A directory whose creation was answered too late is left on the grid and not judged.",
)

prop(
    "C22", "Replica storage operations act on exactly the addressed object or fail",
    "Uploading, downloading, listing, linking, unlinking and creating directories through the Tahoe-LAFS web interface act on exactly the named entry of the addressed directory, for every entry name, transfer the bytes unchanged, and report success only when the server did; temporary unavailability is retried and any other failure is raised with its details, without giving any capability away. "
    "A listing tells files, directories and their sizes apart as the server reports them, and an upload whose entry replaces another removes none but that entry.",
    ["inputs", "fault_sequences"],
    "every entry name including separators, dots, percent signs and non-ASCII, every content, every status and connection failure, every malformed reply",
    "Tests use alphanumeric names against a cooperative fake.",
    ["src/_zkapauthorizer/tahoe.py", "src/_zkapauthorizer/replicate.py", "src/_zkapauthorizer/recover.py"],
    [("HTTP client functions", "src/_zkapauthorizer/tahoe.py"), ("retry decorator", "src/_zkapauthorizer/tahoe.py")],
    technique="runtime monitoring: the real client against an independent model of the Tahoe-LAFS web API over in-memory HTTP, with injected statuses and connection faults",
    note="The model server is written for the check and parses raw request URIs itself. MDMF files and immutable directories, which the third-party capability parser does not know, are not generated; redirects are not either.",
)

prop(
    "C23", "The wire protocol admits exactly what client and server use",
    "Every request and reply that a client and server of this software exchange is admitted by the declared wire schema, and requests with too many, too long, too short or wrongly typed passes or parameters are refused by it before anything is performed. "
    "A client refuses to use a reference that is not to an authorizing storage server, and raises rather than passes on replies of the wrong type.",
    ["inputs"],
    "every request shape up to and beyond the declared limits, every wrongly typed reply",
    "Tests exchange a few well-formed requests.",
    ["src/_zkapauthorizer/foolscap.py", "src/_zkapauthorizer/_storage_client.py"],
    [("remote interface declaration", "src/_zkapauthorizer/foolscap.py"), ("reply validation", "src/_zkapauthorizer/_storage_client.py")],
    technique="runtime monitoring: real Foolscap connections in memory carrying generated requests and replies, monitored at both ends",
    note='Message schemas are taken as declared; types inside ShareStat and negative numbers are not judged.',
)

prop(
    "C24", "Configuration takes effect as documented and bad configuration is refused",
    "Every documented setting - pass value, issuer address, permitted keys, redeemer, default token count, maintenance intervals, minimum lease time, signing key, metrics file and interval - takes effect with exactly the configured value, and with its documented default when absent; a value that cannot be honoured is refused at start-up with an error instead of being replaced or ignored. "
    "A client refuses a storage server which announces another issuer than the configured one.",
    ["configurations", "inputs"],
    "every combination of present, absent and malformed settings",
    "Tests read single settings.",
    ["src/_zkapauthorizer/_plugin.py", "src/_zkapauthorizer/config.py", "src/_zkapauthorizer/storage_common.py", "src/_zkapauthorizer/controller.py"],
    [("plugin factory functions", "src/_zkapauthorizer/_plugin.py"), ("lease maintenance configuration", "src/_zkapauthorizer/config.py")],
    technique="runtime monitoring: generated node configurations loaded through the plugin entry points, effects observed on the objects they produce",
    note='Metrics with only one of the two settings, an interval of 0, an interval range above twice the mean, an empty list of keys and equivalent spellings of one URL are not judged.',
)

prop(
    "C25", "A token bought from an issuer buys storage on that issuer's servers",
    "Tokens redeemed through the real protocol from an issuer become passes which a storage server holding the issuer's key accepts, each for exactly the request it was made for, and which a server with another key, or the same server for another request, rejects. "
    "No pass reveals the token's redemption: nothing sent to the issuer appears in any pass.",
    ["inputs", "histories"],
    "every sequence of purchases and storage operations",
    "Tests use the real cryptography for single steps only.",
    ["src/_zkapauthorizer/controller.py", "src/_zkapauthorizer/spending.py", "src/_zkapauthorizer/_storage_server.py", "src/_zkapauthorizer/_storage_client.py"],
    [("blinding and unblinding", "src/_zkapauthorizer/controller.py"), ("pass construction", "src/_zkapauthorizer/controller.py"), ("pass validation", "src/_zkapauthorizer/_storage_server.py")],
    technique="runtime monitoring: end-to-end executions of issuer, client and server with linkage and acceptance monitors",
    note='The same pass presented twice for the same request is not judged: the server keeps no record of double spending and promises none.',
)

prop(
    "C26", "Nothing that is as good as money, data or access is written to a log",
    "Whatever clients and servers do and whatever goes wrong, nothing they write to their logs or print contains a token, a pass, the blinding material of a token, a capability, a lease secret or write enabler, the node's API token or a storage server's signing key, whole or in recognisable part; where an object has to be identified in a log this is done in a form from which its capability cannot be recovered. "
    "Voucher numbers are logged on purpose and are exempt.",
    ["inputs", "fault_sequences", "histories"],
    "every operation of client and server, every refusal, malformed request and failure of a database, grid, issuer or connection",
    "Tests check single log messages for what they contain; what a failure drags into a log depends on which operation failed with which values and where.",
    ["src/_zkapauthorizer/tahoe.py", "src/_zkapauthorizer/resource.py", "src/_zkapauthorizer/eliot.py", "src/_zkapauthorizer/_storage_server.py", "src/_zkapauthorizer/controller.py", "src/_zkapauthorizer/model.py"],
    [("scrubbing of capabilities", "src/_zkapauthorizer/tahoe.py"), ("choice of logged arguments", "src/_zkapauthorizer/_storage_server.py"), ("failures logged while serving requests", "src/_zkapauthorizer/resource.py")],
    technique="runtime monitoring: an observer on every log (Twisted, Eliot, logging, standard streams) searching for every secret of the execution, over the workloads of all other checks and its own",
    note="A part of a secret shorter than 24 characters is not recognised, nor is a secret that is encoded in a way of its own. Bodies of error responses of the Tahoe-LAFS node, which are logged, are taken to contain no capabilities.",
)
