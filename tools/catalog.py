"""
The one source of properties.jsonl and MANIFEST.json:  python3 tools/catalog.py
A property is claimed when checks/<id>.py exists.
"""
import json
import os

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
S = "src/_zkapauthorizer/"

P = []


def prop(id, title, statement, over, text, why, files, mech, technique, level, note,
         state=(), observe=(), na=None):
    P.append(dict(
        id=id, title=title, statement=" ".join(statement.split()),
        over=over, text=" ".join(text.split()), why=" ".join(why.split()),
        files=[S + f for f in files],
        mech=[dict(name=n, where=S + w) for n, w in mech],
        technique=technique, level=level, note=" ".join(note.split()),
        state=[dict(name=n, meaning=m, where=S + w) for n, m, w in state],
        observe=list(observe), na=na,
    ))


STATELESS = "stateless model checking of the real code: exhaustive DFS over choices with state merging"
FAULTS = "exhaustive crash/fault point enumeration on the real code, inside a stateless exploration of operations"
BFS = "explicit-state exploration of the real code against a reference model, all operation sequences up to a depth"
ENUM = "exhaustive enumeration of a bounded input space on the real code against a reference model"

# --------------------------------------------------------------------------
prop("R01", "Voucher redemption conserves value",
"""Over any sequence of redemption attempts, failures, retries, process crashes and
restarts, a paid voucher yields each of its expected tokens exactly once: no token is
lost, none is stored twice, and a group of tokens which the issuer may have seen is
always resubmitted with the very same blinded tokens and the same counter until it is
answered.  Redemption always resumes and completes once the issuer and the database
answer again, and the reported voucher state and token count agree with what was
stored.""",
["histories", "crash_points", "fault_sequences", "schedules"],
"""every interleaving of voucher submissions, issuer answers (success, unpaid,
double-spend, transient error), clock ticks, database errors and crash/restart, within
the stated numbers of vouchers, groups, crashes and bad answers""",
"""the tests follow a few straight histories with an in-memory issuer which always
answers the same way; none crashes between two statements nor restarts mid-group""",
["controller.py", "model.py", "resource.py"],
[("redemption loop and retry clock", "controller.py:PaymentController"),
 ("durable random tokens and group counter", "model.py:VoucherStore.add, insert_unblinded_tokens_for_voucher"),
 ("restart", "controller.py:PaymentController.__attrs_post_init__")],
STATELESS, "model_checking",
"""All histories within the bounds on the real PaymentController and VoucherStore over
real SQLite; the issuer is a model which remembers (voucher, counter, blinded tokens).
Trusts SQLite commit atomicity.""")

prop("R02", "Only proven tokens are accepted from the issuer",
"""A redemption answer results in stored tokens only if it is well formed, marks
success, carries a batch proof valid under the public key it names for exactly the
submitted blinded tokens, and has as many signatures as tokens; the resulting tokens
verify under that key.  Every other answer is reported as already-redeemed, unpaid or a
retryable error according to the issuer's documented reason, and never changes what is
submitted next time.""",
["inputs", "fault_sequences"],
"""every single structural mutation of a genuine redemption answer (status, success
flag, reason, key, each signature dropped/duplicated/swapped/corrupted, proof
corrupted, wrong JSON types, truncated body) at every token count in bounds""",
"""the tests have one bad answer of each of a few kinds and never mutate a genuine
answer field by field""",
["controller.py"],
[("RistrettoRedeemer.redeemWithCounter", "controller.py:RistrettoRedeemer"),
 ("challenge bypass proof check", "controller.py:BatchDLEQProof.invalidate_or_unblind")],
ENUM, "exploration",
"""Real Ristretto cryptography through challenge_bypass_ristretto on enumerated HTTP
answers from a scripted issuer.""")

prop("R03", "Tokens signed by a foreign key are never spent",
"""Tokens that an issuer signed with a key which is not one of the configured keys are
kept but never counted as spendable and never given out for spending, in any
combination of voucher groups and vouchers, across restarts.  Tokens signed by a
configured key stay spendable.""",
["histories", "crash_points"],
"""every assignment of configured or foreign keys to the groups of up to two vouchers,
in every interleaving with failures, crashes and restarts""",
"""the tests redeem one voucher with one foreign key""",
["controller.py", "model.py"],
[("allowed public keys", "controller.py:PaymentController._redeem_success"),
 ("completed/spendable marking", "model.py:VoucherStore.insert_unblinded_tokens_for_voucher")],
STATELESS, "model_checking",
"""The state space of R01 with keys chosen per group and a spending epilogue.""")

# --------------------------------------------------------------------------
prop("S01", "A token is spent at most once and never lost",
"""At every moment each stored token is in exactly one of: spendable, in use by one
operation, spent, or set aside as invalid; taking tokens never hands the same token to
two operations, and fails without any effect when too few are left.  Releasing,
spending, invalidating or splitting a batch of passes moves exactly its own tokens;
tokens in use become spendable again after a restart and all others keep their state
across crashes.""",
["histories", "crash_points", "fault_sequences"],
"""all sequences up to a depth of take / split / expand / spend / invalidate / reset on
any pair of open batches, of restarts, and of a crash or database error at every
statement, from stores with two vouchers""",
"""the tests use one batch at a time with random sizes and never crash between
statements; the number of operation sequences is exponential""",
["model.py", "spending.py"],
[("token tables and in-use tracking", "model.py:VoucherStore.get_unblinded_tokens, discard_unblinded_tokens, invalidate_unblinded_tokens, reset_unblinded_tokens"),
 ("batches", "spending.py:PassGroup, SpendingController")],
BFS, "model_checking",
"""All operation sequences within the bounds on the real VoucherStore and
SpendingController over real SQLite, compared after every step with a set model.""")

prop("S02", "A storage call accounts for every pass it takes",
"""For every paid storage call by the client, under every server answer (accepted,
partly accepted, some or all passes rejected, error, lost connection) or cancellation,
and every interleaving of concurrent calls, each pass taken ends up in exactly one of:
spent if the server accepted the call (for an allocation: only as many, from the front,
as the shares really allocated cost), set aside if the server rejected that pass, and
spendable again otherwise.  The number of passes sent is exactly the price of the call,
every pass sent is bound to that call, rejected passes are never sent again and are
replaced by fresh ones, and the caller sees the server's answer or the failure.""",
["schedules", "fault_sequences", "inputs"],
"""every paid method with every subset of shares already present and every subset of
rejected passes, up to two calls in flight, every order of answers""",
"""the tests have a well behaved server and one call at a time""",
["_storage_client.py", "spending.py"],
[("call_with_passes retry loop", "_storage_client.py:call_with_passes, call_with_passes_with_manual_spend"),
 ("allocate_buckets partial spending", "_storage_client.py:ZKAPAuthorizerStorageClient.allocate_buckets"),
 ("batches", "spending.py:PassGroup")],
STATELESS, "model_checking",
"""All answer scripts and interleavings within the bounds on the real client, spending
controller and store with a model server.""")

prop("S03", "The storage server gives nothing without payment",
"""In every state of the server, an allocation, mutable write or lease renewal takes
effect only if the call carries at least the price in valid passes bound to that
operation and storage index; otherwise it is refused with the price, the number of valid
passes and the positions of the invalid ones, and changes nothing.  Every share written
or allocated by an accepted call ends with an unexpired lease, no call adds or renews a
lease it was not charged for, and passes are recorded as spent exactly when the call was
accepted (for an allocation, only those that pay for the shares really allocated).
Detecting double spending is out of scope.""",
["histories", "inputs", "fault_sequences"],
"""all sequences up to a depth of paid calls with every combination of pass count and
validity, of share sizes around the price boundaries, of clock advances past lease
expiry""",
"""the tests check single calls on a fresh server with random data; the interaction of
expiry, existing shares and price boundaries is never enumerated""",
["_storage_server.py", "storage_common.py"],
[("pass validation", "_storage_server.py:_ValidationResult, validate_passes"),
 ("prices", "_storage_server.py:get_writev_price, storage_common.py:required_passes"),
 ("leases", "_storage_server.py:add_leases_for_writev, ZKAPAuthorizerStorageServer")],
BFS, "model_checking",
"""All call sequences within the bounds on the real server wrapping Tahoe-LAFS's real
storage server in a scratch directory, against a reference price and lease model.""")

prop("S04", "Client, server and price API agree on every price",
"""For every share set, size and existing server state the number of passes which the
client sends is exactly the number the server requires, and it is the documented price:
for an allocation or renewal, the sum over shares of the share size divided by the pass
value, rounded up per share; for a mutable write, per written share the rounded-up price
of its size after the write, less the rounded-up price of its size before it if it has
an unexpired lease.  The price quoted for a list of file sizes is the sum over the files
of the number of total shares times the rounded-up price of one share's data, for any
encoding parameters and pass value, and the reported cost of a maintenance run is the
price of renewing everything it observed.""",
["inputs", "configurations"],
"""every size around each boundary, share count up to a bound, every erasure encoding
in bounds, every shape of mutable write (new, in place, extension, truncation,
lease expired)""",
"""price agreement relates three separately written computations over a product of
inputs; the tests sample each alone""",
["storage_common.py", "pricecalculator.py", "_storage_client.py", "_storage_server.py", "model.py"],
[("required_passes", "storage_common.py:required_passes, share_size_for_data"),
 ("mutable price", "storage_common.py:get_required_new_passes_for_mutable_write"),
 ("calculator", "pricecalculator.py:PriceCalculator")],
ENUM, "exploration",
"""Exhaustive in the stated bounds; the oracle is an independently written price
function and the real encoder arithmetic.""")

# --------------------------------------------------------------------------
prop("P01", "The replica restores the local state after any crash",
"""Once replication is set up, at every point - including after a crash between any two
statements, uploads or file operations and after a restart - recovering from the
replica yields exactly the durable local state as of some recent committed
transaction, and once uploads have caught up it yields exactly the current state.  A
voucher that was accepted is in the replica, with its random tokens, once the uploads
which that triggers are done, and is never missing from it after that, whatever the order of snapshot uploads, event-stream uploads, prunings and
upload failures.""",
["crash_points", "schedules", "fault_sequences", "histories"],
"""every interleaving of store operations, upload triggers, upload completions and
failures, crashes and restarts within the bounds; at every state a recovery is made
from the replica and compared""",
"""the tests upload once to a fake grid and compare once; they never crash between
upload and prune nor recover from two overlapping event streams""",
["replicate.py", "recover.py", "model.py"],
[("replication service", "replicate.py:_ReplicationService"),
 ("event recording", "replicate.py:_ReplicationCapableConnection, model.py:VoucherStore"),
 ("recovery", "recover.py:recover")],
FAULTS, "model_checking",
"""Real replication service, store and recovery over real SQLite with a model grid.""")

prop("P02", "Every committed change is in the event stream, and no other",
"""With replication on, the sequence of recorded changes is at every commit and crash
point exactly the sequence of mutating statements of the committed transactions, in
order, with their arguments: no change of a transaction that was rolled back appears,
none of a committed one is missing, and bookkeeping of the replication itself never
appears.""",
["crash_points", "histories", "fault_sequences"],
"""all sequences of transactions (committed, rolled back, nested use, failing
statement, important or not) up to a depth, with a crash at each statement and commit""",
"""the tests run successful transactions only""",
["replicate.py", "sql.py"],
[("recording connection", "replicate.py:_ReplicationCapableConnection, _ReplicationCapableCursor"),
 ("event table", "replicate.py:add_events, get_events, prune_events_to")],
FAULTS, "model_checking",
"""All transaction sequences within the bounds on the real connection wrapper over
real SQLite, against a list model.""")

prop("P03", "Snapshots and event streams round-trip exactly",
"""A database written as a snapshot and recovered has the same tables, columns, rows
and values, for every SQL value the store can hold (integers at the limits, floats,
texts with any characters, blobs, NULL); an event stream survives encoding and
decoding and its replay gives what executing the original statements gave.""",
["inputs"],
"""every value from a table of boundary values in every column type and constraint
combination, every statement shape in bounds""",
"""round trip tests sample values of restricted alphabets""",
["replicate.py", "recover.py", "sql.py"],
[("snapshot", "replicate.py:snapshot, netstring, statements_to_snapshot"),
 ("event stream", "replicate.py:EventStream"),
 ("import", "recover.py:statements_from_snapshot, recover_snapshot, recover_event_stream")],
ENUM, "exploration",
"""Exhaustive over the stated value tables on the real encoder and decoder.""")

prop("P04", "Recovery touches only an empty store and is all or nothing",
"""Recovery starts only on a store that holds no vouchers (and so no tokens),
otherwise it is refused without any effect; at most one recovery ever runs.  A
recovery that fails, or is cut short by a crash at any point, leaves the store as it
was before or fully recovered, and reports the stage it failed in.""",
["crash_points", "schedules", "fault_sequences"],
"""every initial store content, every download failure, every corruption position of
the replica in bounds, every crash point during the import, two overlapping recovery
requests""",
"""the tests use one failing downloader and never crash during the import""",
["recover.py", "model.py"],
[("stateful recovery", "recover.py:StatefulRecoverer, recover"),
 ("emptiness test", "model.py:VoucherStore.call_if_empty, is_empty")],
FAULTS, "fault_enumeration",
"""Real recoverer and store over real SQLite with enumerated faults.""")

prop("P05", "Replication is set up at most once and never loses the capability",
"""Concurrent and repeated requests to set up replication, with failures and crashes at
any point, create at most one live replica: once a read-only capability was returned
every later request returns that same capability, and it reads what the node writes
with the stored write capability.""",
["schedules", "crash_points", "fault_sequences"],
"""every interleaving of up to three set-up requests with directory-creation failures,
and a crash at every file operation followed by a restart""",
"""the tests make one or two sequential requests""",
["replicate.py", "resource.py"],
[("setup", "replicate.py:setup_tahoe_lafs_replication, get_replica_rwcap"),
 ("API", "resource.py:ReplicateResource")],
FAULTS, "fault_enumeration",
"""Real set-up code on real files with a model Tahoe client.""")

prop("P06", "The recovery API reports every outcome to every client",
"""Each client of the recovery interface gets either the full sequence of progress
states, ending in success or the failure that happened and a closed connection, or a
refusal with the reason; a second capability is refused while or after a recovery, and no client is left
waiting after the recovery ended.""",
["schedules", "inputs"],
"""every interleaving of up to three connections, messages (well formed or not, same or
different capability), recovery progress, failure and disconnects""",
"""the tests have one client at a time, and one with the same capability""",
["resource.py", "recover.py"],
[("protocol", "resource.py:RecoverProtocol, RecoverFactory"),
 ("states", "recover.py:StatefulRecoverer")],
STATELESS, "model_checking",
"""Real protocol and factory with a recorded transport.""")

# --------------------------------------------------------------------------
prop("M01", "Database upgrade keeps all data from any version and crash point",
"""Opening a store made by any earlier schema version yields the current schema with
every voucher, token, and setting preserved; an upgrade cut short by a crash or error
at any statement continues or restarts to the same result, and upgrading twice changes
nothing.""",
["crash_points", "configurations", "histories"],
"""every starting version, populated with every combination of row kinds in bounds,
with a crash or error at every statement of the upgrade, up to two crashes""",
"""the tests upgrade each version once from nearly empty databases""",
["schema.py", "model.py"],
[("upgrades", "schema.py:get_schema_upgrades, run_schema_upgrades"),
 ("open", "model.py:initialize_database, open_database")],
FAULTS, "fault_enumeration",
"""Real upgrade code over real SQLite.""")

prop("L01", "Lease maintenance renews exactly the leases that need it",
"""Over any directory graph reachable from the maintained roots, including shared
subdirectories and cycles, one run of lease maintenance visits every reachable object
once, and renews the lease of each object's shares on each server exactly when the
lease there is missing or expires before the chosen threshold; an unreadable directory
or a failing server does not keep the others from being maintained, and the observer
sees each stored share's size once.""",
["inputs", "fault_sequences", "schedules"],
"""all rooted directed graphs up to a number of nodes with all kinds of leaf, all
combinations of remaining lease time around the threshold on up to two servers, all
single failures""",
"""the tests use trees of random shape and servers which never fail""",
["lease_maintenance.py"],
[("visit", "lease_maintenance.py:visit_storage_indexes"),
 ("renewal decision", "lease_maintenance.py:renew_leases, needs_lease_renew")],
ENUM, "exploration",
"""Exhaustive in the bounds on the real visiting and renewal code with model nodes and
servers.""")

prop("L02", "Lease maintenance always runs again in time",
"""Whatever the record of the last run says (missing, garbled, past, future), the next
run is scheduled within the configured interval of the last one and never in an
overlapping way; after a run succeeds or fails another is always scheduled and the
record is updated, and stopping the service stops it without a late run or an
error.""",
["histories", "schedules", "configurations"],
"""all sequences of starts, stops, clock advances, operation completions and failures
up to a depth, all extreme random choices, all contents of the record""",
"""the tests start once and advance once""",
["lease_maintenance.py"],
[("timer service", "lease_maintenance.py:_FuzzyTimerService"),
 ("last run record", "lease_maintenance.py:lease_maintenance_service, read_time_from_path, write_time_to_path")],
STATELESS, "model_checking",
"""All event sequences in the bounds on the real service with a model clock.""")

# --------------------------------------------------------------------------
prop("H01", "No private resource is reachable without the token",
"""Every request to the node's private plugin interface that does not carry exactly the
configured API token is refused with 401 and has no effect, for every path, method and
header form; and a request with the token reaches the resource.""",
["inputs"],
"""every resource path in the tree and its extensions, every method, every
authorization header from an alphabet of malformed and near-miss forms, every body
kind""",
"""the tests try a few paths with absent or wrong tokens of one form""",
["private.py", "resource.py"],
[("guard", "private.py:create_private_tree, TokenChecker, TokenCredentialFactory"),
 ("tree", "resource.py:from_configuration, authorizationless_resource_tree")],
ENUM, "exploration",
"""Exhaustive over the request alphabet on the real resource tree.""")

prop("H02", "The voucher API stores valid vouchers once and reports true state",
"""A voucher submitted over the interface is stored if and only if it is well formed,
exactly once however often it is submitted, and a refused or malformed request changes
nothing; reads by number and by list always agree with each other and with the true redemption
state, and every voucher state survives storage, restart and its JSON form
unchanged.""",
["inputs", "histories"],
"""every request body from an alphabet of malformed and boundary documents, all
sequences of requests and redemption progress up to a depth, every voucher state""",
"""the tests sample bodies and check single requests""",
["resource.py", "model.py", "validators.py"],
[("collection", "resource.py:_VoucherCollection, VoucherView"),
 ("JSON form", "model.py:Voucher.to_json_v1, Voucher.from_json"),
 ("validation", "validators.py, resource.py:is_syntactic_voucher")],
BFS, "model_checking",
"""All request sequences within the bounds on the real resource tree.""")

prop("T01", "Tahoe client operations are atomic, retried and discreet",
"""A download leaves at the destination either the complete content or what was there
before, whatever fails; transient gateway failures of an upload, listing, directory creation,
link or unlink are retried for as long as they last and all other failures are reported as
they are, an operation reports success only if the gateway did, and no capability secret appears in
an error or log.""",
["fault_sequences", "crash_points", "inputs"],
"""every sequence of gateway responses (statuses, errors, partial bodies) up to the
bound, failure at every file operation, every capability kind""",
"""the tests use one error response per operation""",
["tahoe.py"],
[("retry", "tahoe.py:async_retry"),
 ("download", "tahoe.py:download, download_child"),
 ("scrubbing", "tahoe.py:_scrub_cap, _scrub_caps_from_url, TahoeAPIError")],
FAULTS, "fault_enumeration",
"""Real client code with a scripted HTTP agent and a scratch directory.""")

prop("V01", "Server reports true share sizes and lease expirations",
"""For any set of mutable and immutable shares with any sizes and leases, including
malformed or missing files, the share-stat and share-size calls report each share's
exact size in bytes and latest lease expiration, in the order asked, without changing
anything.""",
["inputs", "histories"],
"""all combinations of share kind, size at boundaries, lease count and expiry, share
numbers and queried subsets within the bounds""",
"""the tests stat random single shares""",
["_storage_server.py"],
[("stat", "_storage_server.py:get_share_stats, stat_slot, stat_bucket, get_lease_expiration"),
 ("share sizes", "_storage_server.py:get_share_sizes, get_slot_share_size")],
ENUM, "exploration",
"""Exhaustive over the stated share sets on the real server with real share files.""")

prop("W01", "Storage calls cross the network unchanged, and a lost connection leaves both sides in order",
"""Over a real Foolscap connection, each storage operation reaches the storage server
exactly once with exactly the arguments the client's caller gave (converted as the wire
schema demands) and as many passes as it costs, and its result (sizes and expiration
times beyond 2**31, reports of thousands of rejected passes, many shares) comes back
exactly, however the bytes are split.  Wherever the connection is lost, the caller is
told; every token the server did not certainly accept can be used again and none the
client keeps is one which the server reported as spent or invalid; after the client has
connected again the operation can be done; uploads which were cut off leave nothing
behind on the server which stands in the way of a later upload.  A call which is not a proper one (wrong
types, lengths, negative numbers, too many items, unknown methods) has no effect on what is
stored and does not keep the server from serving others.""",
["inputs", "crash_points", "schedules", "histories"],
"""every operation with arguments at the boundaries of the wire schema, all deliveries and
all places of a lost connection in sessions of several operations of one or two clients, all
listed improper values in each argument position""",
"""the tests use an in-memory reference which checks schemas but neither serializes nor loses
anything; the one real Foolscap test makes a single call""",
["foolscap.py", "_storage_client.py", "_storage_server.py", "_plugin.py"],
[("wire schema", "foolscap.py:RIPrivacyPassAuthorizedStorageServer, ShareStat"),
 ("client calls", "_storage_client.py:ZKAPAuthorizerStorageClient, call_with_passes"),
 ("server calls", "_storage_server.py:ZKAPAuthorizerStorageServer"),
 ("disconnection", "_storage_server.py:ZKAPAuthorizerStorageServer.remote_allocate_buckets, _bucket_writer_closed")],
STATELESS, "model_checking",
"""Real client, real Foolscap brokers at both ends of an in-memory pipe, real server with real
share files, real passes.  Foolscap's negotiation and TLS are left out.""")

prop("U01", "Passes cannot be linked to vouchers, and secrets stay out of messages and logs",
"""In any history of redemptions, storage operations, failures and restarts: what the
issuer is sent is, for each attempt, the voucher number, the group's counter and blinded
tokens, in requests which otherwise do not differ, and never a random token, a blinding
factor, the number (preimage) of a token or an unblinded token; blinded tokens of different
groups and vouchers differ.  What a storage server is sent contains, apart from the arguments of the
operation, only passes of exactly the number of tokens it costs, each with a signature made for that
operation, and never a voucher number, random, blinded, signed or unblinded token, nor
any other token's number; a token which a server has accepted or rejected is never shown to a server
again.  Neither the Eliot log nor the Twisted log ever contains tokens
(random, blinded, signed, unblinded or preimages), signing keys, the HTTP API's
token or replica capabilities, also when operations fail.""",
["histories", "fault_sequences", "inputs"],
"""every history of redemption attempts with all kinds of answers, storage calls to servers
with different keys with all places of a lost connection, and restarts, up to the depth""",
"""the tests look at one message at a time for what should be in it and never search what
is sent or logged for what should not be there""",
["controller.py", "spending.py", "_storage_client.py", "_storage_server.py", "model.py", "eliot.py",
 "tahoe.py", "resource.py", "replicate.py"],
[("blinding", "controller.py:RistrettoRedeemer.redeemWithCounter"),
 ("passes", "controller.py:RistrettoRedeemer.tokens_to_passes"),
 ("messages of calls", "storage_common.py:allocate_buckets_message"),
 ("log fields", "eliot.py"),
 ("scrubbed capabilities", "tahoe.py:TahoeAPIError")],
STATELESS, "model_checking",
"""Real redeemer, HTTP client, store, storage clients, Foolscap brokers, storage servers
and loggers; every byte sent and every event logged is searched for every secret which
exists, in each encoding.""")

prop("E01", "A whole node on a whole grid: what is bought is spent once, exactly and usefully, and kept",
"""For a complete Tahoe-LAFS node configured with this plugin, on storage servers which run it
and with an issuer, after any history of buying vouchers, storing, overwriting and linking
files through the ordinary web interface, setting up replication, runs of lease maintenance,
losses and returns of servers, restarts and sudden ends of the process: each token which was bought
is either still kept (and can be used) or was accepted by one storage server for one
operation; storing a file costs exactly the passes its shares take at the configured pass
value, and succeeds if there are servers and tokens enough; what was stored can be read; the
run of lease maintenance renews, for exactly what they take, all leases of what is under the
root which are due and no others, and reports the price of all it found; no share stays incomplete; and once
replication is set up and the servers are reachable again, another node recovers from the
recovery capability every voucher and every token which the first one has.""",
["histories", "crash_points", "fault_sequences"],
"""all histories of requests and events from several starting points up to the depth; one
request interrupted by a lost connection or the end of the process at every message""",
"""the tests replace at least one side (Tahoe-LAFS, the storage server, Foolscap or the
issuer) by a stand-in which agrees with the code, even where the real one does not""",
["_plugin.py", "_storage_client.py", "_storage_server.py", "lease_maintenance.py", "controller.py", "spending.py",
 "replicate.py", "recover.py", "resource.py", "tahoe.py", "model.py"],
[("assembly", "_plugin.py:ZKAPAuthorizer"),
 ("storage calls", "_storage_client.py:ZKAPAuthorizerStorageClient"),
 ("lease renewal", "lease_maintenance.py:renew_leases"),
 ("replication", "replicate.py:_ReplicationService"),
 ("recovery", "recover.py:StatefulRecoverer")],
STATELESS, "model_checking",
"""Nothing of the code under test is replaced: real nodes made by Tahoe-LAFS from their
configuration, real HTTP and Foolscap connections in memory, real storage servers, files and
databases.  Two servers, one of two encoding; messages arrive in order.""")



def main():
    with open(os.path.join(HERE, "properties.jsonl"), "w") as f:
        for p in P:
            anchors = dict(files=p["files"], mechanism=p["mech"])
            if p["state"]:
                anchors["state"] = p["state"]
            if p["observe"]:
                anchors["observe_at"] = p["observe"]
            anchors["hook_needed"] = None
            f.write(json.dumps(dict(
                id=p["id"], title=p["title"], statement=p["statement"],
                quantifier=dict(over=p["over"], text=p["text"]),
                why_tests_cant=p["why"], anchors=anchors)) + "\n")
    checks, na = [], []
    for p in P:
        if os.path.exists(os.path.join(HERE, "checks", p["id"] + ".py")):
            checks.append(dict(
                property=p["id"],
                quick_cmd="./check.sh %s --tier quick" % p["id"],
                thorough_cmd="./check.sh %s --tier thorough" % p["id"],
                evidence_file="evidence/%s.json" % p["id"],
                technique=p["technique"], level=p["level"], level_note=p["note"]))
        else:
            na.append(dict(property=p["id"], reason=p["na"] or "no check built yet"))
    with open(os.path.join(HERE, "MANIFEST.json"), "w") as f:
        json.dump(dict(
            version=1,
            setup_cmd="./setup.sh",
            hooks=dict(guard="ZKAP_MC_UNUSED",
                       enable="no hooks are needed: the checks drive the unmodified code through its own parameters",
                       source_commits=[]),
            checks=checks, not_applicable=na,
            notes="All checks run the code of /repo/src directly with /opt/venv/bin/python; nothing is built ahead."),
            f, indent=1)
        f.write("\n")


if __name__ == "__main__":
    main()
