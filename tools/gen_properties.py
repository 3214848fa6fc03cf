#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (kept as a script so that the JSON stays well formed)."""
import json, os
P = []
def p(id, title, statement, over, text, why, files, mechanism, state=(), observe=(), hook=None):
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": text},
              "why_tests_cant": why,
              "anchors": {"files": files,
                          "state": [dict(zip(("name", "meaning", "where"), s)) for s in state],
                          "mechanism": [dict(zip(("name", "where"), m)) for m in mechanism],
                          "observe_at": list(observe), "hook_needed": hook}})
BT = "src/private/bound_token.rs"
SKI = "src/private/signing_key_inner.rs"
SU = "src/signed_url.rs"
PSU = "src/private/signed_url.rs"
CR = "src/private/canonical_request.rs"
HF = "src/html_form_data.rs"
SK = "src/signing_key.rs"
UT = "src/private/utils/unix_timestamp.rs"
cache = ("cache", "account e-mail, access token and expiry kept between calls, shared by all clones of a key", BT)
lock = ("async mutex held from the cache look-up to the cache store", BT + " get_email_and_token")

p("C01", "A nearly expired access token is never reused",
  "Every request a metadata-server key sends to the signing service carries an access token that the same call has just fetched, or a kept one that still has more than thirty seconds to live at the moment the request is sent. A token's life is reckoned on the process's own clock, from the moment the token was asked for and for the lifetime the metadata server reported, however long the answer took to arrive.",
  ["schedules", "fault_sequences", "inputs"],
  "Any number of concurrent and successive calls on a key and its clones, any token lifetimes, network delays, stalls of the process, interleavings and cancellations.",
  "No test ever lets a token age: the repository's tests make a single call against a server that answers at once with a one hour token.",
  [BT], [("expiry comparison with a 30 s margin", BT + " get_email_and_token"), ("expiry computed when the token is fetched", BT)], [cache],
  ["Authorization header of the signBlob request at the simulated IAM server"])
p("C02", "A live token is reused and refreshes never overlap",
  "While a key created for the metadata server holds a token with more than thirty seconds to live, calls on that key or any of its clones send nothing to the metadata server. When a refresh is needed at most one is under way per key, and concurrent callers that waited for it use its result instead of asking again. Keys created separately share nothing: a call only ever uses an account and token obtained through its own key or a clone of it.",
  ["schedules", "fault_sequences", "inputs"],
  "Any number of concurrent callers on shared, cloned and separate keys, any schedule, token lifetimes, delays, failures and cancellations.",
  "Tests make one call per key; reuse and single flight only show with several overlapping calls and elapsed time.",
  [BT, SKI, SK], [lock, ("cache behind an Arc so that clones share it", BT)], [cache],
  ["requests arriving at each key's own simulated metadata server"])
p("C03", "A failed or abandoned refresh leaves no trace",
  "If fetching the account or token fails at any point (no connection, error status, truncated or malformed answer, wrong token type) or the caller drops the call part-way, nothing obtained during that attempt is used by any later call. The next call that needs credentials asks the metadata server again for both the account and the token, and a token is only ever used together with results of completely successful refreshes.",
  ["schedules", "fault_sequences", "crash_points"],
  "Every point at which an exchange can fail or a call can be cancelled, with other calls on the key or clones waiting or following.",
  "Tests inject one failing status and then stop; none calls again afterwards and none cancels a call.",
  [BT], [("cache stored only after both answers were validated", BT + " get_email_and_token"), ("guard released on early return and on drop", BT)], [cache],
  ["account in the signBlob URL and token in its Authorization header", "order of metadata requests"])
p("C04", "Calls finish and succeed again once faults stop",
  "Whatever mixture of network failures, partitions, stalls, clock jumps, malformed answers, and cancelled calls came before, once the metadata and signing services answer normally again every outstanding call finishes and every new call on any key succeeds within bounded time. No call is ever left waiting on another call that failed, was cancelled or finished.",
  ["schedules", "fault_sequences", "crash_points"],
  "Any finite fault sequence followed by a quiet period; calls in flight at the time and calls started afterwards, on the same key, clones and other keys.",
  "Needs long fault histories with cancelled lock holders and later calls; tests make one call on a fresh key.",
  [BT, SKI], [lock, ("errors propagate without touching the cache", BT)], [cache],
  ["completion time and result of each call in simulated time"])
p("C05", "A stalled call delays no independent call",
  "While one call waits for a slow or silent signing service, other calls on the same key and its clones that have a usable token finish in their own time. A metadata server that is slow, unreachable or failing for one key never delays calls on keys created separately or on service-account keys.",
  ["schedules", "fault_sequences"],
  "Any set of concurrent calls over shared and separate keys with any subset of exchanges stalled for arbitrarily long.",
  "Depends on what is awaited while the shared lock is held; tests never run two calls at once.",
  [BT, SKI], [("lock guard dropped before the signing request", BT + " sign"), ("one cache per created key", BT + " new")], [cache],
  ["simulated duration of every call not touched by the stall"])
p("C06", "The named account is the account that signed",
  "The account named in the credential of every signed URL or form that is returned is the account whose key produced its signature, even when the metadata server's default account or tokens change while calls are in progress. When the two cannot be kept together the call fails instead of returning an unusable result.",
  ["schedules", "fault_sequences", "histories"],
  "Any history of account and token changes at the metadata server interleaved at any point with concurrent calls and token expiries.",
  "The account is looked up and the signature requested in two separate steps with arbitrary time between them; tests use one constant account.",
  [SKI, BT, PSU, HF], [("account look-up", SKI + " authorizer"), ("remote signing", BT + " sign")], [cache],
  ["X-Goog-Credential of the result compared with the key that verifies the signature"])
p("C07", "A returned signed URL is accepted by the storage service",
  "A URL returned for any valid combination of HTTP method, headers, query parameters, region, object and key (service account, or metadata server with remote signing) is a well-formed URL that an HTTP client sends unchanged, and its signature verifies under the published V4 signing rules when the request is made with the same method and headers inside the validity window. This holds for every call however many run concurrently: no call returns a signature made for another call's request.",
  ["schedules", "inputs", "fault_sequences"],
  "All valid arguments, including values needing escaping, repeated headers and parameters; all schedules and reorderings of concurrent calls; clocks anywhere in the supported range.",
  "The tests that exercise acceptance need the real service and are ignored; the others compare a few fixed ASCII strings and never an escaped value or two calls at once.",
  [SU, PSU, CR, "src/private/string_to_sign.rs", "src/private/credential_scope.rs", SKI, BT],
  [("canonical request", CR), ("string to sign", "src/private/string_to_sign.rs"), ("query assembly", PSU)], [],
  ["returned URL replayed against a simulated storage service implementing V4 verification"])
p("C08", "A signed URL grants exactly the object and parameters asked for",
  "The URL that is returned addresses exactly the bucket and object name given, byte for byte after URL decoding, and carries exactly the query parameters given plus the X-Goog signing parameters, whatever characters the names and values contain, and binds every header given: the storage service rejects the URL when one of them is missing or changed. A name that no URL can carry unchanged through a standard URL parser (a dot segment) is refused with an error, never signed as a different resource.",
  ["inputs", "schedules"],
  "All bucket and object names and query parameters, with any key kind, under concurrent calls.",
  "Tests only use plain ASCII names without reserved characters, percent signs, dot segments or spaces.",
  [SU, PSU, CR], [("URL construction from bucket and object", SU), ("query re-encoding", CR + " canonical_query_string")], [],
  ["resource and parameters decoded by the simulated storage service"])
p("C09", "A signed URL is valid for no more than the time asked for",
  "A returned URL becomes usable at the requested start (by default the process's clock reading during the call) truncated to the second, and stops being usable no later than the requested expiry and less than two seconds before it. A request whose expiry precedes its start, or lies more than seven days after it counted in whole seconds, is refused with an error, and a URL used outside its window is rejected by the storage service.",
  ["inputs", "schedules", "fault_sequences"],
  "All start and expiry times with sub-second parts, process clocks near second, day, year and range boundaries, and arbitrary delays or stalls inside the call.",
  "Depends on clock readings and delays inside a call; tests use one fixed pair of instants.",
  [SU, "src/private/expiration.rs", UT, "src/private/date.rs", "src/private/active_datetime.rs"],
  [("single reading of the clock per call", SU), ("whole-second truncation", UT), ("seven day bound", "src/private/expiration.rs")], [],
  ["X-Goog-Date and X-Goog-Expires; verdict of the simulated storage service over simulated time"])
p("C10", "A returned upload form is accepted by the storage service",
  "A form built with signing options contains every field that was set, with its value unchanged, plus a policy, algorithm, credential, date and signature under which the storage service accepts an upload made with exactly those fields before the expiry: the signature verifies over the policy, every condition is satisfied by the form, and the credential and date agree. This holds for service-account keys and for remote signing, with any number of concurrent calls.",
  ["schedules", "inputs", "fault_sequences"],
  "All field combinations and values, key kinds, clocks and schedules of concurrent calls.",
  "One full and one minimal form are compared with fixed strings; remote signing of forms is never exercised successfully.",
  [HF, "src/private/policy_document.rs", "src/private/policy_document/condition.rs", "src/private/policy_document/expiration.rs", SKI, BT],
  [("field list assembly", HF + " build"), ("policy assembly and signing", HF + " build_policy_and_x_goog_signature")], [],
  ["form posted to a simulated storage service implementing POST policy verification"])
p("C11", "An upload policy permits nothing but the form it was made for",
  "The signed policy constrains every field of the form to exactly its value, and the content length to exactly the given length when one is set, so that an upload with any field changed, added or removed is rejected (for the content length, an upload of any other length). The policy expires no later than the requested expiration and less than one second before it, and building with an expiration not after the start is refused.",
  ["inputs", "schedules", "fault_sequences"],
  "All forms and all single-field tamperings of them by the uploader, at every instant before and after expiry, including delays between building and uploading.",
  "Tests compare one policy literally; none checks that a field left out of the policy would be noticed, or sub-second expiries.",
  [HF, "src/private/policy_document.rs", "src/private/policy_document/condition.rs", "src/private/policy_document/expiration.rs"],
  [("one exact-match condition per field", HF), ("content-length-range with equal bounds", HF), ("expiration in whole seconds", "src/private/policy_document/expiration.rs")], [],
  ["verdict of the simulated storage service on tampered and late uploads"])
p("C12", "Secrets and traffic stay where they belong",
  "Access tokens are sent only to the IAM credentials service, over verified TLS; metadata requests go only to the metadata host configured when the key was created, always with the Metadata-Flavor header and without a token. No token, private key or secret ever appears in a returned URL, form or error text, and keys built from a service account or HMAC secret never cause network traffic.",
  ["schedules", "fault_sequences", "inputs"],
  "Every exchange under any fault including redirects by either service, any failure text, and any change of the environment after a key was created.",
  "Tests do not look at outgoing requests at all beyond method and path, and never follow a redirect or inspect errors for secrets.",
  [BT, SKI, SK], [("fixed https endpoint", BT + " sign"), ("host captured in the constructor", BT + " new"), ("default redirect and TLS policy of the HTTP client", BT)], [],
  ["every connection and request seen by the simulated network; all outputs"])
p("C13", "No input, answer or clock makes a call panic",
  "Every call returns a result or an error and never panics, whatever its arguments, key kind and signing mode, whatever bytes the metadata and signing services answer with, and whatever the process's clock reads. Modes that are not supported (HMAC signing, remote signing with a service-account key, local signing with a metadata-server key) are reported as errors.",
  ["inputs", "fault_sequences", "schedules"],
  "All arguments, all server answers including extreme numbers, clocks before 1970 and far in the future, and all interleavings and cancellations.",
  "One test covers one unsupported mode; server answers and clocks are never hostile in tests.",
  [SKI, BT, SU, PSU, HF, UT], [("error enums", SKI), ("range-checked timestamps", UT)], [],
  ["unwinding out of any poll of a call's future"])
p("C14", "Every failed exchange is reported, and reported as what it was",
  "A call one of whose exchanges with the metadata or signing service failed (no connection, connection lost, error status, truncated or malformed answer, wrong token type, undecodable signature) returns an error, never a result; the error text names which of the account, token or signing requests failed and, for an error status, contains the status code and the body received. A call whose arguments are supported and whose exchanges all succeeded returns a result.",
  ["fault_sequences", "schedules"],
  "Every position at which every kind of failure can strike, under concurrency and arbitrary fragmentation of answers.",
  "One error status on the first request is tested; nothing else ever fails in the tests.",
  [BT, SKI, HF, SU], [("one error variant per stage", BT + " BoundTokenError"), ("status checked before the body is used", BT)], [],
  ["result and Display text of each call against the fault record of its own exchanges"])
p("C15", "At most one signing request per call, none without need",
  "A call on a metadata-server key sends exactly one signing request if it succeeds and at most one in any case; a call refused for its arguments or unsupported mode sends none. No request is sent on behalf of a call after it has returned or been cancelled.",
  ["schedules", "fault_sequences", "crash_points"],
  "All calls, schedules, failures, cancellation points and invalid arguments.",
  "Tests never reach a successful signing request, so nothing counts them.",
  [BT, SKI, SU, PSU, HF], [("no retry around the signing request", BT + " sign"), ("argument validation before signing", SU)], [],
  ["signBlob requests at the simulated IAM server attributed to calls"])
p("C16", "A key file is loaded completely or not at all",
  "Loading a service-account key from a path either yields a key with exactly the account and private key stored in the complete file, or an error: interrupted and short reads are transparent, and a missing, unreadable, truncated, torn or non-UTF-8 file, or an I/O error at any offset, is an error and never a partial key or a panic. Every file opened is closed again.",
  ["fault_sequences", "crash_points", "inputs"],
  "Every split of the file into short reads, interruption or error at every read, and every prefix left by a crash of the writer.",
  "No test loads a key from a file at all.",
  [SK], [("open and read to the end", SK + " service_account_from_path"), ("JSON validation", SK + " service_account_from_str")], [],
  ["result of the load and of signing with the loaded key, under a simulated file system below libc"])
p("C17", "Local signing is repeatable and offline",
  "With a service-account key and an explicit start time, the same arguments give byte-for-byte the same URL or form every time, in any process, whatever the clock reads, however calls are scheduled, whatever other calls are running, and whatever state the network is in. Such calls complete without waiting for anything.",
  ["schedules", "fault_sequences", "histories"],
  "Repetition of identical calls under different clocks, schedules, environment, concurrent load and network faults.",
  "Tests call once; hidden dependence on clock, environment or shared state only shows across executions that differ in them.",
  [SKI, SU, PSU, HF], [("deterministic PKCS#1 v1.5 signatures", SKI), ("explicit start time used instead of the clock", SU)], [],
  ["outputs of the same arguments compared across simulated executions; clock reads and connections made"])

p("C18", "What a process holds does not grow with the calls it makes",
  "However many calls are made, and however they end (returned, failed at any exchange, refused for their arguments, dropped at any point), once they have ended and idle connections have been let go, the memory, open files, connections and background tasks held on account of them are back at a level that does not depend on how many calls there were. The same holds for keys: one that was made, cloned, loaded from a file or used and then dropped with all its clones leaves nothing behind. Only what a key needs once (its client, its current account and token) stays with a living key.",
  ["histories", "fault_sequences", "crash_points"],
  "Any number of calls with any arguments, failures, refreshes and cancellations on keys that live for months, and any number of keys made and dropped.",
  "Tests make one call per key and exit; nothing is ever counted.",
  [BT, SKI, SK, SU, PSU, HF], [("one cached entry per key, replaced by each refresh", BT + " get_email_and_token"), ("one client per key, dropped with it", BT + " new"), ("no state outside the key", SKI)], [],
  ["bytes and blocks allocated by the code under test and still held, open files, connections and background tasks, counted in the quiet time after each of four rounds of like work"])

p("C19", "A waiting call leaves its thread to others",
  "While a call waits for a connection, for an answer or for another call on its key, it neither blocks the thread that polls it nor keeps it busy: it never sleeps or blocks in place, it does not wake itself again and again and it does not look in turns whether something has changed. It is polled again because something it waits for has happened, so how often it is polled depends on what happens and not on how long it waits; a poll always returns.",
  ["schedules", "fault_sequences", "histories"],
  "Any number of calls waiting for the same refresh or for silent, slow or failing servers for any length of time, under any schedule, with any of them cancelled.",
  "Tests run one call at a time on a runtime with nothing else to do; a blocked thread or a spinning call changes no result there.",
  [BT, SKI, SK], [("async lock whose waiters are woken in turn", BT + " get_email_and_token"), ("requests awaited, never polled for", BT + " sign")], [cache],
  ["wake-ups of each call by itself or by a timer, time slept in place, polls that do not return"])

# Listed, not claimed: no schedule, clock, fault or second party in them.
p("N01", "A form without signing options is the fields that were set",
  "Building a form without signing options returns exactly the fields that were set, with their values unchanged and no others, and fails only when the key is missing or a metadata name is empty.",
  ["inputs"], "All combinations of fields and values.",
  "Two literal forms are compared.", [HF], [("field list assembly", HF + " build")])
p("N02", "Policy documents survive a JSON round trip",
  "Serialising a policy document and parsing it back gives an equal document, and parsing rejects unknown fields, unknown conditions and wrong arities.",
  ["inputs"], "All policy documents and all JSON texts.",
  "A handful of literals is compared.", ["src/private/policy_document.rs", "src/private/policy_document/condition.rs", "src/private/policy_document/field.rs"],
  [("hand-written Serialize and Deserialize", "src/private/policy_document/condition.rs")])
p("N03", "Parsing a service-account JSON text is exact",
  "Parsing a service-account JSON text yields a key with exactly the client_email and private_key strings in it, or an error that says which of them is missing or not a string.",
  ["inputs"], "All JSON texts.",
  "Only the empty string is tried.", [SK], [("JSON validation", SK + " service_account_from_str")])

out = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "properties.jsonl")
with open(out, "w") as f:
    for x in P:
        assert len(x["title"]) <= 80, x["id"]
        f.write(json.dumps(x, ensure_ascii=False) + "\n")
