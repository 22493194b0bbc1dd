#!/usr/bin/env python3
"""Writes /verif/properties.jsonl.  The property texts live here so that they can be edited as text."""
import json, os, sys

P = []

def p(id, title, statement, over, qtext, why, files, mech, state=(), observe=()):
    assert len(title) <= 80, (id, len(title))
    P.append({
        "id": id, "title": title, "statement": statement,
        "quantifier": {"over": list(over), "text": qtext},
        "why_tests_cant": why,
        "anchors": {
            "files": list(files),
            "state": [{"name": n, "meaning": m, "where": w} for n, m, w in state],
            "mechanism": [{"name": n, "where": w} for n, w in mech],
            "observe_at": list(observe),
            "hook_needed": None,
        },
    })

BOLT = "pkg/ldbbolt/ldbbolt.go"
BH = "server/handler/boltdb/handler.go"
LH = "server/handler/ldif/handler.go"
SRV = "pkg/ldapserver/server.go"

p("C01", "Concurrent requests to the database behave as if run one at a time",
  "Requests that many connections send at the same time to the database-backed directory have effects and answers that could have come from running them one at a time, in an order that respects which request was answered before another was sent. No acknowledged add, modify, rename, delete or password change is lost or only partly applied. Every search result, also one that covers a whole subtree, shows the directory as it was at one single moment.",
  ["schedules", "histories"],
  "For every interleaving of adds, modifies, renames, deletes, password changes and searches from any number of connections.",
  "The existing tests call the storage layer from one goroutine; no test has two requests in flight, so no lost update, torn read or wrongly ordered answer can show up.",
  [BOLT, BH, SRV],
  [("every write is one read-modify-write database transaction", BOLT), ("a search collects all its entries inside one read transaction", BOLT)],
  [("directory content", "entries, their names and their parent/child links", BOLT)],
  ["LDAP responses on the wire"])

p("C02", "Acknowledged changes survive a crash, unfinished ones are all-or-nothing",
  "Once a change to the database-backed directory has been answered with success it is still there, unaltered, after the process or the machine stops at any later moment. A change that was in progress when the stop happened is afterwards either completely there or completely absent. The directory can always be opened and served again afterwards.",
  ["crash_points", "histories", "fault_sequences"],
  "For every history of changes and every point at which the process or machine can stop, including between any two writes to the file and with any part of the not yet flushed writes lost.",
  "No existing test reopens a database that was not closed, and none can lose the writes that were not flushed.",
  [BOLT, BH],
  [("one database transaction per request, flushed before it is answered", BOLT), ("database opened with default (synchronous) options", BOLT)],
  [("database file", "pages on disk and which of them were flushed", BOLT)],
  ["database file after a stop", "LDAP responses on the wire"])

p("C03", "The directory is always one well-formed tree",
  "After any sequence of accepted and refused adds, deletes and renames, every entry except the base entry has an existing parent, and each entry is returned exactly once by every base, one-level and subtree search that covers it and by no other. An add without an existing parent, outside the base or onto an existing name is refused, and so is a delete of a missing entry or of one that has children. A refused request changes nothing, and a name that was freed by a delete or rename can be used again.",
  ["histories", "inputs"],
  "For every sequence of add, delete, rename and modify requests, with every spelling of the names involved.",
  "The existing tests run a handful of fixed calls on a tree of three entries and look at one or two searches each; they do not cover longer histories or the state left behind by refused requests.",
  [BOLT, "pkg/ldapdn/ldapdn.go", BH],
  [("name index, entry table and child lists updated in the same transaction", BOLT), ("leaf check before delete and rename", BOLT)],
  [("name index / child lists", "which entry a name denotes and which entries are below it", BOLT)],
  ["base, one-level and subtree searches"])

p("C04", "Modify applies its changes in order, completely or not at all",
  "A modify request applies its add, replace and delete changes one after the other, each seeing the result of the ones before it, comparing attribute types and values without regard to letter case. Attributes it does not mention keep exactly their values. If the request is refused nothing at all changes, and no modify can remove a value that is part of the entry's own name.",
  ["inputs", "histories"],
  "For every stored entry and every list of changes, including several changes to one attribute, values that differ only in letter case, and lists in which a later change is refused.",
  "The existing tests apply one change at a time to a fixed entry, so neither the effect of one change on the next nor the partial application of a refused list is exercised.",
  ["pkg/ldapentry/ldapentry.go", BOLT, "pkg/ldapserver/modify.go"],
  [("changes folded into a new entry which replaces the stored one only at the end", "pkg/ldapentry/ldapentry.go"), ("naming attribute guard", "pkg/ldapentry/ldapentry.go")],
  [("entry attributes", "types and values of one entry", BOLT)],
  ["modify response", "search results after it"])

p("C05", "Only the configured administrator can change the directory",
  "Adds, modifies, renames and deletes succeed only on a connection whose current identity is the configured administrator; on any other connection (anonymous, ordinary user, any user when no administrator is configured) they are refused and the directory stays exactly as it was. The file-backed directory refuses every change, including password changes, for everybody. Which spelling of the administrator's name was used to bind makes no difference.",
  ["inputs", "configurations", "histories"],
  "For every kind of change, every identity a connection can have had and has now, and every administrator configuration.",
  "No existing test drives a request through a bound connection; the handlers that decide about permission have no tests at all.",
  [BH, LH, "server/handler/ldif/middleware.go", "pkg/ldapserver/add.go", "pkg/ldapserver/modify.go", "pkg/ldapserver/modifydn.go", "pkg/ldapserver/delete.go"],
  [("permission test in front of every write", BH), ("anonymous writes refused before dispatch", "pkg/ldapserver/add.go")],
  [("connection identity", "who the connection is bound as", SRV)],
  ["result codes", "directory content after refused requests"])

p("C06", "A connection only ever has the identity it proved with a password",
  "A simple bind succeeds only if it names an existing entry inside the base and gives, exactly, the password that entry has at that moment; an empty password, an entry without a password and an unknown name never succeed, except for the anonymous bind where it is enabled. Requests are judged by the last bind of their own connection: after a failed bind the connection is anonymous again, and nothing done on one connection changes the identity of another. Service accounts kept in the separate bind-only file can bind under the same rules.",
  ["inputs", "histories", "configurations", "schedules"],
  "For every sequence of successful and failed binds (with wrong, empty, truncated, extended or case-changed passwords, and other spellings of the name) on any number of connections, for both directory back ends.",
  "No existing test performs a bind over a connection, and identity is a property of a sequence of requests on interleaved connections.",
  [SRV, "pkg/ldapserver/bind.go", BH, LH, "server/handler/ldif/entry.go", "server/handler/ldif/middleware.go"],
  [("per-connection bound name set only by a successful bind", SRV), ("password check against the stored value", BH)],
  [("connection identity", "who the connection is bound as", SRV)],
  ["bind responses", "what the connection may do afterwards"])

p("C07", "Password change: right person, right password, takes effect at once",
  "A password-change request succeeds only for the bound user's own entry or when the administrator asks; if it carries an old password, that must be the current one. After success exactly the new password binds as that entry and nothing else in the directory has changed; after a refusal the previous password still works and nothing has changed. If no new password was given the server makes one, returns it in the answer, and that returned password binds.",
  ["inputs", "histories", "schedules"],
  "For every requester, target (absent, own, someone else's, missing; any spelling), old password (absent, right, wrong) and new password (absent, present), and concurrent changes of one entry.",
  "The existing tests only parse the request; permission, verification and effect are not tested.",
  ["pkg/ldapserver/pwmodifyexop.go", "pkg/ldapserver/extended.go", BH, BOLT],
  [("owner-or-administrator test", BH), ("old password check and replacement in one transaction", BOLT)],
  [("stored password", "hashed password of one entry", BOLT)],
  ["extended response", "binds with old and new password", "searches"])

p("C08", "A stored password accepts exactly the password it was made from",
  "For each supported stored form (clear text, salted SHA-1, crypt and argon2id) a bind is accepted if and only if the given password is byte for byte the one the stored value was made from. Stored values that are empty, truncated, malformed or of an unknown scheme accept no password at all, and never disturb the server. New passwords are stored only as salted hashes: the stored value does not contain the password, and setting the same password twice gives two different stored values.",
  ["inputs"],
  "For every password byte string and every stored value, well formed or not.",
  "There are no tests of password handling at all; the space of stored values and near-miss passwords is unbounded.",
  ["pkg/ldappassword/ldappassword.go", "pkg/ldappassword/crypt.go", "server/handler/ldif/entry.go", BH],
  [("scheme dispatch and constant time comparison", "pkg/ldappassword/ldappassword.go")],
  [("stored password", "value of the password attribute", BOLT)],
  ["bind responses"])

p("C09", "Database search returns exactly the matching entries and attributes",
  "A search of the database-backed directory returns exactly the entries that lie in the requested base and scope and satisfy the filter (and, or, not, presence, equality, substring with any number of parts; letter case ignored), each exactly once under its own name. Each returned entry carries exactly the requested attributes it has (all of them when none or '*' is asked for), once, with all their values unchanged. With a size limit no more than that many are returned, and the answer says so exactly when there were more.",
  ["inputs", "histories"],
  "For every directory content and every combination of base, scope, filter, attribute list and size limit.",
  "The existing tests run a few filters through the client library's parser and search a tree of three entries without filters.",
  ["pkg/ldapserver/search.go", "pkg/ldapserver/filter.go", BOLT, BH],
  [("filter evaluation on every candidate entry", "pkg/ldapserver/filter.go"), ("scope walk through the child lists", BOLT), ("attribute selection", "pkg/ldapserver/search.go")],
  [("directory content", "entries and attributes", BOLT)],
  ["search result entries and result code"])

p("C10", "File-backed search finds what checking every entry would find",
  "A search of the file-backed directory returns exactly the entries that checking every loaded entry one by one against base, scope and filter would return, each exactly once and with exactly the requested attributes. Which attributes happen to be indexed and how the filter is nested (and, or, not, presence, equality, substrings, any letter case) makes no difference to the result.",
  ["inputs", "configurations"],
  "For every set of loaded entries and every filter, base, scope and attribute list.",
  "The file-backed search and its indexes have no tests.",
  [LH, "server/handler/ldif/index.go", "server/handler/ldif/filter.go", "pkg/ldapserver/filter.go"],
  [("index lookup proposes candidates, filter decides", LH), ("fall back to a full walk when no index fits", LH)],
  [("indexes", "value to entries maps and trees built at load time", "server/handler/ldif/index.go")],
  ["search result entries"])

p("C11", "A paged search delivers every entry exactly once and then ends",
  "The pages of a paged search of the file-backed directory put together are exactly the result of the same search without paging at the moment it began, each entry once, even if the data is reloaded in between or other paged searches run at the same time. No page is larger than asked for, the sequence always ends with an empty cookie and a success result whatever the page size is, and giving up a paged search is answered and leaves other searches working. A made-up or used-up cookie is refused without harm.",
  ["inputs", "schedules", "histories"],
  "For every result size, page size (also when one divides the other), interleaving of paged searches, reload, abandonment and connection loss.",
  "Paging has no tests; its behaviour depends on the interleaving of two goroutines and on exact multiples of the page size.",
  [LH],
  [("one producer per paged search, found again by its cookie", LH)],
  [("active paged searches", "cookie to producer map", LH)],
  ["page contents, cookies and result codes"])

p("C12", "No bytes from clients can bring the server down",
  "Whatever bytes clients send, before or after binding, in requests of any kind, malformed, truncated, oversized or deeply nested, the server process keeps running and keeps answering well-formed requests on other connections correctly. A malformed request is answered with an error or its connection is closed; it never changes the directory.",
  ["inputs", "schedules"],
  "For every byte sequence on every connection, by anonymous and by bound clients, for both back ends.",
  "The existing tests feed a few malformed packets to single parser functions; a crash anywhere in the request path stops the whole server.",
  [SRV, "pkg/ldapserver/search.go", "pkg/ldapserver/modify.go", "pkg/ldapserver/modifydn.go", "pkg/ldapserver/extended.go", "pkg/ldapserver/pwmodifyexop.go", "pkg/ldapserver/filter.go", BOLT],
  [("sanity checks on decoded packets", SRV), ("recovery in the bind path", "pkg/ldapserver/bind.go")],
  [],
  ["process liveness", "answers on an unrelated connection", "directory content"])

p("C13", "Each request gets exactly one fitting final answer, in order",
  "On every connection, each request that expects an answer receives exactly one final answer carrying its own message number and the answer type of that kind of request, preceded only (for searches) by its own result entries; or the connection is closed. Answers come in the order of the requests, also when requests are sent without waiting or arrive in arbitrary pieces. Nothing is sent for unbind, and what is sent to one connection never appears on another.",
  ["histories", "inputs", "schedules"],
  "For every pipelined sequence of requests of every kind with any message numbers, split into packets in any way, on any number of connections.",
  "No existing test looks at the bytes the server sends on a connection.",
  [SRV, "pkg/ldapserver/search.go", "pkg/ldapserver/extended.go", "pkg/ldapserver/bind.go"],
  [("one goroutine per connection reads, handles, answers", SRV)],
  [],
  ["bytes on the wire"])

p("C14", "Nobody reads the directory, or its secrets, without permission",
  "A connection that has not bound successfully gets no entry from any search, of either back end, unless anonymous access is enabled and the client is on the same host. The file-backed directory never reveals password values, neither in results nor through filters, and never returns the entries of the bind-only file. Refused searches do not reveal whether an entry exists.",
  ["inputs", "configurations", "histories"],
  "For every search, identity history of the connection, client address and setting of anonymous access.",
  "No existing test searches through a connection; none covers anonymous or remote clients.",
  [BH, LH, "server/handler/ldif/ldif.go", "server/handler/ldif/middleware.go"],
  [("identity check in front of search", LH), ("password kept apart from the searchable attributes", "server/handler/ldif/ldif.go")],
  [("connection identity", "who the connection is bound as", SRV)],
  ["search results for unauthenticated, local and remote clients"])

p("C15", "Reload switches to the new files completely or not at all",
  "When told to reload, the file-backed server switches to the new content of its files in one step: every search or bind before that sees only the old content and every one after it only the new. If any of the files (data or bind-only) cannot be loaded, everything keeps working with the old content, and a later reload of corrected files takes effect. Reloads never drop connections or disturb searches in progress.",
  ["schedules", "histories", "fault_sequences"],
  "For every sequence of good and bad file contents, every moment of reload relative to searches and binds in progress.",
  "Reload is not tested; atomicity is a property of interleavings of reload and requests.",
  [LH, "server/handler/ldif/middleware.go", "server/server.go"],
  [("complete new data set built first, then one atomic pointer switch", LH)],
  [("current data set", "tree and indexes used by new requests", LH)],
  ["search and bind results around a reload"])

p("C16", "Loaded files are served faithfully or loading fails loudly",
  "Everything in the data files (one file or all of a folder in name order), after template expansion, is served with exactly the names, attributes and values written there, including folded, base64, very long and non-ASCII lines and with comments having no effect. If something cannot be read, expanded or understood, or a name occurs twice, the server refuses to start instead of serving part of the data. Template file inclusion yields exactly the file's bytes, and only for files below the data folder and within the size limit.",
  ["inputs", "configurations"],
  "For every file content, folder layout, template variable setting and included file.",
  "Loading and templates have no tests.",
  ["server/handler/ldif/ldif.go", "server/handler/ldif/template.go", LH],
  [("line reader, template engine and LDIF parser in sequence, errors propagated", "server/handler/ldif/ldif.go"), ("path prefix check", "server/handler/ldif/template.go")],
  [],
  ["search results after start", "exit status of a failed start"])

p("C17", "Import and export of the database lose and invent nothing",
  "Importing an LDIF file into a new database makes exactly its entries, with all attributes and values, visible; a file that breaks the rules (missing parent, outside the base, duplicate name, invalid name) is refused with an error and a failing exit status and without a crash. Exporting prints every entry below the base with all attributes and values exactly as stored, and importing that output into a new database gives an identical directory. Export never changes the database.",
  ["inputs", "histories"],
  "For every directory content, including binary, empty-looking, very long and non-ASCII values and names, and after any history of changes.",
  "The import and export commands have no tests.",
  ["cmd/idmd/boltdb/load/load.go", "cmd/idmd/boltdb/export/export.go", BOLT],
  [("entries stored and listed through the same storage layer as the server", BOLT)],
  [],
  ["exit status", "exported LDIF", "searches"])

p("C18", "Spellings of one name denote one entry, other names never do",
  "In the database-backed directory, spellings of a distinguished name that differ only in letter case, in which of the equivalent ways characters are escaped, or in spaces next to separators denote the same entry in every operation: add, search base, modify, delete, rename, bind and password change. Names that differ in any other way always denote different entries, whatever characters (commas, plus and equals signs, quotes, backslashes, control characters, non-ASCII letters) their parts contain. The name shown for an entry can be used to address it.",
  ["inputs"],
  "For every pair of distinguished names, equivalent or not.",
  "The existing test checks five fixed names.",
  ["pkg/ldapdn/ldapdn.go", BOLT, "pkg/ldapserver/filter.go", "pkg/ldapentry/ldapentry.go"],
  [("normal form used as key for every name", "pkg/ldapdn/ldapdn.go")],
  [("name index", "normal form to entry", BOLT)],
  ["results of operations addressed with different spellings"])

p("C19", "No data races and no crashes of concurrent use",
  "Whatever requests, connects, disconnects, reloads, metrics reads and shutdowns happen at the same time, no two threads of the server access the same memory without synchronisation where one of them writes, and no concurrent use makes the server fail.",
  ["schedules", "histories"],
  "For every interleaving of client activity, reload, metrics collection and shutdown, for both back ends.",
  "The existing tests are single threaded and are not run with a race detector.",
  [SRV, "pkg/ldapserver/stats.go", "pkg/ldapserver/filter.go", LH, "server/handler/ldif/middleware.go", "server/server.go", "server/metrics.go", BOLT],
  [("state confined to one goroutine per connection", SRV), ("mutex around counters", "pkg/ldapserver/stats.go"), ("atomic switch of the loaded data", LH)],
  [],
  ["race detector reports", "process exit status"])

p("C20", "Metrics count exactly what happened and never get in the way",
  "With metrics enabled the reported totals of connections, binds, unbinds and searches equal what clients did, the current number of connections equals the connections open, and the reported maximum is the largest number that were open at the same time. Counters never go backwards and are right under concurrency and however connections end. Enabling metrics changes no answer and delays or blocks no request of any kind.",
  ["histories", "schedules"],
  "For every sequence and interleaving of connections, requests of every kind and metric reads.",
  "Metrics have no tests.",
  ["pkg/ldapserver/stats.go", "server/metrics.go", SRV],
  [("counter increments under one lock at each request", "pkg/ldapserver/stats.go")],
  [("counters", "totals and current number of connections", "pkg/ldapserver/stats.go")],
  ["metrics endpoint", "answers with metrics on and off"])

p("C21", "One bad client or a passing shortage never stops service for others",
  "Clients that connect and stay silent, send half a request, stop reading their results, vanish in the middle of a request or start a paged search and never continue it do not prevent other clients from connecting and being answered correctly. After a temporary shortage of file descriptors the server accepts connections again. A termination signal always ends the process with open connections present, and what was acknowledged before is there after a restart.",
  ["schedules", "fault_sequences", "histories"],
  "For every combination of misbehaving clients, shortages and signals, on the plain and the TLS listener.",
  "No existing test opens a network connection.",
  [SRV, "server/server.go", LH],
  [("one goroutine per connection", SRV), ("accept loop separate from request handling", SRV)],
  [],
  ["answers to a well-behaved client", "process exit"])

p("C22", "Generated passwords and user records work as given",
  "The password command's output, used as a stored password, accepts exactly the given secret, for every accepted secret and scheme. The user generator's output, loaded by the server, yields exactly one entry per input line with the given name, numbers, full name and mail addresses, generated numbers are not used twice, and each user can bind with the given password. Bad input (too few fields, non-numeric ids, weak secrets, an empty secret for the password command, unreadable or over-long input) gives an error and a failing exit status, never a crash or silently missing users.",
  ["inputs"],
  "For every secret, scheme and user list.",
  "The generator commands have no tests.",
  ["cmd/idmd/gen/passwd/passwd.go", "cmd/idmd/gen/newusers/newusers.go", "cmd/idmd/gen/newusers/output_ldif.go", "pkg/ldappassword/ldappassword.go"],
  [("line parser with field checks", "cmd/idmd/gen/newusers/newusers.go"), ("output template", "cmd/idmd/gen/newusers/newusers.go")],
  [],
  ["command output and exit status", "binds and searches against a server that loaded it"])

p("C23", "Rename moves one leaf entry to its new name and nothing else",
  "A rename that succeeds makes the entry reachable under the new name below the same parent and no longer under the old one; the new naming values are present, the old ones are gone exactly if their removal was requested, and every other attribute keeps its values. Renaming an entry that has children, the base entry, a missing entry, onto a name in use, with an empty or several-part new name, or to another parent is refused and changes nothing. The renamed entry keeps working as itself: it can be searched, modified, renamed again, deleted, and can bind with its password.",
  ["inputs", "histories"],
  "For every entry, new name (also multi-valued, escaped, differing in letter case) and removal flag, and every sequence of renames and other changes.",
  "The existing tests perform single renames with plain names and do not use the entry afterwards.",
  [BOLT, "pkg/ldapserver/modifydn.go", BH, "pkg/ldapentry/ldapentry.go"],
  [("entry rewrite and name index update in one transaction", BOLT)],
  [("name index", "normal form to entry", BOLT)],
  ["rename response", "searches, binds and changes afterwards"])

p("C24", "Finished and abandoned work leaves nothing behind",
  "After clients have disconnected (cleanly, abruptly, in the middle of requests, of unread results, or of TLS negotiation) and after requests of every kind have been answered or refused, the server gives back what they used: the numbers of open connections, file descriptors and running tasks return to what they were before, and memory does not grow with the number of past requests. Repeating any workload many times does not make the server hold more than doing it a few times.",
  ["histories", "fault_sequences"],
  "For every way of ending a connection or request, repeated any number of times.",
  "The existing tests start no server; leaks only show after many repetitions.",
  [SRV, LH, BOLT],
  [("connection closed when its loop ends", SRV), ("search producers end with their consumer or after a bounded time", LH)],
  [("running tasks and descriptors", "goroutines and sockets of the server process", SRV)],
  ["descriptor and goroutine counts of the running server"])

out = sys.argv[1] if len(sys.argv) > 1 else os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "properties.jsonl")
with open(out, "w") as f:
    for x in P:
        f.write(json.dumps(x, ensure_ascii=False) + "\n")
print(len(P), "properties")
