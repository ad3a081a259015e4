# ---- cross-cutting -------------------------------------------------------
prop("E01", "No failure is silently discarded",
  "Whenever an operation reports a failure, that failure is returned to the caller, stored for the owner, deliberately caught, or explicitly dropped; it is never ignored, overwritten or lost when a function ends.",
  ["fault_sequences", "inputs"], "every fallible call site on every path of every shipped program",
  "Failures of the disk, memory, network, TLS or SQL layers are almost never injected by the tests, and a lost failure only shows as later silent corruption.",
  ["libdstr/logger.h", "libimaildir/imaildir.c", "libcitm/sc.c", "server/libsmsql.c"],
  [("error values", "libdstr/logger.h"), ("PROP/CATCH/DROP macros", "libdstr/logger.h")])
prop("E02", "Formatted output always matches its format string",
  "Every formatted message is produced from a constant format string whose number of placeholders equals the number of supplied arguments, and data from users or the network is never itself used as a format string.",
  ["inputs"], "every formatting, logging and tracing call in the shipped programs, on every path",
  "A mismatched or attacker-controlled format is only noticed on the error path that prints it, which tests do not reach.",
  ["libdstr/fmt.c", "libdstr/fmt.h", "libdstr/logger.h"], [("formatter", "libdstr/fmt.c:_fmt"), ("FMT macros", "libdstr/fmt.h")])
prop("E03", "JSON decoders look up well-formed key tables",
  "Every table of expected object keys given to the JSON decoder is strictly sorted and free of duplicates, so that every listed key is recognised in any document, and each key has a decoder and outputs of its own.",
  ["inputs"], "every object specification in the source, for every document decoded with it",
  "The decoder aborts or misses keys at run time only for documents that exercise the faulty table entry.",
  ["libdstr/jspec.c", "libdstr/jspec.h"], [("object spec", "libdstr/jspec.c:jspec_object_read")])
prop("E04", "Failed memory allocations are never dereferenced",
  "The result of every memory or object allocation is checked for failure before it is used, on every path.",
  ["fault_sequences"], "every allocation call site under any pattern of allocation failures",
  "Allocation failure is not injected by any test.",
  ["libdstr/common.h", "libcitm/citm.h", "libcrypto/crypto.c"], [("DMALLOC_STRUCT_PTR", "libdstr/common.h"), ("malloc users", "all directories")])
prop("E05", "Local resources are released exactly once on every path",
  "A file, descriptor, directory or cryptographic object opened by a function is, on every path out of it including the failure paths, either released exactly once or handed over to a longer-lived owner, and it is not used after release.",
  ["fault_sequences"], "every acquisition of a local resource, over all paths of the acquiring function",
  "Leaks and double releases sit on error paths that need injected failures.",
  ["libcrypto/crypto.c", "libimaildir/log_file.c", "libcrypto/networking.c", "api_client.c"], [("cu: labels", "every function with goto-style cleanup")])
prop("E06", "Objects are not used after they are freed or given away",
  "Once a function has freed the object a local pointer designates, or handed it over to a callee that takes it and clears the pointer, the pointer is not dereferenced or passed on again on any path before it is given a new value.",
  ["inputs", "fault_sequences"], "every release or hand-over in every function, on every path, failure paths included",
  "The uses after release sit on failure and completion paths that tests do not take.",
  ["libdstr/common.h", "server/dns/membuf.c"], [("hand-over idiom", "libdstr/common.h:STEAL"), ("buffer pool", "server/dns/membuf.c:membuf_return")])
prop("E09", "Nothing taken off a queue is lost",
  "An object taken off a queue or out of a lookup table (a pending read or write, a relayed command, a response, a session, a message view) is put on another queue, handed on, or released on every path, failure paths included; a queue element is never moved as if it were a whole queue, and a queue head is never queued as an element.",
  ["schedules", "fault_sequences"], "every place that takes an object off a queue, on every path",
  "A lost element shows only when a command or write had to wait, or when handling it failed half-way.",
  ["libdstr/link.c", "libduv/passthru.c", "libimaildir/imaildir.c"],
  [("queue operations", "libdstr/link.c"), ("pending writes", "libduv/passthru.c:advance_state"), ("relayed commands", "libimaildir/imaildir.c:imaildir_up_synced")])
prop("W01", "An event that arrives is always acted on",
  "After a completion callback (a read, write, connection, timer, datagram, reply or close that finished) has changed the state of its object, the object's state machine is run or scheduled, a callback is called, or another operation is started, on every path and in particular when the event was a failure; the same holds after an object was told to cancel, to be awaited or to shut down. Nothing is left waiting for an event that has already happened.",
  ["schedules", "fault_sequences", "histories"], "every completion callback and cancel, await or shutdown method of the client, proxy and event libraries, on every path",
  "A lost wake-up leaves a connection or account hanging, only for one order of events or after a failure that tests do not inject.",
  ["libduv/passthru.c", "libcitm/sc.c", "api_client.c", "server/kvpsend/kvpsend.c"],
  [("stream callbacks", "libduv/passthru.c:write_cb"), ("session callbacks", "libcitm/sc.c"), ("timers", "server/kvpsend/kvpsend.c")])
prop("E07", "No variable is used before it is given a value",
  "Whatever inputs, failures or early exits occur, a local variable is only used on paths that have given it a value: in particular, results of an operation that failed are not used, and cleanup code reached early does not touch what was not set up.",
  ["inputs", "fault_sequences"], "every local variable of the shipped programs, over every path of its function and the success and failure behaviour of every callee that fills it in",
  "Uses of unset values sit on error paths and behave plausibly by accident when they are executed in tests.",
  ["libimap/imf.c", "libcli/ui.c", "libcitm/imap_client.c", "libacme/jws.c"], [("cleanup labels", "every function with goto-style cleanup")])
prop("E08", "Decoded JSON values are used only when the document provided them",
  "A value read from a JSON document (a server reply, a key file, a status message) is used only where the document was found to match its specification and, for an optional key, where the key was found to be present.",
  ["inputs"], "every JSON decoding site with every document, matching or not, and every combination of present and absent optional keys",
  "Documents with missing or mistyped keys come from peers; tests supply complete ones.",
  ["libdstr/jspec.c", "api_client.c", "libcli/ui.c", "libacme/reqs.c"], [("decoder", "libdstr/jspec.c:jspec_read_ex")])
# ---- maildir -------------------------------------------------------------
prop("M01", "Mailbox index updates reach the disk before they are acknowledged",
  "Whenever an update to a mailbox's persistent index reports success, the complete record for that update has been written to the index and flushed to stable storage first.",
  ["crash_points", "histories"], "every index update operation and every crash point after it returns",
  "Durability can only be seen by cutting power at the right moment; the tests never crash.",
  ["libimaildir/log_file.c"], [("index writers", "libimaildir/log_file.c"), ("flush", "libdstr/fileops.c:dffsync")])
prop("M02", "The mailbox index is only ever replaced atomically",
  "The live mailbox index file is only appended to, or replaced by renaming a completely written and flushed temporary file over it; it is never truncated or rewritten in place, and never removed outside of a deliberate wipe of the mailbox.",
  ["crash_points"], "every crash point during compaction or repair of the index",
  "A crash inside compaction loses the whole mailbox index; no test crashes there.",
  ["libimaildir/log_file.c"], [("compaction", "libimaildir/log_file.c:maybe_compact"), ("repair", "libimaildir/log_file.c:imaildir_log_open")])
prop("M03", "Messages and expunges are logged in crash-safe order",
  "A message's index record is persisted before its file appears in the mailbox and again before the message is announced to clients, and an expunge is persisted before the message's file is deleted or the expunge is announced.",
  ["crash_points", "histories"], "every path that stores, downloads, copies or deletes a message, and every crash point along it",
  "The ordering only matters if the process dies between the two steps.",
  ["libimaildir/imaildir.c"], [("add local file", "libimaildir/imaildir.c:imaildir_add_local_file"), ("download", "libimaildir/imaildir.c:_imaildir_up_handle_static_fetch_attr"), ("delete", "libimaildir/imaildir.c:delete_msg")])
prop("M04", "UIDs and modification sequences are never reused",
  "Every client-visible UID, local UID and modification sequence is taken from a counter that only increases, and after opening a mailbox these counters are raised above every value found in its index before any new value is handed out.",
  ["histories", "crash_points"], "every history of opens, crashes, stores, copies and expunges",
  "Reuse needs a particular crash followed by a restart with a particular mix of messages.",
  ["libimaildir/imaildir.c"], [("counters", "libimaildir/imaildir.c:next_uid_dn"), ("high-water scan", "libimaildir/imaildir.c:imaildir_read_cache_and_files")])
prop("M05", "A broken mailbox detaches every one of its users",
  "When a mailbox fails or is force-closed, every attached client session and every attached upstream session, in whatever phase, is detached and notified before the mailbox is released; every failure while applying a server's update or a client's requested update to the mailbox triggers this, and a detached session does not touch the mailbox again.",
  ["fault_sequences", "schedules"], "every failing mailbox operation with any set of attached sessions",
  "Needs an I/O failure while several sessions are attached in different phases.",
  ["libimaildir/imaildir.c", "libimaildir/dirmgr.c"], [("broadcast", "libimaildir/imaildir.c:do_fail"), ("trigger", "libimaildir/imaildir.c:imaildir_maybe_fail")])
prop("M06", "Mailbox names cannot escape the user's mail directory",
  "No mailbox name is turned into a filesystem path under the mail directory unless it has first been checked to contain no empty, dot, dot-dot or reserved component.",
  ["inputs"], "every mailbox name supplied by a client or server on every path to the filesystem",
  "Tests use well-behaved names only.",
  ["libimaildir/dirmgr.c"], [("name check", "libimaildir/dirmgr.c:dirmgr_name_valid"), ("path construction", "libimaildir/dirmgr.c")])
prop("M07", "Sync progress is recorded only once everything below it is stored",
  "The upstream modification sequence of a mailbox is saved as fully synchronised only after no message download, flag update or expunge below it is still outstanding.",
  ["schedules", "histories"], "every interleaving of server responses during synchronisation",
  "Needs a disconnect between partial downloads and a specific ordering of responses.",
  ["libimaildir/up.c"], [("himodseq", "libimaildir/up.c")], claim=False,
  na="whether every download below a sequence number is complete is a relation between runtime sets of message ids and counters built up over many callbacks; no static argument in reach bounds it")
prop("M08", "A wipe of a mailbox survives a crash at any point",
  "Before a mailbox's index and message files are wiped it is marked on disk as invalid, the mark is removed only after both the index and all message files are gone, and opening a marked mailbox finishes the wipe, however often it was interrupted, before anything is read.",
  ["crash_points"], "every crash point during a wipe, and during a resumed wipe",
  "Needs a crash between individual file deletions.",
  ["libimaildir/imaildir.c"], [("uidvalidity change", "libimaildir/imaildir.c:imaildir_up_check_uidvld_up"), ("resume", "libimaildir/imaildir.c:imaildir_init_ex")])
prop("M09", "Mailbox freezes and holds are always released",
  "A delete or rename freezes every mailbox it touches before it asks the server to act, and every freeze or hold taken is released exactly once, on success, rejection, failure and disconnect alike; a frozen mailbox cannot be opened.",
  ["histories", "fault_sequences"], "every command history of a session, including disconnects in mid-command",
  "Leaks need a disconnect or a rejected command at the right moment.",
  ["libcitm/sc.c", "libimaildir/dirmgr.c"], [("freeze", "libimaildir/dirmgr.c:dirmgr_freeze_new"), ("hold", "libimaildir/dirmgr.c:dirmgr_hold_new")])
# ---- IMAP ----------------------------------------------------------------
prop("I01", "Every IMAP command gets exactly one completion reply",
  "Every command a client sends, in the states before STARTTLS, before login and after login, is reported as finished only after exactly one completion reply with its tag was queued, over all the steps in which it is worked on; it is never finished without a reply and never answered twice. Commands handed on to the next state are answered there, and a logout may be answered by closing the session.",
  ["inputs", "histories"], "every command with every argument and mailbox content, on every path and sequence of steps",
  "Empty mailboxes, empty result sets and updates in flight select rarely used branches.",
  ["libimaildir/dn.c", "libcitm/sc.c", "libcitm/anon.c", "libcitm/imap_server.c"], [("tagged replies", "libimaildir/dn.c:send_ok"), ("commands", "libcitm/sc.c:handle_cmd")])
prop("I02", "A read-only mailbox is never modified on behalf of its client",
  "While a client has a mailbox open read-only, no command from that client stores flags, marks messages as seen, or expunges messages, including implicitly when fetching or closing.",
  ["inputs", "histories"], "every command sequence in a read-only session",
  "Implicit changes through fetch or close only appear for specific argument combinations.",
  ["libimaildir/dn.c", "libcitm/sc.c"], [("examine flag", "libimaildir/dn.c")])
prop("I03", "Commands are only executed in the session state that allows them",
  "Before login only the commands valid before login are acted upon, mailbox commands are acted upon only while a mailbox is selected, and commands given in the wrong state are refused.",
  ["histories", "inputs"], "every command sequence a client can send",
  "There are dozens of commands times several states; tests sample few.",
  ["libcitm/imap_server.c", "libcitm/preuser.c", "libcitm/anon.c", "libcitm/sc.c"], [("anon phase", "libcitm/anon.c"), ("selected phase", "libcitm/sc.c")])
prop("I04", "Plaintext sent before STARTTLS never leaks into the TLS session",
  "When a connection upgrades to TLS, any unprocessed plaintext already received is discarded or treated as a failure before the first protected byte is interpreted, in both the client and the server role.",
  ["inputs", "schedules"], "every split of network input around the upgrade",
  "Command injection needs data pipelined into the same packet as the upgrade.",
  ["libcitm/imap_server.c", "libcitm/imap_client.c"], [("server upgrade", "libcitm/imap_server.c"), ("client upgrade", "libcitm/imap_client.c")])
# ---- crypto --------------------------------------------------------------
prop("C01", "Messages are encrypted before they leave the machine",
  "The message body of every upload to the mail server is the output of encryption to the user's own complete set of keys; a plaintext body is never sent upstream, and nothing is sent when encryption fails or there is no key.",
  ["inputs", "fault_sequences"], "every upload command and every failure inside encryption",
  "Requires failure injection and traffic inspection for every path.",
  ["libcitm/sc.c", "libcrypto/crypto.c"], [("append", "libcitm/sc.c"), ("encrypter", "libcrypto/crypto.c:encrypter_start")])
prop("C02", "Decrypted mail is trusted only after its authentication check",
  "Decryption reports success only if a matching key was found, the authentication tag was present in full length and the authenticated-decryption check accepted it; otherwise the plaintext is not stored in the mailbox as a message.",
  ["inputs"], "every possible ciphertext, including truncated and tampered ones",
  "Tampering can happen at any byte; tests try a handful.",
  ["libcrypto/crypto.c", "libcitm/keydir.c"], [("finish", "libcrypto/crypto.c:decrypter_finish"), ("process_msg", "libcitm/keydir.c")])
prop("C03", "Encrypted-message metadata is bounds-checked before use",
  "While parsing the header of an encrypted message, every length taken from the message is checked against both the data actually available and the capacity of its destination before it is used, and arithmetic on such lengths cannot wrap.",
  ["inputs"], "every encrypted-message header",
  "Hostile lengths are an infinite input space; tests use well-formed messages.",
  ["libcrypto/crypto.c"], [("metadata parser", "libcrypto/crypto.c:decrypter_parse_metadata")])
prop("C04", "A newly seen key is announced to the user before it is trusted",
  "When a new encryption key appears on the account, the alert message for the user is stored in the mailbox before the key is recorded as known, and the key is neither stored, used for encryption nor is a message encrypted to it delivered before that, so that a crash at any point can repeat but never lose an alert.",
  ["crash_points", "histories"], "every key list change and every crash point while handling it",
  "Needs a crash between alert and record.",
  ["libcitm/keydir.c", "libcitm/fpr_watcher.c"], [("alert", "libcitm/keydir.c"), ("record", "libcitm/fpr_watcher.c")])
prop("C05", "Secret key material is wiped after use",
  "Buffers into which a private key, a password or an account secret was read or copied in the cryptography, account and configuration code are overwritten before they are released, on every path, and secrets stored in objects are overwritten when the object lets go of them.",
  ["fault_sequences", "inputs"], "every path through functions holding secrets",
  "Memory contents after release are not observable to tests.",
  ["libcrypto/crypto.c", "api_client.c", "libcli/ui.c"], [("zeroization", "libdstr/common.c:dstr_zeroize")])
prop("C06", "Security-relevant randomness comes from the cryptographic generator",
  "Every session key, initialisation vector, token, salt, nonce and identifier that must be unguessable is produced by the cryptographic random generator, its success is checked before the value is used, and no weaker source of randomness is used anywhere in the shipped programs.",
  ["fault_sequences"], "every generation site of a random value, including generator failure",
  "Weak or failed randomness looks random to a test.",
  ["libcrypto/crypto.c", "server/libsmsql.c"], [("random_bytes", "libcrypto/crypto.c:random_bytes"), ("tokens", "server/libsmsql.c")])
# ---- TLS -----------------------------------------------------------------
prop("T01", "TLS contexts forbid obsolete protocol versions",
  "Every TLS context, client or server, is restricted to a minimum protocol of TLS 1.2 or disables all older versions before it is handed out.",
  ["configurations"], "every creation of a TLS context on every path", "Tests only connect with current protocol versions.",
  ["libcrypto/networking.c"], [("context setup", "libcrypto/networking.c")])
prop("T02", "TLS clients verify the server certificate and its host name",
  "Every outgoing TLS connection requires a certificate chain verified against the trusted roots and a certificate matching the exact host name being connected to, before the handshake starts.",
  ["inputs", "configurations"], "every certificate presented and every way of opening an outgoing connection",
  "A missing check does not show unless a man in the middle is simulated for each connection type.",
  ["libcrypto/networking.c", "libduvtls/tls.c"], [("verify mode", "libcrypto/networking.c"), ("host name", "libduvtls/tls.c")])
prop("T03", "No application data crosses a TLS stream before the handshake",
  "On a TLS stream, application data is encrypted or decrypted only after the handshake has completed, received data is delivered only from the decrypted side, and a handshake or record failure fails the stream.",
  ["schedules", "inputs"], "every interleaving of reads, writes and handshake steps",
  "Depends on event ordering in the asynchronous stream.",
  ["libduvtls/tls.c"], [("handshake", "libduvtls/tls.c")])
prop("T04", "Connections that promise TLS never carry mail in plaintext",
  "A listener configured for TLS serves connections only when a certificate is available, wraps every accepted connection in TLS (at once, or at STARTTLS before any mail traffic), and otherwise refuses service rather than continuing in plaintext; an upstream connection configured for TLS or STARTTLS carries no mail command before it is encrypted.",
  ["configurations"], "every listener type and certificate state", "Certificate states are hard to arrange in tests.",
  ["libcitm/uv.c", "libcitm/imap_server.c", "libcitm/imap_client.c", "libcitm/citm.c"], [("listeners", "libcitm/uv.c"), ("server side", "libcitm/imap_server.c"), ("client side", "libcitm/imap_client.c")])
# ---- account state -------------------------------------------------------
prop("A01", "Account state files are replaced atomically",
  "The files holding installation and API tokens, request nonces, certificates, TLS keys and known-fingerprint and known-mailbox lists are only ever replaced by completely writing and closing a temporary file and renaming it into place, migrated mail keys likewise; any state file that is written in place is regenerated when it is found damaged, instead of stopping the program for good.",
  ["crash_points"], "every crash point while saving state", "A torn credential file needs a crash in mid-write.",
  ["api_client.c", "libcitm/fpr_watcher.c", "libcitm/acme_manager.c", "libcitm/keydir.c", "libcli/ui.c"], [("token files", "api_client.c"), ("certificates", "libcitm/acme_manager.c")])
prop("A02", "An API request is never sent with an unsaved or repeated nonce",
  "Before an authenticated API request is signed and sent with an installation token, the token's nonce is incremented and the incremented value is saved to disk; if saving fails nothing is sent.",
  ["crash_points", "fault_sequences"], "every token-authenticated request with a crash or failure at any step",
  "Reuse only shows after a crash between send and save.",
  ["api_client.c", "libcitm/status.c"], [("nonce", "api_client.c")])
prop("A03", "A certificate is installed only with its matching saved key",
  "The key for a certificate order is saved to disk before the certificate is requested, and a new certificate is put in place only after the key it belongs to.",
  ["crash_points"], "every crash point of a certificate renewal", "Needs a crash in mid-renewal.",
  ["libcitm/acme_manager.c"], [("renewal", "libcitm/acme_manager.c")])
prop("A04", "Keys and credentials are discarded only when they are damaged",
  "A key, token, account or order file is deleted or replaced by a newly generated one only after its content was read and found invalid; a failure to read it (out of file descriptors or memory, permissions, I/O error) is reported and leaves the file alone.",
  ["fault_sequences"], "every failure to open or read a state file", "Tests do not make reading of key files fail.",
  ["libcitm/keydir.c", "libcitm/acme_manager.c", "api_client.c"], [("mail key", "libcitm/keydir.c:_load_or_gen_mykey"), ("TLS key", "libcitm/acme_manager.c:keygen_or_load")])
# ---- server database -----------------------------------------------------
prop("S01", "SQL text is constant and every parameter is bound",
  "Every SQL statement the server programs execute is a compile-time constant text (migration scripts excepted) with all variable data passed as bound parameters; the number, order, direction and type of the bound values fit the statement and the schema, and no result that can be NULL is used without testing for it.",
  ["inputs"], "every SQL statement in the server programs, every value it may return", "Injection, mis-binding and NULL results show only for particular data.",
  ["server/libsmsql.c", "server/mysql_util/mysql_util.c"], [("statement helper", "server/mysql_util/mysql_util.c")])
prop("S02", "Database changes that belong together are made atomically",
  "Every transaction that is opened is, on every path, either committed exactly once after all its statements succeeded or rolled back; no function makes more than one dependent change, or takes a row lock, outside of a transaction.",
  ["fault_sequences", "crash_points"], "every failure position inside every database function", "Tests do not fail statements in the middle of transactions.",
  ["server/libsmsql.c"], [("transactions", "server/libsmsql.c")])
prop("S03", "Secrets are compared in constant time",
  "Password hashes, token secrets and signatures are compared with values received from outside only by a comparison whose duration does not depend on where they differ.",
  ["inputs"], "every comparison of a secret in the server programs", "Timing is not observed by tests.",
  ["server/libsmsql.c", "libdstr/common.c"], [("constant-time compare", "libdstr/common.c:dstr_eq_consttime")])
prop("S04", "Session and token checks decide every authentication",
  "A password, session, anti-forgery token or signed request is accepted only if its record exists, it is not revoked on any server, not expired, not replayed and its secret matches; acceptance has recorded the new nonce or time of use under a row lock, and a session found expired is revoked for good.",
  ["inputs", "histories"], "every combination of found, revoked, expired, replayed and wrongly signed credentials",
  "Combinations of expiry, replay, revocation on several servers and signature failure are only sampled.",
  ["server/libsmsql.c"], [("sessions", "server/libsmsql.c:_validate_session_auth_txn"), ("tokens", "server/libsmsql.c:_validate_token_auth_txn")])
prop("S05", "Account-owned rows are only touched through their owner",
  "Every statement that reads, changes or deletes a row owned by an account or installation selects it by the identity of the account or installation it acts for, or by an address already shown to belong to that account.",
  ["inputs"], "every statement over an account-owned table", "Cross-account access needs two accounts and a guessed identifier for each statement.",
  ["server/libsmsql.c", "server/pysm/pysm.c"], [("account queries", "server/libsmsql.c"), ("python bindings", "server/pysm/pysm.c")])
prop("S06", "The HTTP API runs only authenticated requests",
  "Every API function runs only with an identity that a successful validation of this request's own credential returned: changes to keys and passwords need the password, installation functions need that installation's token, a session needs its anti-forgery token, and a signed request runs only the path and argument that were signed.",
  ["inputs", "histories"], "every route and every combination of credentials in a request",
  "The gateway has no tests; combinations of headers, cookies and bodies are unbounded.",
  ["server/rest/app.py", "server/rest/api.py"], [("authentication wrappers", "server/rest/app.py:regular_auth"), ("routes", "server/rest/app.py:ROUTES")])
# ---- DNS and kvpsync -----------------------------------------------------
prop("D01", "DNS packet parsing never reads outside the packet",
  "Every byte read from a received DNS packet or written to a reply is preceded by a check that its offset lies within the buffer, for names, compressed names, options and records alike.",
  ["inputs"], "every datagram of any content and length", "Hostile datagrams are an infinite input space.",
  ["server/dns/parse.c", "server/dns/write.c", "server/dns/dns.c"], [("parser", "server/dns/parse.c"), ("writer", "server/dns/write.c")])
prop("D02", "The DNS server never answers a response or a malformed query",
  "A reply is produced only for packets that parsed completely, are queries rather than responses, and whose header and question sections were validated; everything else is dropped or refused without reading missing sections.",
  ["inputs"], "every datagram", "Reflection loops need spoofed packets.",
  ["server/dns/dns.c"], [("handler", "server/dns/dns.c:handle_packet")])
prop("D03", "DNS replies are rate-limited and bounded in size",
  "Every reply sent over UDP has passed the response rate limiter and fits both the requester's advertised size and the reply buffer; otherwise it is truncated or dropped.",
  ["inputs", "schedules"], "every burst of queries", "Needs sustained spoofed traffic.",
  ["server/dns/main.c", "server/dns/rrl.c"], [("rate limiter", "server/dns/rrl.c")])
prop("K01", "Key-value receivers only serve data they know to be current",
  "A receiver answers lookups only while it is synchronised with an unexpired confirmation from its sender, and updates are applied only if they belong to the current synchronisation and arrive in sequence.",
  ["schedules", "histories", "fault_sequences"], "every loss, reordering and duplication of synchronisation packets",
  "Orderings of lost and duplicated datagrams are unbounded.",
  ["server/libkvpsync/recv.c"], [("receiver", "server/libkvpsync/recv.c")])
prop("K02", "Key-value synchronisation converges",
  "After any sequence of losses and restarts the receiver's contents eventually equal the sender's.",
  ["schedules", "fault_sequences"], "every loss pattern", "Unbounded schedules.",
  ["server/libkvpsync/send.c", "server/libkvpsync/recv.c"], [("resend", "server/libkvpsync/send.c")], claim=False,
  na="convergence is a liveness property over unbounded packet schedules and timer values; no static argument in reach decides it")
