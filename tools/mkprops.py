#!/usr/bin/env python3
"""Source of /verif/properties.jsonl (run after editing)."""
import json, os
P = []
def prop(id, title, statement, over, qtext, why, files, mech, observe=None):
    d = dict(id=id, title=title, statement=statement,
             quantifier=dict(over=over, text=qtext), why_tests_cant=why,
             anchors=dict(files=files, mechanism=[dict(name=n, where=w) for n, w in mech]))
    P.append(d)
T = "The only existing test (tests/0001-basic.t) starts one daemon with one test console, queries it once and stops it: "
H, I, S, C, F = "histories", "inputs", "schedules", "configurations", "fault_sequences"

prop("C01", "No hostile input causes undefined behaviour in the daemon",
 "No sequence of bytes sent by network clients or by console devices, and no sequence of session escapes, connects and disconnects, makes the daemon access memory out of bounds or after release, leak session memory, or execute undefined behaviour. The daemon is still running and still answers a well-formed request after any such input.",
 [I, H], "every byte sequence on the control port and on every console transport, every order of attaching, detaching and escaping",
 T + "no malformed request, no escape sequence and no hostile console byte is ever sent, and it is built without sanitizers.",
 ["src/server-sock.c", "src/server-esc.c", "src/server-telnet.c", "src/server-obj.c", "src/lex.c", "src/list.c"],
 [("request parsing in a per-client thread", "src/server-sock.c:process_client"), ("escape processing", "src/server-esc.c:process_client_escapes"), ("telnet option parsing", "src/server-telnet.c:process_telnet_escapes"), ("circular buffer", "src/server-obj.c:write_obj_data")])

prop("C02", "Client-side and system failures never take the daemon down",
 "A client that resets, half-closes, stalls or vanishes at any point of a session, and transient failures while accepting or serving a connection (descriptor exhaustion, aborted connections, thread creation failure), affect only that client: the daemon keeps running and keeps serving established and later clients and keeps logging consoles.",
 [F, H, S], "every point at which a connection can fail, every transient error an accept or connection set-up call can return",
 T + "its one client is well behaved and no system call ever fails.",
 ["src/server-sock.c", "src/server.c", "src/server-obj.c", "src/server-telnet.c"],
 [("connection acceptance", "src/server.c:accept_client"), ("handshake thread", "src/server-sock.c:process_client"), ("peer address lookup", "src/server-sock.c:resolve_addr")])

prop("C03", "Console output reaches every attached reader intact and in order",
 "Every byte a console outputs while a read-only or read-write session is attached is delivered to that session exactly once and in order, with nothing else in the stream but complete informational messages (lines starting '<ConMan> '). A session that reads too slowly may only lose oldest data, and then the loss is reported in the daemon's log; other sessions and other consoles are unaffected.",
 [H, S, I], "every console output, chunking, number and mix of sessions, partial writes and slow readers",
 T + "no client ever attaches to a console and reads its output.",
 ["src/server-obj.c", "src/server.c", "src/server-sock.c"],
 [("fan-out of console reads", "src/server-obj.c:read_from_obj"), ("circular buffer insert and overwrite", "src/server-obj.c:write_obj_data"), ("partial-write drain", "src/server-obj.c:write_to_obj"), ("event loop", "src/server.c:mux_io")])

prop("C04", "Console output is logged completely whether or not anyone is attached",
 "Every byte a logged console outputs is appended to that console's log file (after the configured log processing), in order and exactly once, independently of which clients attach, stall or leave, and it is never written to another console's log. Bytes typed by clients do not appear in a log unless the console itself outputs them.",
 [H, S, I], "every interleaving of console output with client activity, for any number of consoles",
 T + "it only checks that the log file exists.",
 ["src/server-obj.c", "src/server-logfile.c", "src/server.c"],
 [("log fan-out", "src/server-obj.c:read_from_obj"), ("log processing", "src/server-logfile.c:write_log_data"), ("log linkage", "src/server.c:open_objs")])

prop("C05", "Input typed by writers reaches their consoles intact and in order",
 "Every byte a read-write or broadcast session sends, other than escape sequences, is delivered to each console that session writes to, exactly once and in the order that session sent it, and to no other console. With several joined writers each writer's bytes keep their own order. A console that accepts input too slowly may only lose oldest pending input, and then the loss is reported in the daemon's log.",
 [H, S, I], "every byte value, chunking, escape position, number of writers and number of consoles in a broadcast",
 T + "no client ever writes to a console.",
 ["src/server-esc.c", "src/server-obj.c", "src/server-telnet.c"],
 [("escape unstuffing", "src/server-esc.c:process_client_escapes"), ("fan-out of client reads", "src/server-obj.c:read_from_obj"), ("telnet data escaping", "src/server-obj.c:write_obj_data")])

prop("C06", "Read-only sessions cannot act on a console; broadcasts get no output",
 "Nothing a read-only session sends changes a console: none of its bytes, breaks, deletes or reset requests reach the console while it is read-only. A broadcast session to several consoles never receives any console's output.",
 [H, I], "every byte sequence a monitor or broadcast session can send or be exposed to",
 T + "no monitor or broadcast session is opened.",
 ["src/server-sock.c", "src/server-esc.c", "src/server-obj.c"],
 [("linkage by command", "src/server-sock.c:perform_connect_cmd"), ("escape targets", "src/server-esc.c:perform_serial_break")])

prop("C07", "A console has one writer unless writers agree to share or force",
 "A connect or broadcast request that names a console already held by a writer is refused with a busy error naming the current holder and leaves every existing session untouched, unless it asks to join (then all writers coexist) or to force (then all previous writers of those consoles lose write access, are told who took over, and are disconnected). Read-only sessions are never refused as busy and are never evicted.",
 [H, C], "every history of connects, joins, forces, promotions, demotions and disconnects on any set of consoles",
 T + "two clients never compete for a console.",
 ["src/server-sock.c", "src/server-obj.c", "src/server-esc.c"],
 [("busy check", "src/server-sock.c:check_busy_consoles"), ("steal or join linkage", "src/server-obj.c:link_objs"), ("eviction", "src/server-obj.c:unlink_objs")])

prop("C08", "Session escapes change exactly the session state they name",
 "During a session, the client escapes to demote, promote by force or join, toggle quiet, request replay, and send break, delete or a literal escape byte each have exactly their documented effect on that session and its console, at the position in the byte stream where they occur (a break on a serial line is immediate) and however the stream is split into packets. Unknown escapes are discarded without affecting data or state.",
 [H, I, S], "every sequence of escapes mixed with data at every packet boundary",
 T + "no session is ever established, so no escape is processed.",
 ["src/server-esc.c", "src/server-obj.c"],
 [("escape state machine", "src/server-esc.c:process_client_escapes"), ("mode switch", "src/server-esc.c:perform_console_writer_linkage"), ("quiet toggle", "src/server-esc.c:perform_quiet_toggle")])

prop("C09", "Requests select exactly the consoles their patterns denote",
 "A query, monitor, connect or broadcast request acts on exactly the configured consoles whose names match its shell globs or, when asked, its case-insensitive whole-name regular expressions, each once, listed in the documented order. No match, several matches for a single-console request, an invalid expression and a malformed or empty request each yield their documented error code and no session.",
 [I, C], "every set of console names and every pattern list, glob or regex, including quoting-sensitive characters",
 T + "one query with one literal name against one console.",
 ["src/server-sock.c", "src/lex.c"],
 [("query evaluation", "src/server-sock.c:query_consoles_via_globbing / query_consoles_via_regex"), ("request parsing", "src/server-sock.c:recv_req"), ("console ordering", "src/server-obj.c:compare_objs")])

prop("C10", "Telnet consoles carry data transparently and negotiate correctly",
 "For a telnet console, application data passes unchanged in both directions: protocol commands and negotiations are removed from output, doubled escape bytes denote one byte, and input bytes are escaped so the peer decodes exactly what was typed. Options are offered and refused according to the protocol so that no negotiation loop arises, whatever the split of commands over packets and across reconnects.",
 [I, H, S], "every telnet command sequence, every split into reads, every reconnect point",
 T + "no telnet console is configured.",
 ["src/server-telnet.c", "src/server-obj.c"],
 [("incoming command parser", "src/server-telnet.c:process_telnet_escapes"), ("option policy", "src/server-telnet.c:process_telnet_cmd"), ("outgoing commands", "src/server-telnet.c:send_telnet_cmd")])

prop("C11", "Log processing transforms console text exactly as configured",
 "With log sanitising, the log contains only printable text with each control or high-bit byte in its documented caret or tilde notation and each newline variant (CR, LF, CR-LF, repeated CR, CR-NUL, LF-CR) written as one CR-LF; with timestamps, each line starts with exactly one valid timestamp; with neither, the log is byte-identical to the console output. The result does not depend on how the console output was split into reads.",
 [I, S, C], "every byte string, every split into reads, every combination of log options",
 T + "the log content is never examined.",
 ["src/server-logfile.c"],
 [("newline and sanitise state machine", "src/server-logfile.c:write_sanitized_log_data / write_log_data"), ("options", "src/server-logfile.c:parse_logfile_opts")])

prop("C12", "Log replay shows exactly the most recent console log data",
 "A replay request in a read-only or read-write session returns, between its begin and end markers, exactly the most recent bytes written to that console's log, up to 4096 of them and all of them if fewer, never stale or foreign bytes; an unlogged console yields the documented notice instead. Replay reaches only the requesting session and disturbs neither the log nor the live output order.",
 [H, I], "every amount of logged data including wrap-around of the internal buffer, interleaved with client activity",
 T + "no replay is ever requested.",
 ["src/server-esc.c", "src/server-obj.c"],
 [("replay", "src/server-esc.c:perform_log_replay"), ("wrap tracking", "src/server-obj.c:write_obj_data")])

prop("C13", "Log files are private, never overwritten, and rotate without loss",
 "Console logs are created readable and writable by the owner only, opened for append so that existing content is preserved across restarts unless truncation is requested on the command line (and then only at startup), and guarded by a lock unless disabled. After a reconfigure signal, logs that were renamed or removed are reopened under their configured name, with every logged byte in exactly one of the old or new files.",
 [H, S, C], "every sequence of restarts, rotations and signals, concurrent with console output",
 T + "a log is created once and never rotated, reopened or pre-existing.",
 ["src/server-logfile.c", "src/server.c"],
 [("log open", "src/server-logfile.c:open_logfile_obj"), ("reopen on signal", "src/server.c:reopen_logfiles"), ("daemon log reopen", "src/server.c:open_daemon_logfile")])

prop("C14", "Lost console connections are retried with bounded backoff until restored",
 "When a telnet, unix-socket or process console fails or cannot be reached, attached sessions stay open and the connection is retried automatically with the console type's minimum delay, doubling up to its maximum and starting over after a long enough uptime, until it succeeds. After reconnection data flows again in both directions with none of the old connection's bytes mixed in.",
 [F, H, S], "every pattern of connect failures, drops and uptimes over virtual hours",
 T + "its test console never disconnects and the delays exceed any test's duration.",
 ["src/server-telnet.c", "src/server-unixsock.c", "src/server-process.c", "src/server-obj.c"],
 [("telnet reconnect", "src/server-telnet.c:disconnect_telnet_obj"), ("unixsock reconnect", "src/server-unixsock.c"), ("process restart", "src/server-process.c:disconnect_process_obj"), ("reopen", "src/server-obj.c:reopen_obj")])

prop("C15", "Timers fire once, in order, never early, and cancel reliably",
 "Each scheduled timer fires exactly once, never before its deadline and as soon as the event loop regains control after it, timers fire in deadline order (those due at the same instant in the order they were set), and a cancelled timer never fires, for any set of delays, cancellations and timers scheduled or cancelled from within a callback. A wait never returns later than its own limit nor spins while nothing is due.",
 [H, I], "every sequence of absolute, relative and cancelled timers, including multi-week delays and re-entrant scheduling",
 T + "timers are internal and none expires in the test's lifetime.",
 ["src/tpoll.c"],
 [("timer queue", "src/tpoll.c:tpoll_timeout_absolute / tpoll_timeout_cancel"), ("wait computation", "src/tpoll.c:tpoll")])

prop("C16", "Descriptor event registration reports exactly what was asked for",
 "After any sequence of setting and clearing read/write interest on descriptors, a wait reports exactly the registered events that are ready, never one that was cleared, for any descriptor numbers including growth past the initial capacity, and a registration made by another thread takes effect promptly on a wait already in progress.",
 [H, S], "every sequence of set, clear, zero and wait over any descriptors from any thread",
 T + "at most a handful of descriptors are used and no thread races with the wait.",
 ["src/tpoll.c"],
 [("registration", "src/tpoll.c:tpoll_set / tpoll_clear / tpoll_zero"), ("growth", "src/tpoll.c:_tpoll_grow"), ("wake-up", "src/tpoll.c:tpoll_signal")])

prop("C17", "Shared lists, timers, logging and sessions are free of data races",
 "Concurrent use of the shared list, the event/timer multiplexer and the message log from several threads never races, deadlocks, or loses, duplicates or corrupts entries; and client threads setting up sessions while the main loop serves consoles never access shared state in a data race.",
 [S], "every thread interleaving of the shared-module operations",
 T + "the concurrency of client threads with the main loop is never stressed and no race detector is used.",
 ["src/list.c", "src/tpoll.c", "src/log.c", "src/wrapper.h"],
 [("list locking", "src/list.c"), ("tpoll locking", "src/tpoll.c"), ("log formatting", "src/log.c:log_msg")])

prop("C18", "List and iterator operations behave as an ordered sequence",
 "Under any sequence of appends, prepends, pushes, pops, enqueues, finds, deletions, sorts, iterations, insertions and removals through any number of live iterators, a list behaves as an ordered sequence: counts and order agree with the operations, each element is destroyed exactly once when deleted or when the list is destroyed, sorting is a permutation in order, and an iterator visits each element present throughout its walk exactly once.",
 [H, I], "every operation sequence with any number of concurrent iterators",
 T + "the list module is only used with one or two elements.",
 ["src/list.c"],
 [("node insert/remove with iterator fix-up", "src/list.c:list_node_create / list_node_destroy"), ("sort", "src/list.c:list_sort")])

prop("C19", "Protocol values survive the wire unchanged",
 "Console names, user names, terminal names and messages made of any printable characters, including quotes, spaces and backslashes, sent by one side of the client/server protocol are received by the other unchanged, and a request with more or longer tokens than supported is refused or truncated without affecting other clients. Lexing any text terminates and yields tokens and line numbers consistent with the documented grammar.",
 [I], "every string and every concatenation of tokens, up to and beyond the length limits",
 T + "only plain alphanumeric names are used.",
 ["src/lex.c", "src/server-sock.c", "src/client-sock.c"],
 [("encode/decode", "src/lex.c:lex_encode / lex_decode"), ("lexer", "src/lex.c:lex_next")])

prop("C20", "Configuration directives take effect exactly as written",
 "Every documented directive and console option takes effect as documented irrespective of letter case, spacing, comments, line continuation and the order of unrelated directives; global settings apply to the consoles that follow them and are overridden by per-console ones, and command-line options override the file. A line in error is reported with its line number, and never changes the meaning of another line.",
 [C, I], "every configuration file composed of valid, invalid and edge-case directives",
 T + "one three-line configuration is used.",
 ["src/server-conf.c", "src/lex.c", "src/server-serial.c", "src/server-logfile.c", "src/server-ipmi.c"],
 [("directive parser", "src/server-conf.c:process_config"), ("console parser", "src/server-conf.c:parse_console_directive"), ("global options", "src/server-conf.c:parse_global_directive"), ("server options", "src/server-conf.c:parse_server_directive")])

prop("C21", "Conversion specifiers expand to the right file names and commands",
 "In log file names and reset commands each documented specifier is replaced by the named value for that console and the current time, a doubled percent by one, unknown ones are left as written, and an expansion that does not fit is rejected rather than truncated. Expansion never lets one console's name or device, whatever separators or control characters it contains, produce another console's log path when the configured formats are distinct.",
 [I, C], "every format string and console name/device, at every length up to and beyond the limit",
 T + "no specifier is used.",
 ["src/server-obj.c", "src/server-logfile.c", "src/server-esc.c"],
 [("expansion", "src/server-obj.c:format_obj_string"), ("duplicate log check", "src/server-logfile.c:create_logfile_obj")])

prop("C22", "Only one daemon serves a configuration, and control options find it",
 "While a daemon runs, a second one started on the same configuration refuses to start without disturbing the first; the query, kill and reconfigure options act on exactly the daemon of that configuration and report failure when there is none, even after a crash left files behind. The pid file holds the daemon's pid while it runs and is removed when it exits.",
 [H, F, C], "every order of starts, stops, crashes, signals and control invocations",
 T + "one start and one stop, with no second instance, crash or stale file.",
 ["src/server.c", "src/server-conf.c", "src/util-file.c"],
 [("configuration lock", "src/server-conf.c:process_config"), ("pid file", "src/server-conf.c:write_pidfile"), ("control signals", "src/server.c:signal_daemon")])

prop("C23", "Helper processes run isolated and never outlive their purpose",
 "Processes started for process consoles and resets inherit none of the daemon's descriptors other than their own standard streams, and run with a sanitised environment. A process console's program is started once at a time, is killed when its connection closes, and is sent SIGTERM when the daemon exits; a reset command has its own process group, which is killed when it exceeds its time limit. Every helper is reaped, leaving no zombie.",
 [H, F, S], "every point in the daemon's life at which a helper can start or end, with any set of open clients, logs and consoles",
 T + "no helper process is ever started.",
 ["src/server-process.c", "src/server-esc.c", "src/server.c", "src/util-file.c"],
 [("process console start", "src/server-process.c:open_process_obj"), ("close-on-exec", "src/util-file.c:set_fd_closed_on_exec"), ("environment", "src/server.c:create_sane_env / sanitize_env"), ("reaping", "src/server.c:sig_chld_handler")])

prop("C24", "Reset runs the configured command once per request and console",
 "A reset escape from a session with write access runs each of its consoles' configured reset command, with specifiers expanded for that console, exactly once; while one is still running a further request for that console is refused with a notice naming it. A command exceeding its time limit is killed with all its descendants, after which resets work again.",
 [H, S, F], "every sequence of reset requests over any sessions and consoles, with commands of any duration",
 T + "no reset command is configured.",
 ["src/server-esc.c", "src/server.c"],
 [("reset", "src/server-esc.c:perform_reset"), ("time limit", "src/server-esc.c:kill_reset_cmd"), ("completion", "src/server.c:reset_console / mux_io reaping")])

prop("C25", "Suspended or stalled clients never block others and resume cleanly",
 "A client that suspends its output or stops reading receives nothing while suspended, delays neither the console, its log nor any other client, and on resuming receives the most recent data the daemon retained for it, in order. Disconnecting, being evicted or reset while suspended releases its console access promptly.",
 [H, S, F], "every history of suspend, resume, stall, eviction and disconnect with any amount of output in between",
 T + "no session is suspended or stalled.",
 ["src/server-esc.c", "src/server-obj.c", "src/server.c"],
 [("suspend toggle", "src/server-esc.c:perform_suspend"), ("overwrite policy", "src/server-obj.c:write_obj_data"), ("eviction", "src/server-obj.c:unlink_objs")])

prop("C26", "Sessions release everything they used",
 "After any number of client sessions, refused requests, reconnects, resets and log rotations have ended, the daemon's open descriptors, threads, child processes and memory return to what they were before, and consoles those sessions held are free.",
 [H, F], "every number and mix of sessions and failures",
 T + "a single query session is made.",
 ["src/server-sock.c", "src/server-obj.c", "src/server.c", "src/lex.c"],
 [("request destruction", "src/common.c:destroy_req"), ("object destruction", "src/server-obj.c:destroy_obj"), ("shutdown", "src/server-obj.c:shutdown_obj")])

prop("C27", "Participants are told who joins, takes over or leaves a console",
 "Whenever a writer attaches to, takes over, or leaves a console, every session of that console that has not asked for quiet receives exactly one complete message naming the console, the event and the user, and a quiet session receives none. A newly attached session is told about the console being down or about existing writers.",
 [H], "every history of arrivals, departures, takeovers and mode changes",
 T + "no second session exists to be notified.",
 ["src/server-obj.c", "src/server-sock.c"],
 [("arrival and departure messages", "src/server-obj.c:link_objs / unlink_objs"), ("distribution", "src/server-obj.c:notify_console_objs"), ("down notice", "src/server-sock.c:check_console_state")])

prop("C28", "Network exposure follows the access configuration",
 "With loopback enabled the control port accepts connections only on the loopback address; with address filtering enabled, a peer denied by the access files gets a refusal and no information or session, and filtering disabled accepts it. No request is acted upon before a valid greeting.",
 [C, I], "every combination of access settings, peer addresses and greetings",
 T + "only one loopback client with filtering disabled is used.",
 ["src/server.c", "src/server-sock.c"],
 [("listening socket", "src/server.c:create_listen_socket"), ("address filter", "src/server-sock.c:resolve_addr / process_client"), ("greeting", "src/server-sock.c:recv_greeting")])

prop("C29", "Serial consoles apply and restore line settings and pass data raw",
 "A serial console's device is configured with the requested speed, data bits, parity and stop bits in raw mode with data passed unchanged in both directions, and its previous terminal settings are restored when the daemon exits; an invalid option string or an unusable device is rejected with an error and never affects other consoles.",
 [C, I, H], "every option string and device condition",
 T + "no serial console is configured.",
 ["src/server-serial.c", "src/util-file.c"],
 [("option parsing", "src/server-serial.c:parse_serial_opts"), ("line settings", "src/server-serial.c:apply_serial_opts / set_serial_opts"), ("restore", "src/server-obj.c:destroy_obj")])

prop("C30", "The client relays the session transparently and honours its escapes",
 "The interactive client passes every typed byte to the server except its own escape sequences, displays every byte received and appends the same bytes to its session log when asked, for any escape character that is not itself an escape command; each documented escape performs its documented action and an unknown one passes both characters through. On any exit it restores the terminal settings it found.",
 [I, H, C], "every keystroke sequence, escape character setting, server output and way of exiting",
 T + "the client is only run once in query mode, without a terminal session.",
 ["src/client-tty.c", "src/client-conf.c", "src/client-sock.c"],
 [("stdin escape processing", "src/client-tty.c:read_from_stdin"), ("socket relay", "src/client-tty.c:read_from_socket"), ("terminal restore", "src/client-tty.c:connect_console")])

prop("C31", "The client asks for what its command line says and reports failures",
 "Each client command-line option, pattern list, pattern file and environment variable leads to exactly the documented request (mode, join/force/broadcast/quiet/regex, patterns, host and port), query results are printed one per line exactly as the server listed them, and any error from the server or the connection yields a diagnostic and a non-zero exit status, success zero.",
 [C, I, F], "every option combination and every server reply, including errors and premature disconnects",
 T + "one successful query is run.",
 ["src/client-conf.c", "src/client-sock.c", "src/client.c"],
 [("option parsing", "src/client-conf.c:process_client_cmd_line"), ("request", "src/client-sock.c:send_req"), ("reply", "src/client-sock.c:recv_rsp")])

prop("C32", "Stopping the daemon releases everything and loses nothing already received",
 "On a termination signal at any moment the daemon exits promptly and successfully, having removed its pid file, closed every session and console, written to each log all console output it had received before, and restored serial devices. A reconfiguration, child, or broken-pipe signal never stops it.",
 [S, H], "every moment and load at which a signal can arrive",
 T + "one idle daemon is terminated once.",
 ["src/server.c", "src/server-conf.c", "src/server-obj.c"],
 [("shutdown", "src/server.c:main / mux_io"), ("signal handling", "src/server.c:setup_signals"), ("object destruction", "src/server-obj.c:destroy_obj")])

prop("C33", "Periodic log timestamps appear at every aligned interval",
 "With a periodic timestamp configured, every console log receives exactly one timestamp message at each multiple of the interval, aligned to the clock, for any interval unit and length and over arbitrarily long runs; without it, none.",
 [C, H], "every interval and virtual uptime",
 T + "the interval exceeds the test's duration and is not configured.",
 ["src/server.c", "src/server-conf.c", "src/tpoll.c"],
 [("timestamp timer", "src/server.c:timestamp_logfiles / schedule_timestamp"), ("interval parsing", "src/server-conf.c:parse_server_directive")])

prop("C34", "Unix-socket consoles connect promptly once their socket appears",
 "A unix-socket console whose socket does not exist yet, disappears or is replaced is connected to the listener at its configured path promptly once that appears, and never to another path, however its directory's contents change meanwhile; activity on one console's directory never disturbs another console.",
 [H, F], "every history of creations, deletions, renames and replacements of sockets and directories",
 T + "no unix-socket console is configured.",
 ["src/server-unixsock.c", "src/inevent.c"],
 [("file watch", "src/inevent.c:inevent_add / inevent_process"), ("connect", "src/server-unixsock.c:connect_unixsock_obj")])

prop("C35", "Path, line and string helpers compute correct bounded results",
 "Directory-name extraction, directory-tree creation, line and fixed-count reading and writing, bounded string copy and concatenation, time-delta strings and in-place character substitution yield their documented result for every input, never exceeding the buffer they were given, under short reads, short writes and interruptions.",
 [I, F], "every string, buffer size and sequence of partial or interrupted transfers",
 T + "the helpers are only exercised with a few fixed short paths and lines.",
 ["src/util-file.c", "src/util-str.c", "src/util.c"],
 [("file helpers", "src/util-file.c"), ("string helpers", "src/util-str.c")])

prop("C36", "IPMI consoles relay data and honour their session options",
 "An IPMI console is opened with exactly the credentials, privilege, cipher, keys and workarounds configured for it (per-console over global over defaults), relays bytes unchanged in both directions, delivers serial breaks, and is reopened after failures with backoff; invalid options are rejected without affecting other consoles.",
 [C, H, F], "every option string and every sequence of engine successes and failures",
 T + "no IPMI console is configured and no BMC exists.",
 ["src/server-ipmi.c", "src/server-conf.c"],
 [("options", "src/server-ipmi.c:parse_ipmi_opts"), ("open/reopen", "src/server-ipmi.c:open_ipmi_obj")])

out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl")
with open(out, "w") as f:
    for d in P:
        assert len(d["title"]) <= 80, (d["id"], len(d["title"]))
        f.write(json.dumps(d) + "\n")
print(len(P))
