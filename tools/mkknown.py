import subprocess
M={"do not convert the session of an unlinked client":("C01","an evicted client sending a mode escape made the daemon use a NULL console"),
"remove suspended clients that close":("C25","a suspended client that closed its connection kept its console (and made the daemon spin)"),
"disconnect stolen clients that have no pending":("C07","an evicted client without pending output was never disconnected"),
"survive client disconnecting before its address":("C02","a client resetting before its address was looked up ended the daemon"),
"do not terminate the daemon when accept() fails":("C02","a failing accept() ended the daemon"),
"do not terminate the daemon when a client cannot":("C02","a client that could not be set up ended the daemon"),
"close new client sockets on exec":("C23","client sockets were inherited by reset and process console helpers"),
"retry telnet consoles that fail to create a socket":("C14","a telnet console whose socket() failed was never retried"),
"reset telnet escape state":("C10","a partial telnet command before a reconnect corrupted the new connection's data"),
"ignore escaped IAC within telnet sub":("C10","IAC IAC within a subnegotiation ended it early and leaked option bytes as data"),
"escape IAC in data written to telnet":("C10","a 0xFF byte typed to a telnet console was sent unescaped"),
"do not use objects concurrently destroyed":("C01","client threads used objects the main loop was destroying"),
"check for busy consoles and link":("C07","two simultaneous connects could both become the only writer"),
"do not let poll() use tpoll's":("C16","a registration by another thread could reallocate the array poll() was using"),
"do not overflow tpoll's wait":("C15","a timer more than 24 days away made the event loop spin or wait forever"),
"size tpoll's fd array":("C16","tpoll wrote past its array when created with more events than its default"),
"do not skip the line after a timestamp":("C20","'server timestamp=N' at the end of a line swallowed the following line"),
"do not read past a format string":("C21","a format string ending in '%' was read past its end"),
"detect duplicate logfile names":("C21","two consoles whose specifier expanded to one log path shared the log"),
"write data buffered while a console was disc":("C05","input typed while a console was down was not sent after it reconnected"),
"do not replay stale log data":("C12","replay returned stale data after the logfile was shut down and reopened"),
"sort consoles by trailing":("C09","consoles with trailing integers beyond INT_MAX were listed out of order"),
"preserve errno in the SIGCHLD":("C02","SIGCHLD could change errno under interrupted code"),
"do not miss signals received":("C32","a signal arriving just before poll() was acted upon only at the next event"),
"do not lose console log data received just":("C32","log data buffered at termination was lost"),
"terminate process consoles when exiting":("C23","process consoles outlived a foreground daemon"),
"allow another reset once":("C24","after a reset completed, further resets were refused until its time limit"),
"perform session escapes in order":("C08","escapes took effect before data that preceded them in the same packet"),
"reset list iterators when sorting":("C18","sorting a one-element list left its iterators at the end"),
"keep an iterator's last item":("C18","list_delete after removing the following element crashed or lost the iterator's element"),
"do not read past tpoll's fd_array":("C16","a debug message read past the end of tpoll's array"),
"read a list item's data before unlocking":("C17","list_next and list_peek read an element after releasing the list's lock"),
"allow an escaped newline in files using CR":("C19","a backslash before a CR line ending was taken as a token, not a continuation"),
"a lone quote as unterminated":("C35","a string of one quote was accepted as complete"),
"read past an unterminated string when appending":("C35","strcat_printf read past a destination with no terminator"),
"do not lose processed console log":("C11", "a burst of short lines lost log data when timestamps outgrew the log buffer"),
"keep timestamps aligned after a daylight":("C33","timestamps drifted off their alignment after a daylight saving change"),
"keep the timestamp interval when":("C20","a line in error (timestamp=5x) disabled the interval set by another line"),
"console log name that is too long":("C20","an overlong log name was silently truncated"),
"kill what remains of a timed out reset":("C24","what a reset command left running after its shell exited outlived the time limit"),
"hold the objs lock while dispatching timers":("C23","attaching to a console at the moment its retry timer fired started its program twice or lost a descriptor, making the event loop spin"),
"serialize access checks":("C28","concurrent clients were given each other's TCP-Wrappers access decisions"),
"due to a stale inotify event":("C34","a queued inotify event disconnected a console that had just connected; a replaced socket was reconnected only after the backoff delay"),
"reject malformed seropts":("C29","a seropts string not starting with an integer, or followed by anything, was silently accepted; out-of-range integers were truncated"),
"pass CR, NL, and 0xFF unchanged":("C29","a tty with INLCR, IGNCR, or PARMRK set kept translating its input in raw mode"),
"restore a serial console's tty settings when closing":("C29","after a read error a serial device was left raw when the daemon exited"),
"when the settings of a serial console":("C29","the daemon exited when a serial device refused its settings"),
"objects still used by client threads":("C32","a client being served while the daemon was stopped used consoles and configuration already freed"),
"empty once decoded":("C01","a user name decoding to nothing violated an assertion: a debug build aborted"),
"closed by the server before the request":("C31","the client was killed without a diagnostic when the server had closed the connection before the request"),
"name is of the maximum length":("C31","a query that matched a console with a 1023-character name stopped there with an error"),
"restore the terminal when the client exits":("C30","the terminal was left raw when the session ended by an error (connection reset, log not writable)"),
"escape character with its high bit set":("C30","an escape character above 127 was never recognized"),
"input typed after the echo escape":("C30","characters typed directly after the echo escape were discarded"),
"IPMI engine callbacks ran without":("C36","an IPMI connection completing in an engine thread used the console and its sessions without the lock: data race with the main loop"),
"out-of-range numbers in IPMI options":("C36","ipmiopts numbers beyond an int were truncated and accepted (L:4294967298 as level 2)"),
"bound the regex complexity":("C01","a request with deeply nested or repetitive regexes overflowed the daemon's stack")}
out=["# known: property=<id> key=<key> <what fails>     (reported as KNOWN-FINDING, not as a violation)",
     "# fixed: property=<id> <commit> <what failed>      (repaired; suppresses nothing)"]
used=set()
for l in subprocess.run(["git","-C","/repo","log","--reverse","--format=%h %s","cc0a3a6..HEAD"],capture_output=True,text=True).stdout.splitlines():
    h,s=l.split(" ",1)
    hit=[k for k in M if k in s]
    if len(hit)!=1: print("??",l,hit); continue
    used.add(hit[0]); out.append("fixed: property=%s %s %s"%(M[hit[0]][0],h,M[hit[0]][1]))
print(set(M)-used)
open("/verif/known_findings.txt","w").write("\n".join(out)+"\n")
