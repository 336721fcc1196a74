# further entries of T (see mkmanifest.py)
T.update({
 "C20": ("reference-model monitor over generated configurations + sanitizers", STEP + "every directive's observable effect and every reported line number compared with a model of the documented grammar"),
 "C21": ("reference-model monitor over log trees and reset commands + sanitizers", STEP + "the daemon runs as an unprivileged user; the set of files it creates and the commands it runs are compared with an independent expansion"),
})
T.update({
 "C11": ("reference-model monitor over log files under varied splits + sanitizers", STEP + "each log compared byte for byte with an independent whole-text model of the transformation"),
})
T.update({
 "C12": ("reference-model monitor over replays, rotation and log failure histories + sanitizers", STEP + "every session stream and log compared exactly around the replay-length and buffer limits"),
})
T.update({
 "C10": ("reference-model monitor with fake terminal servers (split and partial commands, reconnects, a conforming negotiator) + sanitizers", STEP + "streams, logs, decoded input and the exact negotiation answers compared; every option code under each verb"),
})
T.update({
 "C14": ("trace checker of recorded connection attempts against a backoff model in virtual time, with faults + session/log monitors + sanitizers", STEP + "every connect/fork of the daemon, stamped with its virtual time, must be exactly the attempt the schedule predicts; sessions, notices, held input and logs compared across up/down transitions"),
})
T.update({
 "C13": ("reference-model monitor over every inode that was a log, across rotation, restart, locking and load + sanitizers", STEP + "each file's bytes, mode and lock compared after every operation"),
 "C22": ("reference-model monitor over command histories (starts, control options, crashes) + sanitizers", STEP + "exit status, output and effect of every command on every daemon compared"),
 "C24": ("reference-model monitor with a self-recording reset command, fork interposer and virtual time + sanitizers", STEP + "every run of the command is recorded by itself and by the interposer and must match the requests one to one"),
})
T.update({
 "C23": ("self-recording helper programs + process-table monitor in virtual time, delay injection around fork and socket at timer expiry + sanitizers", STEP + "each helper records its descriptors, environment and ids; after every event the daemon's children are compared with the helpers its consoles must have"),
})
T.update({
 "C28": ("access-decision monitor with generated allow/deny rules, source addresses and concurrent clients + sanitizers", STEP + "every connection's admission, the bytes it got and the log line compared with an independent evaluation of the rules"),
 "C33": ("offline checker of every timestamp message over virtual time, across time zones and daylight saving changes + sanitizers", STEP + "each log's messages compared with the multiples of the interval since local midnight"),
 "C34": ("reference-model monitor over generated histories of sockets, links and directories in virtual time + sanitizers", STEP + "after every event each console must be connected to exactly the listener at its path and nobody else contacted"),
})
T.update({
 "C29": ("terminal-settings monitor (interposed tcsetattr/tcsendbreak on pseudo-terminals, initial settings generated) with data comparison and device faults + sanitizers", STEP + "every settings change, break and byte compared with what the configuration asks for"),
})
T.update({
 "C02": ("fault injection (client aborts at every protocol stage, failing system calls, exhausted descriptors, dying consoles) with a bystander session/console/log monitor + sanitizers", STEP + "after every fault the bystander's streams and log are compared exactly and a new client must be served"),
})
T.update({
 "C01": ("grammar-based hostile inputs at every interface under ASan+UBSan (assertions on) and MSan, with a probing client; heap growth over identical rounds", STEP + "after every burst the daemon must be alive, unreported and answer a probe; heap in use compared over identical rounds"),
 "C26": ("resource monitor (descriptors, threads, children, heap in use) over identical rounds of sessions and faults", STEP + "after every round the daemon's resources are compared with those before it"),
})
T.update({
 "C32": ("stop-time monitor (exit status, pid file, peers, helpers, tty settings, every log against the daemon's recorded reads) at random moments under load, with in-flight clients + sanitizers", STEP + "each log must hold exactly the bytes the daemon had read from that console"),
})
T.update({
 "C30": ("session monitor: the real client on a pseudo-terminal between a scripted user and a recording server, compared with a model of its escapes; also through the real daemon; + sanitizers", STEP + "bytes at the server, on the terminal and in the log, and the terminal settings, compared after every step and after every way of ending"),
 "C31": ("request and reply monitor: generated command lines, files and environments against recording, failing and hostile servers and the real daemon + sanitizers", STEP + "the request on the wire, the printed result, the log and the exit status compared with an independent reading of the command line"),
})
T.update({
 "C36": ("engine stand-in driven by the check: option model, retry schedule under a virtual clock, byte/notice/break/context accounting, engine-thread stress under TSan and ASan", STEP + "every attempt's credentials and time, every byte, notice, break and engine context compared with the model; threads raced under TSan/ASan"),
})
