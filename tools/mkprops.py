"""Writes /verif/properties.jsonl from the table below (one place to edit the wording)."""
import json, os
P = []
def p(id, title, statement, over, qtext, why, files, mech, state=None):
    d = {"id": id, "title": title, "statement": statement,
         "quantifier": {"over": over, "text": qtext}, "why_tests_cant": why,
         "anchors": {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech]}}
    if state:
        d["anchors"]["state"] = [{"name": n, "where": w} for n, w in state]
    P.append(d)
D = "dataplicity/"
M = D + "m2m/"

p("C01", "Wire encoding round-trips and is canonical",
  "Every value built from integers of any size and sign, byte strings, text, lists, tuples and dictionaries with byte-string keys encodes to exactly its bencode form and decodes back to an equal value (text as its UTF-8 bytes, tuples as lists). Two equal dictionaries encode to identical bytes whatever their insertion order, with keys in ascending byte order. A value outside this set (such as a float, or a dictionary with a text key) is refused with an error and yields no bytes.",
  ["inputs"], "all values of the wire types: all integers, all byte and text strings, all nestings",
  "tests encode about ten literals; none has a length or number that crosses a digit boundary, non-ASCII nested text, or unsorted keys deeper than one level",
  [M + "bencode.py"], [("encode/decode", M + "bencode.py")])

p("C02", "Decoding untrusted bytes terminates and rejects truncation",
  "Decoding any byte string finishes in time bounded by its length, ending in a value or an exception, never in an endless loop. A byte string that is a complete bencode value decodes to the value it denotes. A byte string cut short anywhere inside a value is rejected with an error, never returned as if it were complete.",
  ["inputs"], "all byte strings, including truncated, hostile and random ones",
  "tests decode well-formed literals plus one illegal digit; the space of malformed frames is unsampled",
  [M + "bencode.py"], [("decode", M + "bencode.py")])

p("C03", "Every packet kind survives the wire and ill-formed packets are refused",
  "For every packet kind of the protocol, a packet built with correctly typed fields (positionally or by name) is sent as the kind's number followed by its fields in protocol order, and reading those bytes gives a packet of the same kind with equal fields. A packet with a missing field or with a field of the wrong type is refused with a packet-format error when it is built and when it is read. Bytes that are not a packet list with a known number are refused with a packet error.",
  ["inputs", "programs"], "all packet kinds, all field values, all single-field type errors and missing fields",
  "tests use two of about fifty packet kinds with fixed field values",
  [M + "packetbase.py", M + "packets.py"], [("field validation", M + "packetbase.py init_params"), ("registry", M + "packetbase.py PacketMeta")])

p("C04", "No inbound message or handler failure stops the agent listening",
  "Whatever binary messages and connection events the server sends (malformed, unknown, wrongly typed or missing fields), and whatever exception the code reacting to a message raises, the agent's receive loop neither ends nor hangs and the next well-formed message is handled normally. A malformed, unknown or ill-typed message causes no action: no packet sent, no channel opened, no file touched, identity unchanged.",
  ["inputs", "histories", "fault_sequences"], "all message bytes and event sequences, all exceptions out of handlers",
  "no test drives the websocket event loop at all",
  [M + "wsclient.py", M + "dispatcher.py"], [("event loop", M + "wsclient.py run/on_event/on_binary/on_packet"), ("dispatch", M + "dispatcher.py")])

p("C05", "Handshake, identity and ping protocol",
  "On every successful connection the first packet the agent sends is an identify with the identity it currently holds, or a join if it holds none; a disconnect makes it forget the identity, and only a set-identity packet from the server (received while the client has not been closed) gives it one. Every ping is answered by exactly one pong carrying the first 1024 bytes of the ping's data, and nothing else is sent for it.",
  ["inputs", "histories"], "all event histories and all ping payloads of any length",
  "no test drives the websocket client's handshake or ping handling",
  [M + "wsclient.py"], [("on_ready/on_disconnected/handle_set_identity/handle_ping", M + "wsclient.py")])

p("C06", "Channel data is delivered once, in order and complete",
  "The bytes a channel's consumer gets, either through its data callback or by buffered reads of any sizes, are exactly the bytes the server routed to that channel number, in order, with nothing lost, duplicated, reordered or taken from another channel. A read returns at most the requested number of bytes and, when it need not wait, as many as are buffered up to that number; the channel reports exactly whether and how many bytes are buffered.",
  ["inputs", "histories", "schedules"], "all chunk lengths, all read sizes, all interleavings of arrivals with reads",
  "tests route one 7-byte chunk and read it in two pieces on one thread",
  [M + "wsclient.py"], [("Channel.on_data/read/size", M + "wsclient.py"), ("handle_route", M + "wsclient.py")])

p("C07", "Closed channels stay closed; reopened numbers start fresh",
  "When the server closes a channel, or the connection drops, each affected channel's close callback runs exactly once, an exception in it affects nothing else, and afterwards that channel delivers no data or control messages and sends nothing, not even a close request. A channel number used again after its close or after a reconnect denotes a new, open channel with no callbacks or data of the old one. Closing from the agent's side only sends one close request and leaves the channel open until the server confirms.",
  ["histories", "fault_sequences"], "all histories of open, data, control, close, disconnect and reconnect events over any channel numbers",
  "tests call on_close on a bare channel; none has a disconnect, a reconnect or a number being reused",
  [M + "wsclient.py"], [("Channel.on_close, on_notify_close, hard_close_channels, get_channel", M + "wsclient.py")])

p("C08", "Each server command response reaches its callbacks exactly once",
  "A callback registered for a command id is invoked exactly once: with the result when the response with that id arrives, or with no result when the connection drops first; a response with another id never invokes it. An exception in one callback does not keep the others from being invoked.",
  ["histories", "fault_sequences"], "all sequences of registrations, responses, disconnects and callback failures",
  "no test registers a command callback",
  [M + "wsclient.py"], [("add_callback/callback/clear_callbacks", M + "wsclient.py")])

p("C09", "Messages from concurrent services reach the transport whole, one at a time",
  "However the service threads and the receive thread interleave, at most one of them is inside the websocket transport at a time, every message handed to it is one complete encoded packet with the right channel number, and the messages of each sender appear in the order it sent them. A transport error on one send never prevents or blocks later sends.",
  ["schedules", "fault_sequences"], "all interleavings of sending threads, all transport failures",
  "no test sends from two threads; the transport compresses with shared state, so overlapping sends corrupt the connection only under rare schedules",
  [M + "wsclient.py"], [("WSClient.send/send_bytes, Channel.write", M + "wsclient.py")])

p("C10", "Concurrency limits are never exceeded under any schedule",
  "However threads acquire and release a limiter, the number of holders never exceeds its limit and never goes below zero; an acquisition at the limit is refused immediately with an error and changes nothing, and one below the limit is granted. If the setup run under an acquisition fails, the acquisition is given back exactly once; if it succeeds, it is kept.",
  ["schedules", "inputs", "fault_sequences"], "all limits and counts, all interleavings of acquire, release and failing setups",
  "no test touches the limiter's logic",
  [D + "limiter.py"], [("Limiter, limiter_context", D + "limiter.py")])

p("C11", "Service slots never leak and refused services are reported",
  "Every terminal, file, command and port-forward request that is admitted holds exactly one slot of its own pool until its work ends, and gives it back exactly once however the work ends (normally, by any I/O error, refused connection, closed channel or failing transport) and also when its thread cannot be started. A request refused because its pool is full or its thread cannot start does no work (no file opened, command run, connection made or process spawned), sends the client a failure notice on its channel and asks for that channel to be closed.",
  ["fault_sequences", "histories"], "all failure points of each service and all pool fill levels",
  "tests never exhaust a pool, never fail a thread start and never let a service fail midway",
  [D + "m2mmanager.py", M + "fileservice.py", M + "commandservice.py", M + "remoteprocess.py", D + "portforward.py", D + "limiter.py"],
  [("with limiter() around thread start; decrement in finally", "each service")])

p("C12", "File service sends exactly the file, then closes",
  "A requested file is sent over its channel as exactly its bytes in order, stopping early only if the channel closes, and the channel is then asked to close exactly once. If the file cannot be opened or reading fails at any point, one error control message is sent before the close and no wrong data. Exactly the requested path is opened (relative paths taken from the root directory; paths are UTF-8), read-only.",
  ["inputs", "fault_sequences"], "all file sizes and contents, all read split points, all failure and channel-close points",
  "no test covers the file service",
  [M + "fileservice.py"], [("FileService._run_service", M + "fileservice.py")])

p("C13", "Command service streams stdout fully and always completes",
  "A run command's standard output is sent over the channel exactly, in order and complete up to its end, however the output is split and whatever arrives on standard error, which is never sent. When the output ends, the service fails or the channel closes, the service stops, sends one completion control message, asks for the channel to close, and kills the process if it is still running; it never keeps running after the output has ended. A command that cannot be started at all is reported by one error control message and a close request instead.",
  ["inputs", "fault_sequences", "histories"], "all output lengths and splits, all poll event sequences, all failure points",
  "no test covers the command service",
  [M + "commandservice.py"], [("CommandService._run_service poll loop", M + "commandservice.py")])

p("C14", "Port forwarding connects only to the requested local service",
  "A port-forward request by service name connects only to the loopback address at the port registered for that name (web 80, ext 81, extalt 8000, alt 8080), a redirect request only to the loopback address at the requested port, in both cases using the channel given in the request. An unknown service name opens no connection and no channel traffic.",
  ["inputs", "histories"], "all service names, port numbers and channel numbers, all sequences of requests",
  "tests mock out the connect step and check only that it was called",
  [D + "portforward.py", D + "m2mmanager.py"], [("PortForwardManager.open_service/redirect_port, Service.connect", D + "portforward.py")])

p("C15", "Port-forwarded bytes are relayed in order and complete in both directions",
  "Every byte the server sends on a forwarded channel, including bytes that arrive before the local connection is established, is written to the local socket exactly once and in order; after a failed write nothing further is written past the gap. Every byte read from the local socket is sent on the channel exactly once and in order up to the end of its stream, for every way the operating system may split, delay or end it.",
  ["inputs", "schedules", "histories", "fault_sequences"], "all chunkings, all poll event sequences, all interleavings of channel data with connection establishment",
  "no test moves a byte through a forwarded connection",
  [D + "portforward.py"], [("Connection._run recv loop, on_channel_data/_flush_buffer", D + "portforward.py")])

p("C16", "Forwarded connections end cleanly and independently",
  "When the local server ends or breaks the connection, cannot be reached, or the channel closes, that forwarded connection's thread stops, the channel is asked to close if still open, and the local socket is shut down in the direction concerned, for any clock readings. Nothing that happens on one forwarded connection ends, disturbs or prevents any other, current or future.",
  ["fault_sequences", "histories", "schedules"], "all ways a connection can fail or end, with other connections live or opened later",
  "no test runs a forwarded connection to its end",
  [D + "portforward.py"], [("Connection._run/_connect/finally", D + "portforward.py"), ("shared close event", D + "portforward.py PortForwardManager")])

p("C17", "Remote file reads stay inside the remote directory and snapshot area",
  "Whatever path and upload id the server sends, opening a remote file reads only the scan result or a path that lies lexically under the configured remote directory, and creating, reading and removing snapshots touches only files directly inside the agent's own snapshot directory. A path or id that would escape is refused with an error result and touches no file.",
  ["inputs"], "all path and id strings, including back references, absolute paths, empty and special components",
  "no test covers the remote directory",
  [D + "remote_directory.py"], [("validate_path, add_upload, get_snapshot_path", D + "remote_directory.py")])

p("C18", "Pushed files land only inside the remote directory and overwrite nothing",
  "Whatever target path and id the server sends with pushed data, the staging file is created only directly inside the agent's own downloads directory and the finished file appears only at a path lexically under the configured remote directory. If the requested name is taken the file is stored under a numbered variant of it, and an existing file is never replaced; if no free name exists the push fails and everything is left as it was.",
  ["inputs", "histories"], "all target paths and ids, all sets of already existing names",
  "no test covers pushed files",
  [D + "remote_directory.py"], [("add_download, copy_download", D + "remote_directory.py")])

p("C19", "Snapshot reads return the file as it was when opened",
  "After a successful open, whose reply gives the snapshot's size, every read of that upload id returns exactly the bytes at the requested offset, limited to the requested size and the end of the file, of the file's content at the time of the open, whatever happens to the original file or to other uploads until it is closed. Every open and read request gets exactly one reply with its own id, marked failed with a reason and no data exactly when it could not be served; a close removes that snapshot only and repeated closes are harmless.",
  ["inputs", "histories", "fault_sequences"], "all offsets, sizes and contents, all sequences of open, read, modify and close over several ids, all I/O failures",
  "no test covers remote file packets",
  [D + "remote_directory.py", M + "wsclient.py"], [("on_open_remote_file, on_read_remote_file, on_close_remote_file", D + "remote_directory.py")])

p("C20", "Pushed chunks are assembled exactly and every chunk is acknowledged",
  "A file pushed in chunks ends up with each chunk's bytes at exactly the offset sent with it and with no other bytes changed, and appears in the remote directory only when a final chunk says so. Every chunk request gets exactly one reply, carrying its id and the staging path; it reports success, with the position after the chunk, exactly if the chunk was stored (and, for a final chunk, the file delivered), otherwise a failure with a reason.",
  ["inputs", "histories", "fault_sequences"], "all chunkings, offsets and lengths, all I/O failures at any step",
  "no test covers pushed files",
  [D + "remote_directory.py"], [("on_write_remote_file", D + "remote_directory.py")])

p("C21", "Snapshots never eat the last 50 MB of disk",
  "When disk usage is known, a snapshot is made only if used space plus the file's size leaves at least 50,000,000 bytes of the volume's total free, and every request that satisfies this is not refused for space; when usage cannot be determined the request is honoured. Reported disk usage is total = blocks x fragment size, used = (blocks - free blocks) x fragment size and free = available blocks x fragment size.",
  ["inputs", "configurations"], "all volume sizes, fill levels, fragment sizes and file sizes",
  "the only disk test checks that an attribute exists",
  [D + "remote_directory.py", D + "disk_tools.py"], [("add_upload disk check", D + "remote_directory.py"), ("disk_usage", D + "disk_tools.py")])

p("C22", "Directory scans list exactly the visible tree and always finish",
  "For a directory tree without links, a scan lists each directory and file whose path has no hidden component and that lies within the depth limit exactly once under its own parent, with file sizes when asked for (or -1 when unknown), and lists nothing else. Entries or directories that cannot be examined are left out without losing the rest. With links of any kind, including cyclic ones, the scan still finishes and, where the depth limit is not reached, still lists every visible directory with its files at least once.",
  ["inputs", "configurations", "fault_sequences"], "all directory trees (names, kinds, depths, sizes, volumes, cycles) and all per-entry errors",
  "no test covers scanning",
  [D + "scan_directory.py"], [("scan_directory stack walk", D + "scan_directory.py")])

p("C23", "The published scan result is always a complete scan",
  "At every moment, including during a rescan and after a crash or write failure at any point, the scan result that can be fetched is either absent or one complete earlier or current scan, never a partial one. At most one scan runs at a time, and success is reported only after that scan's result is fully in place; a scan that fails reports no success and leaves the previous result available and later scans possible.",
  ["crash_points", "schedules", "fault_sequences"], "all crash points and write failures, all interleavings of scans with fetches and other scan requests",
  "no test covers the scanner",
  [D + "directory_scanner.py", D + "remote_directory.py"], [("perform_scan, write_scan", D + "directory_scanner.py")])

p("C24", "A remote call returns only the answer to that call",
  "A remote procedure call sends one request with a fresh id and returns the result only of a JSON-RPC 2.0 response with that id that carries no error; an error response raises an error with the server's code and message (the standard codes as one kind, all others as another) and names the method. An unreachable server, undecodable or mismatched response raises an error of its own kind; in every case the response stream is closed, and a failed call affects no later call.",
  ["inputs", "fault_sequences", "histories"], "all response values (missing, extra or wrong fields) and all transport failures, any sequence of calls",
  "tests try about five fixed responses",
  [D + "jsonrpc.py"], [("JSONRPC.call/_send/_handle_error", D + "jsonrpc.py")])

p("C25", "Batch results and errors go to the call they belong to",
  "In a batch every call has its own id (a repeated id is refused), the whole batch is sent in one request in call order on leaving the block, and not at all if it was abandoned or the block raised. Afterwards, whatever order the responses come in and whatever extra or missing entries they have, asking for a call's result gives the result the server sent for that id, raises the error sent for that id (or gives the supplied default), or fails if there was none; checking several ids raises if any of them failed or is missing.",
  ["inputs", "histories"], "all response lists: orders, ids, results, errors, duplicates, omissions",
  "one test uses a two-entry batch in order",
  [D + "jsonrpc.py"], [("Batch", D + "jsonrpc.py")])

p("C26", "The m2m identity is announced until the server accepts it",
  "The agent considers an identity announced only when the server has accepted both the authentication and the association of exactly that identity; after any failure (unreachable, rejected, malformed or missing answer) it announces again at the next opportunity. Once accepted, the same identity is not sent again, and a changed identity is announced. No failure of an announcement escapes to the connection.",
  ["fault_sequences", "histories"], "all sequences of identities, polls, server answers and failures",
  "no test calls the announcement code",
  [D + "client.py", D + "m2mmanager.py", M + "wsclient.py"], [("set_m2m_identity", D + "client.py"), ("M2MManager.set_identity", D + "m2mmanager.py")])

p("C27", "Device details and tags are reported until acknowledged, then only on change",
  "Every report is sent in one batch together with the device's credentials. Device details are sent at each poll until the server has accepted authentication and every detail, and never again after that; tags are sent exactly when they differ from the last list the server acknowledged; disk use is reported at most once per hour of clock time and at the first poll after an hour has passed.",
  ["histories", "fault_sequences"], "all sequences of polls, clock readings, tag lists, server answers and failures",
  "tests cover one failing sync; the working disk test needs the network",
  [D + "client.py"], [("disk_poll, tag_poll, _sync, _check_meta", D + "client.py")])

p("C28", "The agent's main loop survives every failure and stops only when asked",
  "Whatever ordinary exceptions the disk, tag and sync steps raise, at any poll and in any combination, the remaining steps of that poll still run and the agent keeps polling. It stops polling exactly on an exit request, an interrupt or a system exit, and then shuts down exactly once with the clock watch stopped; a sync that fails leaves later syncs possible.",
  ["fault_sequences", "histories"], "all failure combinations over any number of polls",
  "tests cover only poll() itself raising SystemExit or KeyboardInterrupt",
  [D + "client.py"], [("run_forever, poll, sync", D + "client.py")])

p("C29", "The clock watch restarts the agent exactly on large forward jumps",
  "While running, the clock watch kills the agent's own process, and only that, with an unblockable signal whenever a one-second wait appears to take more than 180 seconds by the wall clock, and never when it appears to take 180 seconds or less. It keeps watching for as long as it is running and ends once it is told to stop.",
  ["inputs", "histories"], "all clock readings over any number of periods",
  "no test covers the clock watch",
  [D + "clockcheck.py"], [("ClockCheckThread.run", D + "clockcheck.py")])

p("C30", "Terminal input and output are complete and in order",
  "Every byte the user sends to a terminal is written to its process once and in order, however the operating system splits the writes. Every byte the process outputs, up to the end of its output, including what it printed just before exiting, is sent on the channel once and in order. A resize request sets the terminal to the given columns and lines.",
  ["inputs", "histories", "fault_sequences"], "all data lengths, write splits, poll event sequences and sizes",
  "no test covers the terminal code",
  [M + "proxy.py", M + "remoteprocess.py"], [("Interceptor._copy/write_master/_set_pty_size", M + "proxy.py")])

p("C31", "A terminal's process is hung up on channel close, then killed if it lingers",
  "When a terminal's channel closes, at any moment of the terminal's start or life, its process is sent a hang-up, exactly once. If the process is still there 15 seconds later it is killed once; no signal is ever sent before that, after the process has been reaped, or to any other process, and the wait for it ends when it exits.",
  ["schedules", "histories", "inputs"], "all interleavings of closing with starting, all process lifetimes and clock readings",
  "no test covers the terminal process life cycle",
  [M + "remoteprocess.py", D + "m2mmanager.py"], [("RemoteProcess.close, PidWaitThread.run", M + "remoteprocess.py")])

p("C32", "Each server instruction does exactly what it names",
  "An instruction performs exactly the one action its name stands for (sync, open terminal, echo, port forward, port redirect, reboot, read file, run command, scan), with the parameters it carries and on the channel it names. An instruction with an unknown name, an unknown terminal or service, or missing parameters performs none, and never reboots the device.",
  ["inputs"], "all instruction names and parameter values",
  "one test sends one port-redirect instruction",
  [D + "m2mmanager.py"], [("M2MManager.on_instruction", D + "m2mmanager.py")])

p("C33", "Machine tags are parsed exactly from the tag script's output",
  "The machine tags are the maximal pieces of the tag script's output between commas and white space, in order, each cut to its first 25 characters, with no empty tag and undecodable bytes dropped. A missing or unrunnable script gives no tags; a script that fails gives an error, not an empty list.",
  ["inputs", "fault_sequences"], "all script outputs and script failures",
  "no test covers tags",
  [D + "tags.py"], [("get_tag_list", D + "tags.py")])

p("C34", "Device details are parsed exactly from system data",
  "The machine revision is the trimmed, lower-cased value of the first revision line of the CPU information whatever surrounds it, or none if there is none or it cannot be read. The reported IP addresses are exactly those of the interfaces the kernel returned, in order, and a failure to list them gives an empty list; the details are gathered once and every caller gets its own copy.",
  ["inputs", "fault_sequences"], "all CPU information contents, all interface tables, all failures",
  "tests parse one fixed revision line and do not cover interfaces",
  [D + "rpi.py", D + "iptool.py", D + "device_meta.py"], [("get_machine_revision", D + "rpi.py"), ("get_all_interfaces", D + "iptool.py"), ("get_meta cache", D + "device_meta.py")])

p("C35", "The command line reports failure through its exit status",
  "A subcommand that succeeds exits with status 0, and one that raises an error exits with a non-zero status after a message that names the error (or, with debug on, the original error); no subcommand given or an invalid log level is reported by a message and a non-zero status too. Options given on the command line reach the agent unchanged and take precedence over the stored configuration files.",
  ["inputs", "configurations", "fault_sequences"], "all option combinations and subcommand outcomes",
  "tests call two subcommands directly, bypassing the command line",
  [D + "app.py", D + "client.py", D + "constants.py"], [("App.run/main/_init_logging/make_client", D + "app.py")])

p("C36", "Passwords never appear in packet descriptions",
  "The printable description of a packet that carries a password, which is what the agent logs, never contains any part of the password, whatever its value, and neither does the error raised for one that is ill-formed. Long binary fields appear there only as their first 32 bytes and a count of the rest.",
  ["inputs"], "all passwords and field values",
  "tests only check that the description of one packet without a password is not None",
  [M + "packetbase.py"], [("PacketBaseType.__repr__", M + "packetbase.py")])

p("C37", "The router connection is encrypted and authenticated",
  "All traffic to the router is carried over TLS with the server's certificate verified.",
  ["configurations", "fault_sequences"], "all network conditions and certificates",
  "no test makes a TLS connection",
  [M + "wsclient.py"], [("lomond WebSocket", "third-party library lomond and the ssl module")])

p("C38", "Behaviour is the same on Python 2.7 and Python 3",
  "The agent gives the same results on every Python version it supports.",
  ["configurations"], "Python 2.7, 3.5, 3.6, 3.7 and 3.9",
  "tests run here on one interpreter",
  [D + "compat.py"], [("compat", D + "compat.py")])

p("C39", "A terminal runs exactly its command, as its user and group, in its own process",
  "Opening a terminal starts one new process of its own, in a terminal window of the requested size (80 by 24 if none is given), which runs exactly the terminal's configured command line with its arguments, as the configured user and group where these exist and otherwise with the agent's identity. If the identity cannot be taken on or the command cannot be run, the new process runs nothing else and does none of the agent's work (it sends nothing, starts nothing, signals nothing). The agent itself never changes its identity or program.",
  ["inputs", "fault_sequences"], "all user and group ids of the agent and the terminal, known or unknown, all refusals, any number of terminals",
  "no test forks a terminal's process",
  [M + "proxy.py", M + "remoteprocess.py", D + "m2mmanager.py"], [("Interceptor.spawn", M + "proxy.py"), ("Terminal.launch", D + "m2mmanager.py")])

p("C40", "An echo channel sends back exactly what it receives",
  "Every byte the server sends on a channel after an echo service was opened on it is sent back on that channel exactly once and in order (as far as the transport takes it), whatever happens on other channels, until the channel closes or the connection drops. Nothing is echoed on a channel without an echo service, and an echo channel sends nothing but data: no control message and no close request.",
  ["inputs", "histories"], "all data, all histories of openings, data, closes, lost connections and transport failures on any channels",
  "the only test of the echo service does not pass here and sends one fixed message",
  [M + "echoservice.py", M + "wsclient.py", D + "m2mmanager.py"], [("EchoService", M + "echoservice.py"), ("open_echo_service", D + "m2mmanager.py")])

p("C41", "The auth token is told to the API server only",
  "The device's auth token is sent only to the configured API server, as the auth_token of its authentication calls and exactly as configured. Nothing the agent logs, sends over the router connection, does to files or gives to the programs it runs depends on the token's value, whatever fails and however the server answers.",
  ["inputs", "histories", "fault_sequences"], "all pairs of tokens of equal length, all histories of polls, identities and syncs, all server answers and failures",
  "tests never look at what is logged or sent besides the answer",
  [D + "client.py", D + "jsonrpc.py"], [("check_auth calls", D + "client.py"), ("JSONRPC._send, errors", D + "jsonrpc.py")])

p("C42", "Settings given in the environment take effect",
  "The environment the agent is started with decides how many services and how many terminals may run at once (DATAPLICITY_LIMIT_SERVICES, DATAPLICITY_LIMIT_TERMINALS): a whole number of at least one is exactly the limit of its own pool; without one, or when it is not a whole number, the limits are 500 and 100; one below 1 is refused by an error at start. The API server and the router contacted are those the command line names, else those of the environment (DATAPLICITY_API_URL, DATAPLICITY_M2M_URL), else the built-in ones, unchanged except that the features are announced to a router address without a query.",
  ["inputs"], "all numbers and addresses in the environment, with or without others on the command line",
  "the settings are read when the modules are loaded, once per test run, with no variable set",
  [D + "constants.py", D + "m2mmanager.py", D + "limiter.py", D + "client.py"], [("get_environ_int", D + "constants.py"), ("Limiter", D + "limiter.py"), ("Client.__init__", D + "client.py")])

with open(os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl"), "w") as f:
    for d in P:
        f.write(json.dumps(d) + "\n")
print(len(P), max(len(d["title"]) for d in P))
