HOW = {
"C01": "Values are trees whose leaves (integers of any size and sign, byte strings of any length, texts, keys) are solver variables; `encode` runs on them and the bytes are compared by the solver with an independent reference encoder, then decoded again. Dictionary keys are symbolic byte strings inserted in every order. Tests have a handful of literals; here the verdict is over all leaf values of every nesting.",
"C02": "The input bytes are solver variables. `decode` runs under a step limit (non-termination is a verdict); results are compared with an independent reference decoder that says *value*, *truncated* or *other*; every cut position of every encoding is a variable.",
"C03": "For every packet class registered in the source (the registry is read from the code, so a new kind is included), fields of the declared types are symbolic; built positionally and by name, encoded, and compared with the reference encoding of number + fields; then read back. Ill-typed and missing fields, and arbitrary bytes, must give the packet errors.",
"C04": "A real `WSClient` with all services runs over a websocket model that feeds symbolic messages: arbitrary bytes, packets of every kind with a field of another type or missing, unknown numbers, and every connection event; the code behind a message raises at a solver-chosen point. The oracle: nothing sent, opened or touched, and the next well-formed message is answered.",
"C05": "Event sequences (connect, drop, set-identity with any identity, ping of any length, close) chosen by the solver run through the real client; after each event the packets sent and the identity held are compared with a five-line specification.",
"C06": "Route packets with opaque content of any length arrive between buffered reads of symbolic sizes, on two channels, in every order, with reader and receive thread interleaved by the scheduler; reads are compared, by the solver, with the concatenation of what was routed.",
"C07": "Sequences of open, close by server, close by agent, drop, late data and reuse of a number, with close callbacks that raise; counted: callbacks run, packets sent, data delivered, freshness of a reused number.",
"C08": "Registrations, responses with symbolic ids and results, drops, callbacks that raise or register again, and every interleaving of a registering thread with the receive thread; each callback's invocations are counted and their argument compared.",
"C09": "Service threads and the receive thread send through the real client in every interleaving with a transport model that notes who is inside and may fail; every message is decoded by the reference decoder.",
"C10": "Limiter histories with a symbolic limit and symbolic operation kinds, then threads under every interleaving with switch points inside the limiter's own methods; the holder count is kept by the harness.",
"C11": "Every kind of service is started through the real instruction dispatch; its k-th environment operation (k symbolic) fails in a solver-chosen way, or its channel closes there, or its thread cannot start; afterwards the pool's free slots are measured by acquiring.",
"C12": "A file of symbolic size and opaque content; the k-th read, open, close or send fails or the channel closes there; sent route packets are concatenated and compared with a prefix of the file by the solver.",
"C13": "The process is a model whose stdout is split by the solver, with stderr data, hang-ups and errors in any order, failing reads, failing `poll`, exits at any time; output sent, completion messages, close requests and kills are compared with the history.",
"C14": "Symbolic service names, ports and channel numbers; the socket model records every address connected to.",
"C15": "Both directions with opaque content in pieces chosen by the solver, before, during and after the connection is made, partial or failing writes, every way a stream ends; plus all interleavings of the connecting thread with data and close from the receive thread.",
"C16": "One connection ends in every way (end of stream, error event, failing operation, refused, channel close, drop) with symbolic clock readings, while others are live; thread end, close request, shutdown direction and the untouched others are checked.",
"C17": "Path and id are symbolic texts (any characters, several segments); the file-system model records every path touched, and the solver is asked for an assignment under which a touched path lies outside the two areas.",
"C18": "As C17, for pushes, with any number of taken names; existing files are compared before and after.",
"C19": "Sequences of opens, reads with symbolic offsets and sizes, closes and changes of the originals over two upload ids; the oracle is the content at the time of each open, compared as opaque windows; every file operation may fail.",
"C20": "Chunks of symbolic sizes at symbolic offsets of one or two files, finals anywhere; the resulting file is compared with a reference store; each file operation may fail (writes storing any part).",
"C21": "The figures of the volume and the file's size are unbounded solver integers; the decision is compared with the arithmetic of the property, through the real open request.",
"C22": "Tree shapes, kinds, hidden components, sizes, devices, inode numbers and the depth limit are chosen by the solver; the scan's result is compared with a reference listing. Links anywhere are explored for termination and for completeness of the visible tree.",
"C23": "A crash or a fetch before each file operation of a scan, with each operation failing, on any earlier result; the fetched bytes must be one complete scan. Concurrent requests in every interleaving.",
"C24": "The server's answer is a symbolic JSON value (ids, versions, error objects, codes of any value), undecodable or absent; returned value or error kind, request sent, stream closed and the next call are checked.",
"C25": "Batches with given and automatic ids; answers with symbolic ids in any order, with extra, missing, repeated and malformed entries; each id's outcome is compared with what the server said about it.",
"C26": "Histories of identities, polls and drops; server outcomes of every kind for the authentication and the association; an identity counts as announced by the reference only if both were accepted.",
"C27": "Polls at symbolic clock readings (reals), symbolic tag lists and per-part server answers; what is in each batch is compared with a reference state machine.",
"C28": "Each step fails with any exception at any poll, in any combination, through the real main loop; steps run, shutdown count, clock watch stopped.",
"C29": "The wall clock moves by symbolic reals during each wait; a kill must happen exactly when a period exceeds 180 s, for all reals.",
"C30": "Process output in solver-chosen pieces with hang-ups, input before and after the fork, partial writes; streams compared as opaque content; all interleavings with the start.",
"C31": "Channel close at any scheduling point of the start or life, process end at any time (symbolic clock); signals sent are compared with the specification.",
"C32": "Instruction names of symbolic characters, parameters of any value, missing or additional ones; the actions seen at the environment (connections, files, processes, channels) must be exactly the named one's.",
"C33": "Script output of symbolic bytes (including undecodable ones and non-ASCII white space) compared with a reference parser; failures of the script.",
"C34": "Lines of symbolic characters, interface tables with symbolic names and addresses as the kernel returns them through ioctl; compared with reference parsers.",
"C35": "The real entry point with argparse; option and stored values symbolic; subcommands raise any exception; exit status and message checked.",
"C36": "Two runs with different symbolic passwords and equal remaining fields must yield the same description (non-interference), for descriptions and for everything logged.",
"C39": "The code after the fork runs in a model of the kernel's identity rules (setuid, setgid, exec) with symbolic ids; what is executed, under which identity, and what else the new process does is compared with the specification; the agent's side of several terminals likewise.",
"C40": "Events on two channels chosen by the solver, with data of symbolic length and opaque content; the bytes sent back are compared with what a reference echo would send, after each event.",
"C41": "Two agents that differ only in their (symbolic) tokens live the same life in the same world; everything logged (with exception messages), sent to the router, done to files or executed must be equal for all pairs of tokens, and the requests equal but for the token (non-interference).",
"C42": "The code is loaded anew, as a new process would, in an environment whose limits are symbolic texts and whose addresses are symbolic; real requests are then made until one is refused, and the number accepted must equal the number the digits denote; a run of the real entry point must contact exactly the addresses given.",
}
MISSED = {
"c12-size-bound": "yes: files whose reported size is wrong (`virtual`)",
"c13-child-output": "yes: output after the process ended",
"c15-partial-send": "yes: partial `send`",
"c03-empty-field": "yes: empty fields read back",
"c04-garbage-limit": "yes: long runs of bad messages (`flood`)",
"c08-empty-result": "yes: empty results",
"c25-default-none": "yes: default given as None",
"c35-errno-status": "yes: exceptions with an errno or a code",
"c01-long-accents": "yes: long text with non-ASCII characters (`scale`)",
"c06-failed-callback": "yes: callbacks that are absent or fail (`mood`)",
"c06-late-event": "yes: looking at the channel between the callback and the event (`peek`)",
"c06-thousand-parts": "yes: very many writes before a reader comes",
"c11-second-release": "yes: using every slot after the connections ended",
"c13-quiet-command": "yes: a process that stays quiet for long",
"c15-idle-forward": "yes: very many waits without data",
"c15-thousand-waiting": "yes: very many parts waiting",
"c16-quiet-connection": "yes: very many waits without data",
"c17-deep-escape": "yes: very deep paths",
"c19-far-chunk": "yes: files of megabytes at far offsets",
"c21-usage-cache": "yes: figures that change between calls",
"c22-big-directory": "yes: directories of more than a thousand entries",
"c22-hard-links": "yes: entries that share an inode (`hard_links`)",
"c26-gives-up": "yes: very many failed attempts (`lasting`)",
"c27-meta-gives-up": "yes: very many failed attempts (`lasting`)",
"c28-twenty-failures": "yes: very many failing polls (`lasting`)",
"c31-waits-blocking": "yes: the life of dozens of terminals (`lasting`)",
"c36-long-password": "at times: passwords compared by token",
}
