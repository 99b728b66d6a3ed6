T["C10"] = ("TLA+ spec Expr (grammar, names and 64-bit values as a function): TLC enumerates all short texts over several alphabets, all operator "
            "combinations and random longer texts with their values; each is replayed into DebugExpression; plus HgdbCore behaviours with "
            "conditions and evaluations")
N["C10"] = ("All texts up to 3-5 symbols over four alphabets, all pairs of binary operators with unary ones, random expressions; nesting beyond 128 "
            "or texts beyond 32 kB only have to be answered; literals beyond 64 bits and hex literals wider than their size are left open.")
T["C13"] = ("TLA+ spec SymTab (what a symbol table document means): TLC computes all answers for every small document over 14 statements and for "
            "random larger ones; each document is written as JSON in varying forms, loaded by the real provider and every query compared")
N["C13"] = ("Documents of up to 4 modules, 2 files, nesting 2, all documents with up to 3 of 14 statements; ~60 malformed documents. Conditions are "
            "compared by their truth values on 10 assignments. Trusts the JSON writer.")
T["C18"] = ("TLA+ specs SymTab and RemoteGen: random tables and arbitrary question/answer conversations generated by TLC; the real remote provider "
            "asks over TCP and WebSocket, the answers pass the real request/response encoding and must be those of the specification")
N["C18"] = "Answers of up to 9 entries with hostile strings (no NUL characters, ids below 2^31); the serving side is a driver around the real codec."
T["C14"] = ("TLA+ spec Hier (design hierarchies, name prefixes, occurrences): TLC computes for random hierarchies which places the symbol table's names mean, "
            "compared with the real namespace manager and simulator client on a mock simulator; plus HgdbCore behaviours of designs with 2-3 occurrences")
N["C14"] = ("Hierarchies of up to 15 instances, nesting 5, four kinds of simulator (with and without definition names); sessions with up to 3 occurrences. "
            "Trusts the mock VPI hierarchy.")
T["C16"] = ("TLA+ spec Hier (which bits a name stands for): random sequences of reads, writes, expansions and value changes, their answers computed by TLC, "
            "replayed into the real simulator client on a mock simulator whose arrays, structs and selects follow four simulator styles")
N["C16"] = "Signals up to 64 bits, arrays up to 2 dimensions, struct nesting 2, up to 15 instances. Trusts the mock VPI object model."
T["C19"] = ("TLA+ spec Replay (what replaying a waveform may do), model-checked on all small waveforms; logs of the real VCD parser, replay VPI and emulation "
            "engine driven with random waveforms and scripts are checked event by event against it by TLC (trace validation)")
N["C19"] = ("Random VCD files of up to 10 signals and 30 instants, scripts of reads, registrations, removals and rewinds inside callbacks; the SQLite-backed "
            "waveform databases and FSDB are not built here. Rewinding with several callbacks on one signal is not explored.")

T["C12"] = ("TLA+ specs HgdbCore (every request answered once, with its token) and Proto (what makes a request acceptable, field by field): TLC generates "
            "sessions and messages with missing, wrong-typed and odd fields; each is sent to the real debugger over WebSocket and answers and state probes compared")
N["C12"] = CORE_NOTE + " About 23 000 malformed or odd messages; numbers above 2^32 and the text of error messages are left open."
T["C17"] = ("TLA+ spec Server (channels, topics, joins and departures, explored exhaustively) replayed into the real server class, also with concurrent bursts; "
            "plus HgdbCore behaviours with several clients, partly with disturbed lock timing")
N["C17"] = CORE_NOTE + " Server level: up to 4 clients, 3 topics. Order between messages sent by different threads at once is left open."
N["C15"] = CORE_NOTE + " Simulator kinds: generic with and without rewind, VCS-like, Verilator-like."
N["C16"] = "Signals up to 200 bits, arrays up to 2 dimensions, struct nesting 2, up to 15 instances. Trusts the mock VPI object model."
