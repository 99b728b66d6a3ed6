import json
P=[]
def p(id,title,st,over,text,why,files,mech,obs=None,state=None):
    a={"files":files,"mechanism":[{"name":m,"where":w} for m,w in mech]}
    if obs: a["observe_at"]=obs
    if state: a["state"]=[{"name":n,"meaning":m,"where":w} for n,m,w in state]
    a["hook_needed"]=None
    P.append({"id":id,"title":title,"statement":st,"quantifier":{"over":over,"text":text},"why_tests_cant":why,"anchors":a})
WS=["WebSocket messages received by the clients","whether the simulator thread is blocked inside the clock callback"]
p("C01","Continue stops at exactly the enabled breakpoints, in execution order",
"At every rising clock edge reached while in continue mode, the debugger stops at exactly those inserted breakpoints whose symbol-table condition, user condition and trigger (a watched trigger signal changed since the breakpoint was last looked at) hold on the values at that edge, visiting them in the symbol table's execution order and each at most once per edge; after any command, continue resumes strictly after the breakpoint the user is at. Breakpoints of the same file/line/column in different instances with the same symbol-table condition that are neighbours in the execution order of the inserted breakpoints are reported in one stop, except in single-thread mode where each gets its own; falling edges never stop.",
["inputs","histories","configurations"],"every design, every set of inserted breakpoints and conditions, every sequence of clock edges and debugger commands",
"The scheduler and eval-loop tests are not even built in the baseline and, where they are, sample two or three fixed breakpoints; the set of stops is a function of the whole history of insertions, options and values.",
["src/scheduler.cc","src/debug.cc"],[("next_normal_breakpoints / scan_breakpoints","src/scheduler.cc"),("Debugger::eval, eval_breakpoint, should_trigger","src/debug.cc")],WS,
[("breakpoints_","inserted breakpoints with evaluated flag","src/scheduler.hh"),("current_breakpoint_id_","where the user is within the edge","src/scheduler.hh")])
p("C02","Step-over and step-back walk the execution order one statement at a time",
"From a stop, step_over stops next at the nearest later statement of the execution order whose symbol-table condition holds (continuing with the first statement of the next clock edge), and step_back at the nearest earlier one, both regardless of which breakpoints are inserted and of user conditions. Going back past the first statement moves to the last statement of the previous clock edge when the simulator can rewind, and otherwise stays at the first statement of the current edge; if nothing before is enabled the debugger turns around and stops at the next enabled statement going forward.",
["inputs","histories","configurations"],"every design and execution order, every inserted set, every interleaving of step, continue, reverse and clock edges",
"Tests step a couple of times on one design; wrap-around, interleaving with continue/reverse, and conditions that are false on some statements are never sampled.",
["src/scheduler.cc"],[("next_step_over_breakpoints","src/scheduler.cc"),("next_step_back_breakpoints","src/scheduler.cc"),("create_next_breakpoints","src/scheduler.cc")],WS)
p("C03","Reverse-continue and rewind revisit earlier stops with old values and time",
"From a stop, reverse_continue stops at the nearest earlier inserted breakpoint whose conditions hold, first within the current clock edge and then, if the simulator can rewind, at the last such breakpoint of earlier edges, reporting that edge's time and values; execution then resumes forward from that edge, and also resumes forward if nothing earlier is enabled. If the simulator cannot rewind, time never changes and jump is answered with an error; if it can, jump moves to the clock edge immediately before the requested time.",
["histories","inputs","configurations"],"every history of stops, edges, rewinds and mode changes, with and without simulator rewind support",
"The existing test of reverse execution is a single hand-written sequence that is not built here; rewind crosses edge boundaries only in specific histories.",
["src/scheduler.cc","src/rtl.cc","src/debug.cc"],[("next_reverse_breakpoints","src/scheduler.cc"),("reverse_last_posedge / rewind","src/rtl.cc"),("handle_command jump","src/debug.cc")],WS)
p("C04","The simulator is frozen at a stop until exactly one resuming command",
"While stopped (and before the first resuming command after start-up) the simulator makes no progress, whatever non-resuming requests arrive and from whichever client; each resuming command releases it exactly once, and no resuming command is ever lost, in particular one that arrives between the stop being reported and the simulator going to sleep. With pause_at_posedge set the simulator also waits once at the start of every rising edge.",
["schedules","histories"],"every interleaving of the simulator thread with the server thread and every order of commands from any number of clients",
"Lost or duplicated wake-ups need a particular interleaving of two threads; tests use sleeps and never control the schedule.",
["src/thread.cc","src/debug.cc"],[("RuntimeLock::wait / ready","src/thread.cc"),("Debugger::eval, run, handle_command","src/debug.cc")],WS,[("ready_","one pending wake-up","src/thread.hh")])
p("C05","The inserted-breakpoint set is exactly what the add/remove history says",
"After any history of adding and removing breakpoints by location or by id, the breakpoints the debugger lists and honours are exactly those of the locations/ids currently added, in execution order, one per design instance, each with the condition of its most recent add (no condition if that add had none); removing what is not inserted, or adding an unknown location, changes nothing. An add with a condition that cannot be parsed or resolved never makes the debugger stop for it.",
["histories","inputs"],"every sequence of add/remove by location, column and id with conditions, interleaved with execution and with data breakpoints",
"Tests add a few breakpoints and remove one; duplicates, condition updates, mixed id/location and multiply-instantiated designs need sequences the tests do not contain.",
["src/scheduler.cc","src/debug.cc"],[("Scheduler::add_breakpoint/remove_breakpoint/reorder_breakpoints","src/scheduler.cc"),("handle_breakpoint, handle_breakpoint_id, handle_debug_info","src/debug.cc")],["debugger-info breakpoints","stops"])
p("C06","Data breakpoints stop exactly when the watched variable changes",
"A data breakpoint stops at its assignment site exactly when that statement and the given condition are enabled and the watched variable's value differs from the value seen the last time the site was enabled (the first look counts as a change); several assignment sites of one variable share that last-seen value. Adding, dry-run info, removing and clearing data breakpoints affect only data breakpoints: breakpoints inserted normally at the same place keep working, and both are listed, each with its own kind.",
["histories","inputs"],"every sequence of value changes, data-breakpoint add/info/remove/clear and normal add/remove",
"Change detection is stateful across clock edges and across request histories; the one data-breakpoint test is not built here.",
["src/debug.cc","src/scheduler.cc","src/monitor.cc"],[("handle_data_breakpoint, eval_breakpoint","src/debug.cc"),("add_data_breakpoint, clear_data_breakpoints, remove_data_breakpoint","src/scheduler.cc"),("Monitor::var_changed, get_watched_value_ptr","src/monitor.cc")],["stops","debugger-info breakpoints"])
p("C07","Monitored variables are reported at every event of their kind, once",
"While a monitor of kind clock_edge (or breakpoint) on a variable is registered, every rising edge (respectively every stop) produces exactly one monitor message per registered monitor carrying its track id and the value at that moment, and none after it is removed; registering the same variable and kind again returns the same track id, different ones get different ids.",
["histories","inputs"],"every history of monitor add/remove by any client, stops, edges and value changes",
"Unit tests check a handful of add/remove calls on the monitor object alone; identity and delivery depend on the whole history through the debugger.",
["src/monitor.cc","src/debug.cc"],[("Monitor::add_monitor_variable, get_watched_values","src/monitor.cc"),("handle_monitor, send_monitor_values","src/debug.cc")],["monitor messages"])
p("C08","Delayed variables show the value from the configured number of edges earlier",
"A variable declared as delayed by d cycles at a (normally) inserted breakpoint is shown in a stop with the value the signal had d rising edges earlier (without rewinding), counted from when the breakpoint was first inserted, independently of stops, steps and other breakpoints in between; the value at insertion is the first sample, and an error value is shown until d samples exist.",
["histories","inputs"],"every delay depth, value stream and position of the insertion in the history",
"Needs value streams of several edges in combination with stops; no built test reaches the debugger's delay logic.",
["src/monitor.cc","src/debug.cc","src/symbol.cc"],[("WatchVariableBuffer","src/monitor.cc"),("process_delayed_breakpoint, update_delayed_values","src/debug.cc"),("get_context_delayed_variables","src/symbol.cc")],["stop reports"])
p("C09","A stop report describes exactly the stopped instances, with current values",
"Every stop report carries the current simulation time, the source location, and one entry per stopped instance with its instance id and full hierarchical name, breakpoint id and kind, and exactly the declared local and generator variables of that scope with the values the design has at that moment (constants verbatim, later local declarations of a name override earlier ones, unresolvable signals marked as errors); with the hex option values are rendered as zero-padded hexadecimal of the signal's width. Reports in multi-instance designs never mix values of different instances.",
["inputs","programs","configurations"],"every design, scope layout, value and option setting",
"Tests compare one or two literal reports; the mapping from symbol table to design values is per design and per instance.",
["src/debug.cc","src/proto.cc","src/rtl.cc"],[("send_breakpoint_hit, get_value_str","src/debug.cc"),("BreakPointResponse","src/proto.cc")],["breakpoint messages"])
p("C10","Expressions evaluate as C-like integer expressions over the scoped variables",
"Any expression of the grammar (decimal and sized-hex literals, scoped names, parentheses, unary ! ~ + -, * / % + - comparisons == != & ^ | && ||) evaluates to the value C precedence, left associativity and 64-bit signed wrap-around arithmetic give it on the current variable values (dividing by zero gives 0), and anything outside the grammar or with an unresolvable name is rejected with an error. Names resolve first to the breakpoint's local variables (latest declaration wins), then to the instance's generator variables that are signals, then to design signals; no expression takes the simulator down.",
["inputs","programs"],"every expression tree, spelling and value assignment",
"Tests evaluate about twenty literal expressions; precedence pairs, nesting, white space and the scoping chain are combinatorial.",
["src/eval.cc","src/scheduler.cc","src/symbol.cc","src/debug.cc"],[("PEG grammar and Expr::eval","src/eval.cc"),("validate_expr","src/scheduler.cc"),("resolve_scoped_name_*","src/symbol.cc"),("handle_evaluation","src/debug.cc")],["evaluation responses","conditions"])
p("C11","Values set by the user are what everything sees afterwards",
"After a successful set-value the addressed variable (scoped by instance, breakpoint or namespace) and no other has that value in every later evaluation, condition, stop report and monitor message until the design overwrites it, whether or not the signal cache is on; a name that cannot be resolved is answered with an error and changes nothing. The signal cache option never changes any observable result.",
["histories","configurations"],"every sequence of set-value, evaluation, stops, edges and cache option changes",
"Stale-cache bugs need read-write-read sequences within one edge with the cache on; no test enables it.",
["src/debug.cc","src/rtl.cc"],[("handle_set_value, get_signal_value","src/debug.cc"),("set_value","src/rtl.cc")],["evaluation responses","stops"])
p("C12","Every request gets exactly one response and none can crash the simulator",
"For every text message a client sends, well formed or not, the debugger answers that client with exactly one response that echoes the request's token (if it has one) and carries success or error according to whether the request is valid in the current state, except that a stop command closes the connections instead; an error has no side effect. No message of any shape terminates or hangs the process, even when no symbol table is loaded.",
["inputs","histories"],"every request type, every mutation of its fields (missing, wrong type, out of range, unknown enum) and every debugger state",
"Parser tests cover a few malformed payloads per type and no handler; the cross product of mutation and debugger state is unbounded.",
["src/proto.cc","src/debug.cc"],[("Request::parse_request and parse_payload","src/proto.cc"),("Debugger::on_message and handlers","src/debug.cc")],["responses per client"])
p("C13","Symbol-table queries answer according to the JSON symbol table",
"For every valid JSON symbol table, breakpoint lookup by file, line and column, the execution order, each breakpoint's condition (conjunction of enclosing block conditions), its instance, its visible variables in declaration order, generator variables, instance names and assignment sites of a variable are those the document describes, once per instance of a module; ids are unique and consistent across queries, and lookups that match nothing return nothing.",
["programs","inputs"],"every symbol-table document of the JSON schema (modules, nested scopes, instances, variable references) and every query",
"Tests load one or two fixed documents; nesting, shadowing, multiple instantiation and partial-path filenames are combinatorial.",
["src/db.cc"],[("JSON parse and VarStmt/ScopeEntry visitors, JSONSymbolTableProvider queries","src/db.cc")],["SymbolTableProvider API"])
p("C14","Symbol-table instances map to the right places in the design hierarchy",
"For every design hierarchy, each occurrence of the symbol table's top module in the test bench is found exactly once, and every instance-relative name resolves to the signal under that occurrence; a breakpoint in a module instantiated several times is evaluated and reported separately for each occurrence with that occurrence's own values. Connecting again does not change the mapping.",
["programs","configurations"],"every hierarchy shape, nesting depth and number of occurrences, with and without definition names",
"Tests use one mock hierarchy with one occurrence.",
["src/rtl.cc","src/namespace.cc"],[("compute_hierarchy_name_prefix, get_full_name","src/rtl.cc"),("DebuggerNamespaceManager","src/namespace.cc")],["debugger-info design","stop reports"])
p("C15","Detaching, disconnecting or stopping always releases the simulator",
"When the last client disconnects with detach_after_disconnect set, or a stop command or shutdown is issued, a stopped simulator is released, no further stops happen and (on stop) the simulator is told to finish exactly once; without that option a disconnect leaves the simulator as it is, and other clients are unaffected by one client leaving. After a detach a new connection request followed by a resuming command restores full debugging.",
["histories","fault_sequences","schedules"],"every point of a session at which clients vanish or stop is requested, with any number of clients",
"Tests never drop a client mid-stop.",
["src/debug.cc","src/server.cc"],[("detach, stop, set_on_call_client_disconnect","src/debug.cc"),("DebugServer connection bookkeeping","src/server.cc")],WS)
p("C16","Signal names, array elements and bit slices read the right bits",
"For every signal, reading it by absolute, top-relative or $root name, by array element (dot or bracket form) and by bit slice returns exactly the corresponding bits of the simulator's value, repeated reads always agree with the current value, and names that do not exist read as absent; composite variables expand to exactly their elements in index order.",
["inputs","programs"],"every name form, array size, slice bounds and read order",
"Tests read a few names once; caching makes results depend on the order of earlier reads.",
["src/rtl.cc"],[("get_handle, access_arrays, add_mock_slice_vpi, get_slice, resolve_rtl_variable","src/rtl.cc")],["RTL client API","evaluation responses"])
p("C17","Events reach every connected client once, responses only their requester",
"Each stop and each monitor update is delivered exactly once, in order, to every client connected at that moment and to nobody else; a response is delivered only to the client that sent the request; topic messages only to that topic's current subscribers. A client joining or leaving never changes what the others receive.",
["histories","schedules"],"every sequence of connects, disconnects, subscriptions and messages",
"Server tests use one or two clients and never interleave departures with traffic.",
["src/server.cc","src/debug.cc"],[("DebugServer::send variants, topics","src/server.cc")],["messages per client"])
p("C18","A remote symbol table answers exactly as the local one",
"For every symbol-table query and every answer, querying through the network protocol (request and response encoded and decoded) gives the same answer as asking the provider directly, for tables whose lines count from 1 and whose instances have names.",
["inputs"],"every query kind, argument and answer content, including empty and absent answers",
"Tests round-trip single samples of some query kinds.",
["src/proto.cc","src/symbol.cc"],[("SymbolRequest/SymbolResponse str and parse","src/proto.cc"),("NetworkSymbolTableProvider","src/symbol.cc")],["SymbolTableProvider API over the wire"])
p("C19","Replaying a waveform presents the recorded values, forwards and back",
"For every recorded waveform, every value-change callback is called exactly once for every recorded change of its signal, in time order and at the recorded time; a read returns the last recorded value: of the new one for signals whose change is being presented, of the one just before for all others; the bits of array elements are those of their signal. Rewinding lands on the latest rising edge of the given clocks strictly before the given time, with the clocks just risen, and everything after it is presented again.",
["inputs","histories"],"every recorded waveform and every sequence of forward/rewind",
"The replay tests need a VCD database and are not built here.",
["tools/hgdb-replay/engine.cc","tools/hgdb-replay/vpi.cc"],[("EmulationEngine","tools/hgdb-replay/engine.cc"),("ReplayVPIProvider","tools/hgdb-replay/vpi.cc")],["VPI callbacks and values"])
p("C20","Source path mapping translates paths both ways, and only the mapped ones",
"After a connection or path-mapping request with prefix pairs, a file named by the client under a mapped prefix (of whole path components) means the symbol table's file under the corresponding prefix in every request (breakpoints, lookups by line or file), and every file the debugger reports (stops, lookups, file list) is the client's name of it; names under no mapped prefix are left alone. A new mapping replaces the old one and takes effect for all later requests and lookups, and breakpoints already inserted stay inserted.",
["histories","inputs","configurations"],"every mapping, file and order of mapping changes and breakpoint requests",
"One unit test maps one prefix on the provider; what happens with breakpoints inserted under another mapping is a matter of history.",
["src/symbol.cc","src/debug.cc"],[("set_src_mapping, resolve_filename_to_db, resolve_filename_to_client","src/symbol.cc"),("handle_path_mapping, handle_connection","src/debug.cc")],["responses and stop reports"])
p("C21","A failed assertion stops exactly once, at its statement, at the next edge",
"When an occurrence of the symbol table's top module reports a failed assertion at a location the symbol table knows, the next rising edge stops at that statement in that occurrence, whatever conditions and breakpoints are there, in execution order with the other breakpoints, and exactly once: the statement's own breakpoints keep working and the following edges don't stop for the assertion again. An assertion at an unknown place changes nothing.",
["histories","inputs"],"every order of assertions, breakpoint changes, commands and edges",
"No built test reports an assertion.",
["src/debug.cc","src/scheduler.cc"],[("handle_assert","src/debug.cc"),("add_assertion / remove of hit assertions","src/scheduler.cc")],WS)
with open('/verif/properties.jsonl','w') as f:
    for x in P: f.write(json.dumps(x)+"\n")
for x in P: assert len(x["title"])<=80,(x["id"],len(x["title"]))
