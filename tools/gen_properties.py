#!/usr/bin/env python3
"""Regenerates /verif/properties.jsonl (kept as a script because the text is easier to review here)."""
import json, os
P = []
def prop(id, title, statement, over, text, tests, files, mech, observe, state=None):
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": text}, "why_tests_cant": tests,
              "anchors": {"files": files, "state": state or [],
                          "mechanism": [{"name": n, "where": w} for n, w in mech],
                          "observe_at": observe, "hook_needed": None}})

prop("C01", "Debug expressions evaluate with C semantics, and bad ones are refused",
 "Every expression text in the documented grammar (decimal and sized hexadecimal literals, names with dots, indices and slices, unary ! ~ + -, binary * / % + - < > <= >= == != & ^ | && ||, parentheses, free white space) is accepted, names exactly the symbols it contains, and evaluates on every assignment of 64-bit values to what C's precedence, left associativity and wrapping 64-bit two's-complement arithmetic give. "
 "Every other text is reported as incorrect. "
 "Neither parsing nor evaluating ever crashes, hangs or has undefined behaviour, also on division by zero and overflow.",
 ["inputs"], "all expression texts and all assignments of 64-bit values to their symbols",
 "test_expr samples about twenty fixed expressions; precedence and associativity over all operator pairs, whitespace, error texts and extreme values are untested.",
 ["src/eval.cc", "src/eval.hh"],
 [("PEG grammar and parser actions", "src/eval.cc"), ("recursive evaluation", "src/eval.cc Expr::eval")],
 ["DebugExpression parse/eval", "evaluation request of the debugger"])

prop("C02", "The set of inserted breakpoints follows the requests exactly",
 "After any sequence of accepted breakpoint requests (add or remove, by file/line/column or by id, with or without a condition; data breakpoint add, remove, clear), the debugger lists exactly the breakpoints those requests leave inserted: adding a location inserts every breakpoint the symbol table has there, once per matching design instance, re-adding only replaces the condition, and removing takes away exactly what the location or id denotes. "
 "Requests to add a location or id unknown to the symbol table, or a condition that is wrong or names unknown signals at every matching instance, are answered with an error and change nothing.",
 ["histories", "inputs"], "all sequences of breakpoint requests over all symbol tables",
 "The debugger and scheduler tests are not even compiled here, and upstream they use single add/remove calls on one small symbol table.",
 ["src/debug.cc", "src/scheduler.cc", "src/scheduler.hh"],
 [("add/remove/clear of breakpoints", "src/scheduler.cc"), ("request handlers", "src/debug.cc handle_breakpoint*, handle_data_breakpoint, handle_debug_info")],
 ["breakpoint, breakpoint-id, data-breakpoint and debugger-info requests over the WebSocket"])

prop("C03", "A clock edge reports exactly the breakpoints that hold, in execution order",
 "While continuing, at every rising clock edge the debugger reports each inserted breakpoint whose symbol-table condition and user condition both hold on the simulator's values at that edge (and whose trigger, if any, changed), exactly once, no other breakpoint, and in the symbol table's execution order; breakpoints reported in one message share their source location. "
 "This holds for any number of breakpoints and instances, whatever the grouping into messages, and a breakpoint removed while the simulation is paused is not reported any more.",
 ["inputs", "histories", "configurations"], "all symbol tables, sets of inserted breakpoints, conditions, and signal value histories; single-thread mode on or off",
 "No compiled test runs the debugger's evaluation loop; upstream ones use one or two breakpoints and constant values.",
 ["src/debug.cc", "src/scheduler.cc", "src/eval.cc"],
 [("evaluation loop", "src/debug.cc Debugger::eval"), ("next_normal_breakpoints / scan_breakpoints", "src/scheduler.cc"), ("parallel evaluation", "src/debug.cc eval_breakpoints"), ("trigger values", "src/debug.cc should_trigger")],
 ["breakpoint messages on the WebSocket against the simulated values of each edge"])

prop("C04", "Stepping and reverse execution visit the right breakpoints",
 "Step over stops next at the following breakpoint of the execution order whose symbol-table condition holds, inserted or not, moving on to the next edge after the last one; step back stops at the previous one, and, from the first one, at the last one of the previous clock edge if the simulator can rewind, and otherwise at the first one that holds. "
 "Reverse continue stops at the previous inserted breakpoint that holds, going to the previous edge in the same way (a message that reports several breakpoints counts as the earliest of them; the same breakpoint in several design instances may be reported at once). "
 "Switching between stepping and continuing neither skips nor repeats a breakpoint that lies ahead in the current edge. "
 "A jump command goes to the last clock edge before the given time, which is evaluated from its beginning; where there is none, or the simulator cannot rewind, it is answered with an error and execution goes on.",
 ["histories", "inputs"], "all command sequences, symbol tables, inserted breakpoints, values, with and without rewind support",
 "Upstream tests step through one straight-line design; mode switches, failing conditions, several instances and reversal at the first breakpoint are not explored, and none is compiled here.",
 ["src/scheduler.cc", "src/debug.cc", "src/rtl.cc"],
 [("next_step_over_breakpoints, next_step_back_breakpoints, next_reverse_breakpoints", "src/scheduler.cc"), ("reverse_last_posedge", "src/rtl.cc")],
 ["breakpoint messages and rewind calls seen by the simulator"])

prop("C05", "The simulation is paused exactly from a hit until the next resume command",
 "After a breakpoint is reported the simulator makes no progress until a client sends continue, a step, reverse, jump or stop command, or the debugger detaches (on its last client's disconnection, if that option is set); then it always resumes, and one command resumes it once. "
 "The same holds at start-up, where the simulation waits for the first command unless blocking is disabled, and no schedule of commands, disconnections and pauses loses a wake-up or leaves the simulation blocked after the debugger has stopped or detached.",
 ["schedules", "histories"], "all interleavings of the simulator thread with client commands and disconnects",
 "test_thread covers one wait/ready pair; the interleavings around pausing, stopping and disconnecting are not tested.",
 ["src/thread.cc", "src/thread.hh", "src/debug.cc"],
 [("RuntimeLock", "src/thread.cc"), ("run/eval/handle_command/detach", "src/debug.cc")],
 ["simulator progress observed between messages"])

prop("C06", "A reported frame shows the simulator's values at that point",
 "Each frame of a breakpoint message carries the breakpoint's own file, line, column, id, instance id, instance name and the current simulation time, and lists exactly the local variables in scope at the breakpoint and the generator variables of its instance. "
 "Every variable is shown with the value the simulator holds at that moment (constants with their text), read as the simulator's integer value, in decimal or zero-padded hexadecimal as configured, with arrays and structures expanded to their leaves, and with an error marker where the simulator has no value.",
 ["inputs", "configurations"], "all symbol tables, values, widths and formatting options",
 "Upstream tests check one or two variables of one design; none is compiled here.",
 ["src/debug.cc", "src/rtl.cc", "src/proto.cc", "src/db.cc"],
 [("send_breakpoint_hit, get_value_str", "src/debug.cc"), ("resolve_rtl_variable", "src/rtl.cc"), ("BreakPointResponse", "src/proto.cc")],
 ["breakpoint messages"])

prop("C07", "Evaluation and set-value requests act on the variable the scope denotes",
 "An evaluation request returns the value of its expression with names resolved first among the variables of the breakpoint or instance it names and then as design signals, over the simulator's current values, and an error if a name cannot be resolved. "
 "A set-value request writes exactly the named variable, and every later evaluation, condition and frame sees the new value; a failing request changes nothing. (An instance scope offers its generator variables, a breakpoint scope its context variables; a symbol table has to be loaded, and an instance id that fits several namespaces without one being named means the first.)",
 ["inputs", "histories"], "all expressions, scopes, signals and interleavings of evaluations, writes and clock edges, with the signal cache on or off",
 "Only a couple of fixed evaluations exist upstream and none is compiled here.",
 ["src/debug.cc", "src/scheduler.cc", "src/rtl.cc", "src/db.cc"],
 [("handle_evaluation, handle_set_value, get_signal_value", "src/debug.cc"), ("validate_expr", "src/scheduler.cc")],
 ["evaluation and set-value responses and the simulator's stored values"])

prop("C08", "Data breakpoints fire exactly when the watched variable changes",
 "After a data breakpoint is added for a variable, it is reported at an assignment to that variable exactly when the assignment is enabled at that edge, the optional user condition holds and the value differs from the last value seen for it (the first enabled assignment counts as a change; the last value seen belongs to the variable and is shared by all its assignments), and never otherwise. "
 "An information request reports whether such a breakpoint is possible without inserting anything; removing one (in the design instance named) or clearing them all stops the reports without affecting normal breakpoints.",
 ["inputs", "histories"], "all value histories, symbol tables and add/remove/clear sequences",
 "Upstream has one scenario, not compiled here.",
 ["src/debug.cc", "src/scheduler.cc", "src/monitor.cc", "src/db.cc"],
 [("handle_data_breakpoint", "src/debug.cc"), ("var_changed", "src/monitor.cc"), ("get_assigned_breakpoints", "src/db.cc")],
 ["breakpoint messages of type data"])

prop("C09", "Monitors deliver the watched values at the promised moments, to the end",
 "A client that monitors a variable receives its current value at every clock edge (clock-edge monitors) or at every breakpoint hit (breakpoint monitors), exactly one message per watched variable and occasion, carrying the id returned when the watch was created and the design instance (namespace) it belongs to; ids are unique within a namespace. "
 "Watching the same variable in the same way twice yields the same id, different watches have different ids, change-type watches report a value, at clock edges, exactly when it differs from the previously reported one, and after removal nothing is delivered for that id.",
 ["histories", "inputs"], "all sequences of add/remove monitor requests interleaved with edges and value changes",
 "test_monitor checks a handful of fixed sequences on one signal.",
 ["src/monitor.cc", "src/monitor.hh", "src/debug.cc"],
 [("Monitor", "src/monitor.cc"), ("send_monitor_values, handle_monitor", "src/debug.cc")],
 ["monitor messages", "Monitor API"])

prop("C10", "Delayed variables show the value from the configured number of edges ago",
 "A variable declared as delayed by n is shown in a frame with the value the simulator held n clock edges earlier, for every n of at least one, once the breakpoint has been inserted for that many edges; re-adding the breakpoint or having several breakpoints that share the variable does not disturb it.",
 ["inputs", "histories"], "all depths, value histories, and insertion histories",
 "Only one depth and one history are sampled, in tests that are not compiled here.",
 ["src/debug.cc", "src/monitor.cc", "src/db.cc"],
 [("update_delayed_values, process_delayed_breakpoint", "src/debug.cc"), ("WatchVariableBuffer", "src/monitor.cc")],
 ["breakpoint messages", "Monitor API"])

prop("C11", "Every client message gets exactly one answer and never harms the debugger",
 "Whatever bytes a client sends as a message, in any debugger state (before a symbol table is loaded, running, paused, after disconnects), the debugger neither crashes nor hangs nor corrupts its state. "
 "Every request gets exactly one response, sent to the requesting client only, carrying the request's token if it had one, a success status if the request was carried out and an error status with a reason otherwise. "
 "Messages that are not JSON, not valid UTF-8 or nested without bounds are answered with an error too; only the stop command, which is answered by the end of the connection, and clients that violate the WebSocket protocol, which may be disconnected, are exempt.",
 ["inputs", "histories", "configurations"], "all byte strings as messages in all debugger states",
 "test_proto covers a few malformed messages at parser level; hostile messages against a live debugger are not tested.",
 ["src/proto.cc", "src/debug.cc", "src/server.cc"],
 [("Request::parse_request", "src/proto.cc"), ("Debugger::on_message and handlers", "src/debug.cc")],
 ["WebSocket traffic", "process survival under sanitizers"])

prop("C12", "Requests and responses survive the wire format unchanged",
 "Parsing a well-formed request yields exactly the fields its JSON carries, for every request type and every string content, and a request with a missing or ill-typed mandatory field is reported as an error. "
 "Every response serialises to one valid JSON document, compact or pretty printed, from which a client recovers exactly the response's type, status, token and payload, including strings with quotes, control characters (other than NUL) and non-ASCII text.",
 ["inputs"], "all request and response contents",
 "test_proto compares a few fixed strings.",
 ["src/proto.cc", "src/proto.hh"],
 [("parse_payload functions", "src/proto.cc"), ("Response::str functions", "src/proto.cc")],
 ["Request and Response API", "WebSocket traffic"])

prop("C13", "Symbol-table queries return exactly what the table file declares",
 "For every valid symbol-table file, the breakpoints found for a file, line and column are exactly the statements the table places there in every instance of their modules, with ids that are unique, stable across queries and mutually consistent between all queries, and with a condition equivalent to the conjunction of the statement's own and its enclosing blocks' conditions. "
 "Instance names and ids, file names, attributes and the execution order (statement order within an instance, parents before children) likewise match the table.",
 ["inputs"], "all valid symbol-table files and all queries",
 "test_db's JSON cases use small hand-written tables.",
 ["src/db.cc", "src/db.hh", "src/symbol.cc"],
 [("JSON symbol table parser and visitors", "src/db.cc")],
 ["SymbolTableProvider query API", "bp-location and debugger-info requests"])

prop("C14", "Variables in scope at a breakpoint follow lexical scoping",
 "At every breakpoint the visible context variables are exactly those declared or assigned before it in its own block and in the enclosing blocks, with the latest definition of a name, and none that is declared later, in a sibling block or in another instance; a variable name resolves to the signal of that definition in the breakpoint's own instance. "
 "Generator variables of an instance are exactly those its module lists.",
 ["inputs"], "all valid symbol-table files and breakpoints",
 "A few fixed tables are sampled.",
 ["src/db.cc", "src/symbol.cc"],
 [("context variable collection", "src/db.cc"), ("resolve_scoped_name_*", "src/db.cc")],
 ["SymbolTableProvider query API", "frames and evaluation"])

prop("C15", "Malformed symbol tables are refused without harm",
 "Whatever the content of the file given as a symbol table (not JSON, truncated, violating the schema, with dangling or cyclic references, duplicated or empty names, extreme numbers; nesting within reason), loading it either fails cleanly with an error to the client or yields a table on which every query terminates without crashing or undefined behaviour.",
 ["inputs", "fault_sequences"], "all file contents and all queries on them",
 "Two malformed inputs are tested.",
 ["src/db.cc", "src/symbol.cc", "include/schema.json"],
 [("schema validation and parsing", "src/db.cc"), ("create_symbol_table", "src/symbol.cc")],
 ["provider creation and queries under sanitizers", "connection request"])

prop("C16", "A symbol table written with the C++ writer reads back the same",
 "Every symbol table built with the C++ writer library, whatever its nesting, names and values, serialises to a valid symbol-table file that the runtime loads and that contains exactly the modules, instances, scopes, statements, variables and attributes that were built; writing it compressed or not makes no difference to any query. Its look-up of a statement already visible from a scope (has_same_var) finds one exactly if an equal declaration or assignment stands in that scope or before it in an enclosing one.",
 ["inputs", "programs"], "all tables that can be built with the writer API",
 "test_cxx builds one small table.",
 ["include/json.hh", "src/db.cc"],
 [("SymbolTable, Module, Scope and variable writers", "include/json.hh")],
 ["written file compared with the built structure and with the reader's answers"])

prop("C17", "Design signals are found, read and written by name faithfully",
 "Every signal the simulator has can be read by its hierarchical name, also where the symbol table's hierarchy sits below a test bench, and selecting a bit, an array element, a field or a slice (also below generate blocks and instance arrays) yields exactly that part of the value; names the simulator does not have are reported as invalid. Whole values are the simulator's VPI integers, so that of a signal wider than 32 bits is its lower 32 bits; slices are exact. "
 "The mapping of symbol-table instances into the simulated hierarchy, clock discovery, signal widths, and the registration and removal of value-change callbacks agree with the simulated design, and repeating a query gives the same answer.",
 ["inputs"], "all simulated hierarchies, names, widths, values and query orders",
 "test_rtl uses one fixed mock hierarchy.",
 ["src/rtl.cc", "src/rtl.hh"],
 [("RTLSimulatorClient", "src/rtl.cc")],
 ["RTLSimulatorClient API over a model simulator"])

prop("C18", "The WebSocket server delivers each message once, in order, to its addressees",
 "Every message sent to one client, to all clients, or to a topic is received exactly once by exactly the clients addressed (topic subscribers at that moment), and each client receives the messages of one sender in the order they were sent. "
 "Every client message reaches the handler once, in order, with the connection it came from, and clients connecting, disconnecting or vanishing at any moment disturb nobody else. (A client is addressed from its first received message on; messages still queued when the server is stopped may be lost.)",
 ["schedules", "histories", "fault_sequences"], "all interleavings of sends, subscriptions, connects and disconnects",
 "test_ws_server has echo, topic and shutdown cases with one or two clients.",
 ["src/server.cc", "src/server.hh"],
 [("DebugServer", "src/server.cc")],
 ["messages recorded at all clients"])

prop("C19", "Concurrent clients and the simulator never race",
 "Client requests served concurrently with breakpoint evaluation, pausing, several clients, and connects and disconnects cause no data race, no use of freed memory and no deadlock in the debugger.",
 ["schedules"], "all interleavings of server, simulator and evaluation threads",
 "No test runs the debugger under a race detector.",
 ["src/debug.cc", "src/scheduler.cc", "src/server.cc", "src/monitor.cc", "src/rtl.cc", "src/thread.cc"],
 [("locks in the scheduler, server, monitor and signal cache", "src/")],
 ["ThreadSanitizer and AddressSanitizer reports under concurrent workloads"])

prop("C20", "The VCD reader reproduces the waveform file",
 "For every well-formed VCD file, the reader reports exactly its scopes, variables (identifier, name, width, scope) and value changes, each with its value and (64-bit) time, in file order, however tokens and white space are laid out and wherever comments and $dump sections occur; x, z and b are accepted in either case, and real-valued changes, which the tools do not support, are skipped. "
 "On any other input it ends with an error or a partial result, without crashing, hanging or undefined behaviour.",
 ["inputs", "fault_sequences"], "all VCD files, well-formed or not",
 "The VCD tests read one or two sample files and are not part of the stable tests here.",
 ["tools/vcd/vcd.cc", "tools/vcd/vcd.hh"],
 [("VCDParser", "tools/vcd/vcd.cc")],
 ["VCDParser callbacks"])

prop("C21", "A remote symbol table answers like a local one",
 "A symbol-table provider reached over a network connection (TCP or WebSocket) sends for every query one request of the symbol protocol with exactly its arguments and returns exactly what the served table would return locally, however the answer is cut into packets, and when the peer cannot be reached, answers with errors or garbage or closes the connection, loading fails or queries come back empty without crashing or hanging.",
 ["inputs", "fault_sequences"], "all queries, tables and peer behaviours",
 "No compiled test connects a network provider to a server.",
 ["src/symbol.cc", "src/proto.cc"],
 [("NetworkSymbolTableProvider", "src/symbol.cc"), ("SymbolRequest/SymbolResponse", "src/proto.cc")],
 ["provider API against a scripted peer"])

prop("C22", "Path mapping translates file names consistently in both directions",
 "With a source path mapping set by a client, a location given with a client path addresses the breakpoints of the corresponding symbol-table file, and file names reported to the client are client paths; a mapping never applies to files outside its directory, names no mapping applies to pass unchanged, and with mappings whose directories do not overlap translating to the table and back gives the same name.",
 ["inputs", "configurations"], "all mappings and file names",
 "One mapping is tested, for the SQLite provider only.",
 ["src/symbol.cc", "src/db.cc", "src/debug.cc"],
 [("set_src_mapping, resolve_filename_to_db, resolve_filename_to_client", "src/symbol.cc")],
 ["SymbolTableProvider API", "bp-location, breakpoint and path-mapping requests"])

prop("C23", "Command-line and environment settings take effect as documented",
 "Plus arguments and environment variables select the port, logging, non-blocking start, symbol-table preloading and initial breakpoints (DEBUG_BREAKPOINT0, 1, ... = file:line[:column]@condition) exactly as given, switches being +NAME or +NAME=1, whatever other arguments surround them; malformed values are ignored with the default kept, and plus arguments win over the environment.",
 ["inputs", "configurations"], "all argument vectors and environments",
 "Upstream has a single case, not compiled here.",
 ["src/debug.cc", "src/util.cc"],
 [("get_value_plus_arg, get_test_plus_arg, get_port, setup_init_breakpoint_from_env", "src/debug.cc")],
 ["behaviour of a started debugger"])

prop("C24", "Several instances of a design are debugged independently",
 "When the design a symbol table describes occurs several times in the simulated hierarchy, each occurrence is a namespace of its own: breakpoints apply to every occurrence, conditions, frames, evaluations, writes and monitors use the values of the namespace concerned, and the reported namespace and full instance name identify it.",
 ["inputs", "configurations"], "all numbers and placements of occurrences",
 "One two-occurrence case upstream, not compiled here.",
 ["src/namespace.cc", "src/debug.cc", "src/scheduler.cc", "src/rtl.cc"],
 [("DebuggerNamespaceManager", "src/namespace.cc"), ("compute_instance_mapping", "src/rtl.cc")],
 ["breakpoint messages, design information, evaluations per namespace"])

prop("C25", "Performance and display options never change what is reported",
 "Turning the signal cache, logging, performance counting or single-thread mode on or off at any moment changes neither which breakpoints are hit nor their order and values (only how hits are grouped into messages); the hexadecimal option changes only number formatting. "
 "An option request sets exactly the named options and the option information shows their current values.",
 ["configurations", "histories"], "all option settings and moments of change",
 "Options are not tested in any compiled test beyond parsing.",
 ["src/debug.cc", "src/util.cc", "src/scheduler.cc"],
 [("get_options, use_signal_cache", "src/debug.cc"), ("util::Options", "src/util.cc")],
 ["message streams of runs that differ only in options"])

prop("C26", "The debugger is attached to the clock exactly while it should be",
 "After a successful connection every rising edge of the clocks the symbol table names (or, without any, the clock found in the design), and nothing else, triggers exactly one evaluation, also after repeated connections, symbol-table reloads and clocks named twice; on Verilator, every time-step callback does. After the debugger stops or detaches, no evaluation is triggered, no callback stays registered and the simulation runs freely; a client may then connect again, load the table and debug as before.",
 ["histories", "schedules"], "all sequences of connect, disconnect, detach, stop and reconnect",
 "Not covered by compiled tests.",
 ["src/debug.cc", "src/rtl.cc", "src/sim.cc"],
 [("add_cb_clocks, detach, eval_hgdb_on_clk", "src/debug.cc"), ("monitor_signals, remove_call_back", "src/rtl.cc")],
 ["callbacks registered with the simulator and evaluations per edge"])

prop("C27", "SQLite symbol tables answer every query as their rows declare",
 "For every well-formed SQLite symbol table (references point to existing rows), the breakpoints for a file, line and column, by id and in execution order, their scopes, conditions and triggers, the context and generator variables with their RTL names, instances, attributes, file names, assignments and events are exactly those the rows declare, with absolute, relative and mixed file names and with path mappings; a query for something absent gives nothing.",
 ["inputs"], "all well-formed SQLite tables and all queries",
 "Upstream tests a few hand-written tables; none is compiled here.",
 ["src/db.cc", "include/schema.hh"],
 [("DBSymbolTableProvider", "src/db.cc"), ("init_debug_db", "include/schema.hh")],
 ["SymbolTableProvider API over a SQLite file"])

prop("C28", "Replaying a waveform debugs the simulation it recorded",
 "For every VCD file, hgdb-replay's waveform database and simulator interface report the hierarchy, signals, widths, clock edges and each signal's value at each time as the file declares, aliases, several roots, arrays, unknown bits and values of any width included. A debugging session over the waveform reports, at each rising edge of the design's clocks, the breakpoints, variables and times a live session over the recorded values would, and stepping back and reversing re-reports the earlier points exactly.",
 ["inputs", "histories"], "all VCD files, symbol tables and command sequences",
 "Upstream's replay tests use one hand-written waveform and are not compiled here.",
 ["tools/hgdb-replay/vcd_db.cc", "tools/hgdb-replay/vpi.cc", "tools/hgdb-replay/engine.cc", "tools/vcd/vcd.cc"],
 [("VCDDatabase", "tools/hgdb-replay/vcd_db.cc"), ("ReplayVPIProvider", "tools/hgdb-replay/vpi.cc"), ("EmulationEngine", "tools/hgdb-replay/engine.cc"), ("VCDParser", "tools/vcd/vcd.cc")],
 ["waveform queries, VPI queries and hit messages of replay sessions"])

prop("C29", "A failing design assertion is reported once, where it stands",
 "When the design calls $hgdb_assert_fail with its module, a file, a line and optionally a column, and the symbol table has a breakpoint there in that instance, then, while continuing, the next evaluated clock edge reports that breakpoint for exactly that instance and namespace, once, whatever its condition and whether or not it is inserted, in its place of the execution order, and without changing which other breakpoints are reported; stepping past it uses it up. A call that denotes nothing in the table has no effect.",
 ["inputs", "histories"], "all designs, calls and sequences of stops",
 "Only exercised with commercial simulators upstream.",
 ["src/debug.cc", "src/rtl.cc", "src/scheduler.cc", "src/sim.cc"],
 [("handle_assert", "src/debug.cc"), ("get_assert_info", "src/rtl.cc"), ("add_assert_breakpoint, remove_assert_breakpoints", "src/scheduler.cc")],
 ["system task calls and breakpoint messages"])

prop("C30", "Information and location requests describe the actual state",
 "At any time a debugger-information request returns the truth: the status names the simulator's product, version and command line and says whether the simulation is waiting for a command, the design information lists exactly the namespaces with their tops, the file names are those of the loaded symbol table, the options have their current values and the breakpoints are those inserted. A breakpoint-location request returns exactly the breakpoints the symbol table has in that file, line and column, inserted or not. What needs a symbol table is refused without one, and asking changes nothing.",
 ["inputs", "histories"], "all debugger states and requests",
 "A few answers are tested in Python tests that are not run here.",
 ["src/debug.cc", "src/namespace.cc", "src/proto.cc"],
 [("handle_debug_info, handle_bp_location", "src/debug.cc"), ("get_top_mapping", "src/namespace.cc"), ("DebuggerInformationResponse, BreakPointLocationResponse", "src/proto.cc")],
 ["responses to debugger-info and bp-location requests"])

prop("C31", "The Python client gives each call its answer and loses no message",
 "Every call of the Python client library (HGDBClient) sends exactly one request, which says what the call and its arguments mean to the debugger, and gives back the debugger's answer to that very request, or raises its reason if it is refused and checking is on, whatever breakpoint, monitor or other messages arrive before or after the answer. Every such message is handed out exactly once, in the order of arrival: the next one of any kind by recv, the next breakpoint by recv_bp. Debugging through the library therefore shows exactly what debugging over the wire shows.",
 ["inputs", "histories", "schedules"], "all calls, arguments and message arrivals",
 "The client's Python tests need simulators and compiled bindings and never let another message arrive in between.",
 ["bindings/python/hgdb/client.py"],
 [("HGDBClient.send, recv, recv_bp and the request methods", "bindings/python/hgdb/client.py")],
 ["requests seen by a scripted debugger, values returned by the library, sessions with the real debugger"])

prop("C32", "A Python symbol-table provider serves the debugger like a local table",
 "A symbol table implemented in Python as a subclass of SymbolTableProvider and served over its WebSocket answers every query of its interface (breakpoints by id and by file, line and column, instance names and ids, context and generator variables, annotations, array names, execution order) so that the debugger gets exactly what the same table loaded locally would give, calling the function that belongs to the query with the query's arguments; messages that are not JSON are answered with an empty object and do no harm.",
 ["inputs"], "all tables and queries",
 "No test connects the Python provider to the debugger.",
 ["bindings/python/hgdb/symbol.py", "src/symbol.cc", "src/proto.cc"],
 [("SymbolTableProvider._on_message", "bindings/python/hgdb/symbol.py"), ("NetworkSymbolTableProvider", "src/symbol.cc")],
 ["provider API of the debugger against the served table; debugging sessions"])

prop("C33", "A symbol table built with the Python library reads back the same",
 "What a compiler declares through the Python table classes is what is in the table. A JSON table written by JSONSymbolTable holds every module, with its instances, blocks and statements in the order in which they were added, their file names, lines and columns, and their variables with name, value, kind, delay and index ranges, and the runtime loads it and answers like the same table written by hand; get_filename gives the innermost file name of an entry. Every row accepted by DebugSymbolTable is a row of the SQLite file with the given values and defaults, a later row with the same id replaces the earlier one, and the has_ and get_filenames queries answer by what has been stored, inside and outside transactions and after opening the file again; a row that refers to a breakpoint, instance or variable that was not stored, or a value of the wrong kind or range, is refused with an exception and changes nothing.",
 ["inputs", "histories"], "all declarations and sequences of stores",
 "The Python tests need the compiled module, which is not built here, and store a handful of rows.",
 ["bindings/python/hgdb/db.py", "bindings/python/src/_hgdb.cc", "include/schema.hh"],
 [("JSONSymbolTable, Module, Scope, VarAssign, DebugSymbolTable", "bindings/python/hgdb/db.py"), ("PYBIND11_MODULE(_hgdb)", "bindings/python/src/_hgdb.cc"), ("store_*", "include/schema.hh")],
 ["the written JSON text, the rows of the SQLite file, symbol-table queries on the loaded table"])

prop("C34", "Rewriting a waveform renames its signals as the symbol table says",
 "hgdb-rewrite-vcd turns every well-formed VCD file into another one with the same header sections, scopes, variables (kind, width, identifier, range) and value changes at the same times, real values (which the tools do not support) excepted. Only names change: a signal that a generator variable of the SQLite symbol table stands for, directly in its instance or in a structure below it, gets that variable's name in that instance, dots in the name becoming scopes, which are added as modules where they are missing. The design is found wherever it stands below the waveform's top scopes (a table of one level means the scope below them with the most signals, or the top scope itself if there is none); one that occurs not at all or more than once is reported as an error. Instances and signals the waveform does not have are passed over, and files that are no VCD neither crash nor hang the tool. (Each signal has at most one generator variable.)",
 ["inputs"], "all waveforms and symbol tables",
 "One recorded waveform is compared with one recorded output, and only where the tool has been built.",
 ["tools/hgdb-rewrite-vcd/hgdb-rewrite-vcd.cc", "tools/vcd/vcd.cc"],
 [("VCDReWriter", "tools/hgdb-rewrite-vcd/hgdb-rewrite-vcd.cc"), ("VCDParser", "tools/vcd/vcd.cc")],
 ["the written VCD file and the exit status of the tool"])

with open(os.path.join(os.path.dirname(__file__), "..", "properties.jsonl"), "w") as f:
    for p in P:
        assert len(p["title"]) <= 80, p["title"]
        f.write(json.dumps(p, ensure_ascii=False) + "\n")
