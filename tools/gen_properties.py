#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (the source of truth for the property list)."""
import json, os
P=[]
def p(id,title,statement,over,text,why,files,mech,state=None,observe=None,hook=None):
    a={"files":files,"mechanism":[{"name":n,"where":w} for n,w in mech]}
    if state: a["state"]=[{"name":n,"meaning":m,"where":w} for n,m,w in state]
    if observe: a["observe_at"]=observe
    a["hook_needed"]=hook
    P.append({"id":id,"title":title,"statement":statement,"quantifier":{"over":over,"text":text},"why_tests_cant":why,"anchors":a})

p("C01","A circuit written out and read back is the same circuit",
 "For every circuit FIRRTL text can express, the text produced by formatting it, moved through any sink, storage or pipe that delivers all bytes (however it splits, delays or interrupts the transfers), reads back as an equal circuit: same modules, ports, statements, expressions, types, literals, strings, parameters and info attributes. Formatting the circuit read back gives the identical text. Equivalent renderings by other tools (other indentation widths, blank lines, comments, tabs, CRLF line ends, hexadecimal, octal or binary literals, omitted literal widths, reordered memory fields) read as that same circuit.",
 ["inputs","schedules","fault_sequences"],
 "every expressible circuit x every rendering x every schedule of short/interrupted writes and reads, producer and consumer interleaved over a bounded pipe or separated by a durable file",
 "The quickcheck round-trip tests sample small values of single constructs parsed from a string already in memory; nothing moves a whole multi-module circuit through I/O, doubles are excluded, and info/strings/unicode/extreme values are hardly reached.",
 ["src/circuit.rs","src/circuit/parsers.rs","src/module.rs","src/module/parsers.rs","src/stmt.rs","src/stmt/parsers.rs","src/stmt/display.rs","src/expr.rs","src/expr/parsers.rs","src/expr/primitive.rs","src/memory","src/types","src/info.rs","src/indentation.rs","src/parsers.rs"],
 [("Display for Circuit and everything below it","src/circuit.rs:71, src/module.rs DisplayIndented, src/stmt.rs DisplayIndented"),("nom parsers mirroring the formatters","src/*/parsers.rs"),("Circuit::from_read","src/circuit.rs:54")],
 observe=["Circuit::from_read, circuit::parse","Circuit's Display output","public accessors of the resulting AST"])

p("C02","Reading depends only on the bytes a source delivers",
 "Reading a circuit from a byte source gives exactly the result of parsing the concatenation of the bytes it delivers, success and error message alike. How the source splits the bytes (single bytes, inside a multi-byte character or token, around buffer sizes, large sources), delays them, or reports retryable interruptions makes no difference. Reading finishes once the source reports end of data and consumes all of it.",
 ["inputs","schedules","fault_sequences"],
 "every byte sequence (valid, malformed, non-ASCII, empty, large) x every split of it into reads x every placement of EINTR and stalls",
 "No test reads from anything but an in-memory string; from_read is never called by the test suite.",
 ["src/circuit.rs","src/error.rs"],
 [("Circuit::from_read buffers the complete source before parsing","src/circuit.rs:54")],
 observe=["Circuit::from_read compared to circuit::parse on the whole buffer","the sequence of read calls the source sees"])

p("C03","Read failures surface as that I/O error and nothing else",
 "If the source fails with a non-retryable error, or delivers bytes that are not valid UTF-8, reading returns an I/O error carrying the source's own error kind and payload (invalid data for encoding errors), no matter how much well-formed text arrived before. It never returns a circuit or a syntax error instead, does not read from the source again after the failure, and a later read of a healthy source is unaffected. The source is dropped exactly once whatever happens.",
 ["fault_sequences","crash_points","inputs"],
 "every error kind or custom error at every byte offset of every text, including directly after a complete circuit, combined with short and interrupted reads before it",
 "No existing test injects an error into a source, or looks at ParseError::IO at all.",
 ["src/circuit.rs","src/error.rs"],
 [("`?` conversion io::Error -> ParseError::IO","src/circuit.rs:56, src/error.rs:19-30"),("read_to_string's UTF-8 check","src/circuit.rs:56")],
 observe=["variant, kind, payload and source() of the returned ParseError","read and drop calls seen by the source"])

p("C04","Torn text is never accepted as something it is not",
 "If only a prefix of a circuit's text reaches the reader (writer crash, full disk, truncation at any byte), the result is either an error or a circuit that contains every complete line of that prefix and nothing else. Text following the top module is not exempt: nothing of the input is dropped silently.",
 ["crash_points","inputs","fault_sequences"],
 "every byte offset at which a write or transfer of every circuit can be cut, on a disk with volatile cache or a pipe with a crashing writer",
 "Truncated inputs do not occur in the tests; the parsers' stop-at-first-mismatch loops make silent truncation the natural failure mode.",
 ["src/circuit/parsers.rs","src/circuit.rs","src/module/parsers.rs","src/stmt/parsers.rs","src/memory/parsers.rs","src/parsers.rs"],
 [("drive the module iterator to the end of the input","src/circuit/parsers.rs circuit()"),("line ends terminate every construct","src/parsers.rs le()"),("leftover input is an error of the next module","src/module/parsers.rs Modules::next")],
 observe=["circuit::parse / Circuit::from_read on truncated text","the modules yielded by circuit::consumer before the error"])

p("C05","Corrupted text is rejected or read for what it says",
 "For text damaged in storage or transit (flipped bits, zeroed, lost, duplicated or swapped blocks, overwritten tails, spliced files) reading terminates without panic or abort, and yields either an error or the circuit the damaged text actually denotes. No literal, name, operand, statement, port, field, parameter or module is altered, invented or left out relative to that text.",
 ["fault_sequences","inputs"],
 "every combination of storage faults on the text of every circuit (nesting depth below the stack limit)",
 "The tests feed the parsers only text the formatter itself produced; no malformed input occurs.",
 ["src/parsers.rs","src/circuit/parsers.rs","src/module/parsers.rs","src/stmt/parsers.rs","src/expr/parsers.rs","src/types/parsers.rs","src/memory/parsers.rs","src/info.rs","src/indentation.rs"],
 [("strict parsers returning nom errors","src/*/parsers.rs"),("numeric conversions through FromStr with range checks","src/parsers.rs decimal/float, src/expr/parsers.rs num_lit")],
 observe=["result of circuit::parse, compared to an independent reference parser of the same text","panics and aborts"])

p("C06","A failing sink gets a clean prefix and its failure is reported",
 "Whatever point the sink fails at while a circuit is formatted into it, everything accepted before is exactly a prefix of the complete text, the failure is returned to the caller, and nothing is written afterwards. Formatting leaves the circuit unchanged: repeating it, completely or partially and any number of times, yields the same text. Success is reported only if the complete text was accepted.",
 ["fault_sequences","crash_points","inputs"],
 "every sink failure point (every write call, every byte for byte sinks with short/interrupted writes, ENOSPC, broken pipe) for every circuit, followed by retries",
 "Tests only format into in-memory strings, which never fail.",
 ["src/circuit.rs","src/module.rs","src/stmt.rs","src/stmt/display.rs","src/display.rs","src/indentation.rs","src/memory/display.rs","src/info.rs","src/types/display.rs"],
 [("every write result propagated with `?` or try_for_each","all Display and DisplayIndented impls")],
 observe=["fmt::Write and io::Write sinks passed to write!","the returned fmt::Result / io::Result"])

p("C07","A module consumer picks the first top module and reports source errors",
 "Wrapping any source of modules, a module consumer passes items and errors through unchanged and in order, pulling one item per request and nothing more. A circuit is available from the moment the first module with the top name was passed through (and stays that module's), never earlier; finishing returns that module's circuit, else the first error or first matching module still to come, else a 'not found' error. Name and info of the circuit are those given at creation.",
 ["histories","fault_sequences"],
 "every source history (any mix of modules with equal and different names, errors, premature and non-final ends) x every interleaving of pulling, asking for the circuit, cloning and finishing",
 "The existing tests finish a consumer over a well-formed text once; sources with errors, repeated names or interleaved use do not occur.",
 ["src/circuit.rs"],
 [("TopState::{Name,Module} state machine","src/circuit.rs:131-193")],
 state=[("top_module","name sought, or the first matching module","src/circuit.rs ModuleConsumer")],
 observe=["Iterator for ModuleConsumer, circuit(), into_circuit()","number of items pulled from the source"])

p("C08","Module-wise reading yields modules in order, linked to one definition",
 "Reading a text module by module yields its modules in the order they are defined, each becoming available by name and for instantiation from then on, and ends for good after the first error. Every instance refers to the very module object known under that name at that point (parsed or added by the caller, the latest winning), and every reference in a module to the very declaration in force, so that equal names never lead to different objects. Adding modules or looking modules up between steps does not affect anything else, and all ways of reading a text agree.",
 ["histories","inputs"],
 "every history of stepping, adding and looking up modules over every text, including redefinitions, shadowed names, unresolvable instances and malformed modules",
 "Tests compare ASTs by value, which cannot see object identity, and never mix stepping with adding modules.",
 ["src/module/parsers.rs","src/circuit/parsers.rs","src/stmt/context.rs","src/stmt/parsers.rs","src/stmt/entity.rs"],
 [("map of known modules in the iterator","src/module/parsers.rs:22-84"),("contexts handing out shared entities","src/stmt/context.rs")],
 state=[("modules","modules known by name","src/module/parsers.rs Modules"),("current","rest of the input","src/module/parsers.rs Modules")],
 observe=["module::Modules / circuit::consumer stepwise","Arc identity of Instance::module and of entities in expressions"])

p("C09","Threads working on shared ASTs do not influence each other",
 "Any number of threads may parse, format, compare, clone, inspect, type-check and drop circuits, sharing modules and whole circuits between them. Every operation returns what it returns when run alone, under every interleaving, and the shared objects stay unchanged until their last owner drops them. No interleaving blocks the threads for good.",
 ["schedules","programs"],
 "every program of up to a handful of threads over shared circuits x every interleaving at I/O callbacks, allocations, lock and atomic operations and branches",
 "The test suite is single threaded per test and shares nothing between threads.",
 ["src/circuit.rs","src/module.rs","src/module/parsers.rs","src/stmt.rs","src/expr.rs","src/types","src/stmt/context.rs"],
 [("immutable, Arc-shared AST without interior mutability or global state","whole crate")],
 observe=["results of public operations run concurrently vs. alone"])

p("C10","Output is reproducible across processes and hash seeds",
 "The text of a circuit depends on nothing but the circuit's value: it is the same in every process, under every hash seed, for every order in which maps were filled, and for circuits that are equal but were built or read separately. The modules appear in the same order, each exactly once, and after every module they instantiate. Likewise the outcome of reading a text, error messages included, is the same every time.",
 ["configurations","histories","inputs"],
 "every hash seed and map insertion history x every circuit",
 "Tests run with one (here even a fixed) hash seed per process and compare by value, which ignores map order.",
 ["src/circuit.rs","src/module.rs","src/module/parsers.rs","src/stmt/context.rs"],
 [("dependency-ordered formatting with a set of finished names","src/circuit.rs:71-103"),("parameters sorted by name","src/module.rs")],
 observe=["Display output under different RandomState keys","ParseError's text"])

p("C11","Panicking or re-entrant caller code does no harm",
 "Callbacks the library calls (reader, sink, module source, module lookup) may themselves use the library, also on the very objects being processed, and get correct results, while the outer operation proceeds as if nothing had happened. A panic raised by a callback reaches the caller unchanged and leaves all circuits, iterators and contexts involved consistent and usable, and later operations unaffected.",
 ["crash_points","histories","fault_sequences"],
 "every callback invocation of every operation as the point of a panic or of a nested operation, nested up to a few levels",
 "No test passes a callback that panics or calls back.",
 ["src/circuit.rs","src/stmt/context.rs","src/module/parsers.rs","src/indentation.rs"],
 [("no global or thread-local state, no locks held across callbacks","whole crate"),("SubContext hands its items over on drop, also while unwinding","src/stmt/context.rs:137")],
 observe=["panic payloads, results of nested, outer and subsequent operations"])

p("C12","Scopes look up innermost first and hand over their items when they end",
 "Lookups of entities and memories in a scope see the latest item added to it or, failing that, what the enclosing scope sees; entities, memories and modules are separate name spaces, and modules come from the outermost scope's source. An open inner scope leaves the enclosing one untouched; when it ends, in whichever way (regularly or by unwinding), exactly its items are added to the enclosing scope, replacing equal names, and identity of the items is preserved.",
 ["histories","crash_points"],
 "every history of adding, looking up, opening and ending nested scopes, with unwinding at every point and a caller-defined outermost context",
 "Contexts are only exercised indirectly by parsing formatter output in which names rarely collide.",
 ["src/stmt/context.rs"],
 [("SubContext lookup chain and Drop","src/stmt/context.rs:94-146"),("TopContext maps","src/stmt/context.rs:44-91")],
 state=[("entities, memories","items added in this scope","src/stmt/context.rs")],
 observe=["Context::{entity,memory,module,add_entity,add_memory,sub}","calls reaching a caller-defined parent Context"])

p("C13","Failed and finished operations give back all memory",
 "After any read, format, iterate or build operation has ended, by success, error, or a panic of caller code, and its results are dropped, no memory remains allocated on its behalf. Repeating any history of such operations, faults included, does not make memory use grow.",
 ["fault_sequences","histories","crash_points"],
 "every history of operations with faults at every point, repeated",
 "No test looks at memory.",
 ["src/circuit.rs","src/module/parsers.rs","src/stmt/context.rs","src/stmt/parsers.rs"],
 [("tree of Arcs without cycles; no caches","whole crate")],
 observe=["live bytes and allocation counts of a counting allocator before and after"])

p("C14","Results stay valid and unchanged independent of how they came about",
 "Modules taken from one text and added to the reading of another, or combined into new circuits by hand, stay the same objects with the same content, whatever happens to their origin (source exhausted, failed or dropped). A circuit combined this way is written, read and module-wise consumed like any other. Its text defines every transitively instantiated module.",
 ["histories","fault_sequences"],
 "every history of splitting circuits over several sources (libraries), some of which fail midway, and recombining the modules",
 "Tests never combine modules from more than one source.",
 ["src/module/parsers.rs","src/circuit.rs","src/module.rs","src/stmt.rs"],
 [("Modules::add_module","src/module/parsers.rs:56"),("Circuit::new, Circuit's Display walking instantiations","src/circuit.rs"),("Statement::instantiations traversing nested statements","src/stmt.rs:47")],
 observe=["text and AST of the combined circuit, Arc identity of the modules"])

p("C15","Effort and memory stay in proportion to the text",
 "Reading a text, to its end or to its rejection, from memory or from a source delivering in pieces and with interruptions, and writing a circuit or an error message take a number of steps, of allocations and an amount of memory proportional to the number of bytes read or written (times, at most, the number of conditionals around an expression, whose scopes look-ups have to pass through). Neither nesting, repetition, instantiation of the same module over and over, numbers in the text nor damage to it make effort or memory explode.",
 ["inputs","fault_sequences","histories"],
 "every text, valid or damaged, however deeply nested or repetitive, and every way of delivering it",
 "Tests use small texts and never measure; a parser alternative tried twice is harmless in them, but exponential in the nesting depth.",
 ["src/parsers.rs","src/expr/parsers.rs","src/types/parsers.rs","src/stmt/parsers.rs","src/module/parsers.rs","src/circuit.rs","src/error.rs"],
 [("alternatives of the parsers, all of which are decided without parsing nested parts again","src/expr/parsers.rs, src/stmt/parsers.rs"),("Circuit's Display skipping modules written already","src/circuit.rs"),("convert_error","src/error.rs")],
 observe=["control flow edges passed, allocations and peak memory of each operation"])

p("C16","Walks yield every item as often as it occurs, no matter how they are interleaved",
 "Walking through the declarations or instantiations of a statement, the references of an expression, the operands of an operation, the modules a module references, the ports of a module or memory or the fields of a bundle yields every item at any nesting depth exactly as often as it occurs (ports and fields in their order), and announces a number of items still to come which is true. This holds however many walks through the same or other objects are open at once, on whichever threads their steps are taken, whether others were given up half-way or ended in a panic of the caller, whatever happened to circuits sharing or copied from those objects meanwhile, and whether these were built, read or copied. Looking up ports and fields by name leads to those the walks yield.",
 ["interleavings","histories","fault_sequences"],
 "every circuit and every interleaving of steps of walks with one another and with other operations",
 "Traversals are not tested directly; a cursor, cache or counter shared between walks is invisible to a single walk from start to end.",
 ["src/stmt.rs","src/expr.rs","src/expr/primitive.rs","src/module.rs","src/memory/mem.rs","src/types/type.rs"],
 [("Statement::declarations, Statement::instantiations","src/stmt.rs:47"),("Expression::references","src/expr.rs"),("Operation::sub_exprs","src/expr/primitive.rs"),("Module::referenced_modules, Module::ports, Module::port_by_name","src/module.rs"),("Memory::ports","src/memory/mem.rs"),("Type::fields, Type::field","src/types/type.rs")],
 observe=["addresses of the items yielded, size hints"])

p("C17","Objects are what their changes make them, and copies go their own ways",
 "A memory, simple memory or a port of it, register, bundle field, module port, module, instance, entity, statement or circuit is, through its accessors, exactly what the history of operations on it made it: each operation (creating it, adding ports, setting latencies, behaviour, reset, type, orientation, info, or changing a module's kind in place) changes what it is meant to and nothing else, in whatever order and how often operations are applied. Copies and other owners are not affected by later changes; two objects are equal exactly if all they are made of is. What an object offers to expressions, its name, type (for memories and instances, a bundle made of their or their module's ports and the memory's data type and depth) and flow, follows from what it is made of at that time. This holds whatever conversions and iterators of the caller do which operations call: switching threads, using the library, announcing wrong numbers of items, or panicking, in which case objects remaining keep what they had (plus ports given before the panic), and nothing is left over.",
 ["histories","interleavings","fault_sequences"],
 "every history of operations on several objects and their copies, with every behaviour of the caller's code called",
 "Tests build each object once, in one order, and never change it, or a copy, again.",
 ["src/memory/mem.rs","src/memory/simple.rs","src/memory/register.rs","src/types/type.rs","src/module.rs","src/stmt.rs","src/stmt/entity.rs","src/circuit.rs","src/info.rs"],
 [("Memory::add_port(s), with_*","src/memory/mem.rs:70"),("Register::with_reset, with_optional_reset, without_reset","src/memory/register.rs:41"),("BundleField::with_type, with_orientation, flipped","src/types/type.rs:250"),("WithInfo","src/info.rs:15"),("Module::kind_mut","src/module.rs:62"),("Memory::type, Instance::type","src/memory/mem.rs:133"),("Entity","src/stmt/entity.rs:45")],
 observe=["accessors, types, flows and comparison of all objects","owners of names and modules in the end"])

# --- properties this family cannot decide
p("N01","Types of expressions follow the FIRRTL width and type rules",
 "The type determined for an expression (literals, references, sub-fields, multiplexers, every primitive operation) is the one the FIRRTL specification prescribes, with unknown widths staying unknown and overflow never wrapping or panicking.",
 ["inputs"],"every expression over every entity type",
 "quickcheck samples a few operations with small widths.",
 ["src/expr.rs","src/expr/primitive.rs","src/types/ground.rs","src/memory/mem.rs"],
 [("Typed impls","src/expr.rs:87, src/expr/primitive.rs, src/memory/mem.rs")])
p("N02","Flow of expressions follows direction and orientation",
 "The flow reported for an expression is that of the referenced entity, inverted once per flipped field on the way, and every other expression is a source.",
 ["inputs"],"every expression","only small samples",["src/expr.rs"],[("Expression::flow","src/expr.rs:50")])
p("N03","Type equivalence and weak equivalence follow the specification",
 "Two types are equivalent exactly if they have the same shape, field names and orientations with widths ignored; weak equivalence compares orientations of leafs instead; both are equivalence relations.",
 ["inputs"],"every pair of types","only small samples",["src/types/type.rs","src/types/oriented.rs","src/types/ground.rs"],[("TypeExt::eq, Type::weak_eq","src/types")])
p("N04","Combining types is symmetric and yields the wider type",
 "Combining two types succeeds exactly for types of the same shape and yields the maximum of all widths regardless of the order of operands.",
 ["inputs"],"every pair of types","only small samples",["src/types/combinator.rs","src/types/ground.rs","src/types/type.rs"],[("Combinator impls","src/types")])
p("N06","Syntax errors name the offending position",
 "The line and column in a syntax error lie in the original text at the place where the offending construct starts.",
 ["inputs"],"every malformed text","no test looks at messages",["src/error.rs","src/module/parsers.rs"],[("convert_error with the origin text","src/error.rs")])
here=os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
with open(os.path.join(here,"properties.jsonl"),"w") as f:
    for x in P: f.write(json.dumps(x,ensure_ascii=False)+"\n")
