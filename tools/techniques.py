NA = {}
NOTE["C01"] = ("all statement trees up to a construct bound and all outcomes of their conditions (explicit-state reference interpreter), each execution replayed on the interpreter",
               "exhaustive within the bounds in the evidence; condition outcomes beyond the decision bound are fixed to false")
NOTE["C02"] = ("all statement trees with throw, try/catch/finally, rethrow and throwing callees up to a construct bound and all their decision outcomes (explicit-state reference interpreter), each execution replayed on the interpreter",
               "exhaustive within the bounds in the evidence; exception types are a three-level class hierarchy, string and int")
NOTE["C03"] = ("all operation sequences on a small heap of variables, members and containers (explicit-state reference-count model) and all scope-exit paths of object-creating statement trees, each replayed on the interpreter",
               "order among destructors of one scope is not part of the property; objects on reference cycles are only required not to crash")
NOTE["C04"] = ("all operator strings, parenthesised trees and conditional expressions up to an operator bound, with all outcomes of their boolean operands and several value vectors (reference parser and evaluator), each evaluation replayed on the interpreter",
               "divisions by zero are left to C05; the conditional operator is exercised with a single or parenthesised condition")
NOTE["C05"] = ("all operators x type pairs x boundary value pairs, casts, implicit conversions and three-operand expressions (reference arithmetic), each evaluation replayed on the interpreter",
               "a finite boundary-value domain per type; right operands not representable in the left operand's type are outside the property")
NOTE["C15"] = ("all operation sequences up to a depth over every reachable collection content (abstract sequence/set/map model), with all queries after each operation, each replayed on the interpreter running the library collections",
               "element values are a small set of int, string and object values; inserting an existing key into a Map and Map.first/last are not covered")
NOTE["C16"] = ("all operation sequences of one iterator (position automaton), all interleavings of three iterators with foreach, all contents reached by collection operations, all break/continue decisions of nested foreach loops and all strings up to a length, each replayed on the interpreter",
               "collections are not changed while iterated; moving backwards is exercised on List only")
NOTE["C09"] = ("all class chains up to a depth with every choice of undefined/defined/base-calling/final/abstract methods, constructors, overloads, interfaces and all inheritance graphs up to four classes (reference dispatch model), each replayed on the interpreter through every reference type",
               "calls made inside an inherited method are resolved from the class that defines it and are not part of the property; incomplete interface implementations are accepted by the implementation and not claimed")
NOTE["C10"] = ("all unambiguous overload sets over the parameter types up to a size, all argument vectors they accept or reject, in every kind of callable, and all combinations of argument source, call kind and parameter change (reference resolution model), each replayed on the interpreter",
               "overload sets in which one call could match two parameter lists are not ordered by the language and not covered; built-in values created on the heap with new are not covered")
NOTE["C12"] = ("exhaustive enumeration of declaration placements and use points, model traces replayed on the interpreter",
               "Every subset of nine declaration levels (global, two namespaces, base member, member, parameter, local, block, inner block) x function placement x block kind x read/write, plus all recursion bodies up to the bound; each program's trace is computed by an independent scope model and compared with the interpreter's output; programs using an invisible name must be rejected.")
NOTE["C26"] = ("explicit-state model checking of all heap states reachable within the bound, every transition replayed on the interpreter",
               "All states of three references over at most 2 (3) live objects are enumerated by breadth-first search of an independent heap model; every transition of every state is replayed as a program whose printed values, links and pairwise comparisons must equal the model's; uses of null must end in a diagnosis; all short assignment sequences of built-in values are enumerated likewise.")
NOTE["C24"] = ("exhaustive enumeration of operator uses (operator x left operand source x right operand source/type, operator chains, sequences of operations on one left value, undefined operators, exceptions inside operators); each program is run on the real interpreter and its trace of operator calls compared with the model's",
               "Every operator logs both operands; the model predicts calls, order, values, aliasing after compound assignment and rejections.")
NOTE["C25"] = ("exhaustive enumeration of enumeration declarations and of assignment sequences over enumeration variables; model traces replayed on the interpreter",
               "Every declaration up to the bound (placement x explicit or implicit values) is either rejected or all its entries' values, conversions, comparisons and switch selections are compared with the model; all assignment sequences between five places; every ill-typed use must be rejected.")
NOTE["C27"] = ("exhaustive enumeration of write sequences over all access paths to shared state; after each sequence every read path is compared with an explicit-state model, replayed on the interpreter",
               "State = static members of three classes (int, string, object, private), namespace variables on three levels, a global and two instances' own members; all sequences of two writes over all 41 write paths and longer ones over 16 paths; initial values are read in fresh programs; uses of non-static members through the class or in static methods must be rejected.")
NOTE["C08"] = ("explicit-state exhaustive enumeration of programs over (member kind, visibility, declaring class, accessing context, access path, access form) against a reference visibility rule, every program replayed on the real interpreter",
               "19 member kinds including overloads, operators and constructors x 3 visibilities x 3-level hierarchy, unrelated class, namespace and function x instance/static/constructor/private contexts x 24 access paths; permitted accesses must print the expected values, forbidden ones must be rejected before anything runs")
NOTE["C07"] = ("explicit-state exhaustive enumeration of (constant holder, kind of modification, statement placement); each program replayed on the real interpreter in a constant and a modifiable twin",
               "about 190 holders (local, parameter, global, namespace, static, member, inherited, chained, const method view; 7 types and objects) x up to 24 modifications x 12 placements: the constant twin must be rejected before running, the modifiable twin must be accepted and show the modified value, plain reads must show the initial value")
NOTE["C06"] = ("exhaustive enumeration of (construct, type, type, operand form, place) against an independent typing table, each replayed on the interpreter",
               "typing table written down independently; every binary/assignment/unary/initialiser/argument/return/ternary/cast combination over 11 types, 6 operand forms and up to 9 places, plus unknown names, members, types and duplicate declarations; accepted ones are run and their static type observed by overload selection")
NOTE["C23"] = ("explicit-state exploration of the invocation model, every trace replayed on the built interpreter",
               "All chains of up to 2 (thorough 3) of 60 call contexts times every way to end a program, every exit value of a boundary set, all argument lists of up to 3 arguments over an alphabet of awkward strings combined with option prefixes, entry point variants, broken programs under every mode; status, output and executed effects compared with the model.")
NOTE["C13"] = ("exhaustive exploration of program layouts and literal spellings, each replayed on the built interpreter",
               "Seven programs spanning the grammar: every gap times every one of 27 fillers (blanks, line ends, all comment forms), neighbouring gaps times filler pairs, two fillers in one gap, uniform and alternating layouts, removal of every removable gap; all string literals up to length 3 (thorough 4) over 16 characters and all number spellings of a boundary set in four positions.")
NOTE["C14"] = ("exhaustive exploration of the single-edit neighbourhood of source texts on the real interpreter and on a memory-checked build",
               "Every single-token edit (cut, drop, double, swap, replace, insert) of eight programs spanning the grammar, all token strings up to length 2 (thorough 3) in 16 kinds of position, all bytes and character pairs, nesting of 22 constructs up to 200 levels (closed and unclosed); a subset is read again by an AddressSanitizer build. Allowed outcomes: acceptance or a diagnosis with failure status; unbalanced brackets must be diagnosed.")
NOTE["C18"] = ("exhaustive enumeration of version pairs and version texts, each replayed on the version library and the package manager",
               "All pairs of a set of versions (numbers 0, 1, 10 and labels/build texts; thorough adds 2 and more labels) are compared by the library operators and by the package manager's install decision; all texts over five characters up to length 6 (thorough 7) are parsed and printed by the library, well-formed ones also by the package manager; next versions and constructor round trips.")
NOTE["C11"] = ("exhaustive exploration of operation sequences on prototype instances and of pairs of uses, replayed on the built interpreter",
               "All operation sequences up to length 4 (thorough 5) on boxes, pairs (all 36 type pairs), chains and wrappers for six argument types against a reference model with aliasing; every one of 26 kinds of use as first use of an instance and next to every other use; programs that mix up instances, violate constraints or give too many arguments must be rejected, each with an accepted twin.")
NOTE["C17"] = ("explicit-state model checking: exhaustive enumeration of strings, arguments, positions and String operation sequences against a character-sequence model, every trace replayed on the interpreter",
               "All strings up to a length bound over small alphabets x all argument strings and positions from -2 to length+2 for every string function, plus all sequences of String operations up to the depth bound with text, length and last character observed after each.")
NOTE["C28"] = ("explicit-state model checking: exhaustive enumeration of import graphs, file splits and namespace definitions/uses against a reachability and scoping model, every configuration replayed on the interpreter",
               "All import graphs over a main and three library files (self, main and missing targets, order and repetition variants), all distributions of a program's declarations over three files and three import shapes, all placements of same-named files, all definition sets of a name over four namespaces x use sites x qualified forms.")
NOTE["C22"] = ("explicit-state model checking: exhaustive enumeration of file operation sequences against a stream model, every trace replayed on the interpreter",
               "All sequences of stream operations up to the depth bound for every open mode and initial content, with results, end-of-file and error flags observed after each step and the file content at the end; run as an unprivileged user in a scratch folder.")
NOTE["C19"] = ("explicit-state model checking: exhaustive enumeration of JSON values and JSON texts against an independent reader model, every text replayed on the library",
               "All values up to the depth and width bound are written and read back; all token sequences and number texts up to the length bound are read, and the library must read exactly those that are JSON, to the value they denote.")
NOTE["C21"] = ("explicit-state model checking: exhaustive enumeration of debugger command sequences against a model of the program's execution, every session replayed in the debugger",
               "All sequences of continue, step over/into/out, breakpoint, list, frame and watch commands up to the depth bound over a set of programs; stop positions, shown values, call frames, program output and result are compared with a simulated execution.")
NOTE["C20"] = ("explicit-state model checking: reachability over all library states of small repositories, every transition replayed with the package manager on disk",
               "Every reachable state of the model (installed modules and versions, restrictions, cached and published index) is put on disk, every command is run from it by an unprivileged user with guarded file commands, and the resulting library, configuration, index and report are compared with the model.")
NOTE["C29"] = ("explicit-state model checking: exhaustive enumeration of function calls over an argument grid and of floating point environment histories against the C library and a state model, every trace replayed on the interpreter",
               "All functions of one, two and three arguments on all tuples of a value grid in every argument form, the library's powers, and all sequences of rounding and exception operations up to the depth bound with full observation after each step.")
NOTE["C30"] = ("explicit-state model checking: exhaustive enumeration of behaviour trees and all outcomes of each visited leaf over several ticks against a recursive tree model, every history replayed on the library",
               "All trees up to the shape bound (sequence, fallback, reactive forms, decorators) with lazily enumerated outcomes of every leaf visit over several ticks; visit order and result of each tick are compared.")
NOTE["C31"] = ("explicit-state model checking: exhaustive enumeration of parameter lists and query/removal histories against a list model, every trace replayed on the library and, where a shell can pass them, on the process itself",
               "All lists over all written forms of a parameter and separators up to the bound; all sequences of lookups and removals over lists with repeated names; real process arguments.")
NOTE["C32"] = ("explicit-state model checking: exhaustive enumeration of CSV texts and tables against a line/cell model, every text written to a file and read by the library",
               "All texts over cells, separators and line ends up to the length bound, all tables up to the size bound, header-only reading, several files with one reader, missing files; run as an unprivileged user in a scratch folder.")
NOTE["C33"] = ("explicit-state model checking: exhaustive enumeration of output, input, environment and type lookup histories against stream, map and type set models, every trace replayed on the interpreter with separate streams",
               "All sequences of output and environment operations up to the depth bound, all input texts and inherited values over small alphabets up to the length bound, all kinds and places of two declared types x names.")
NOTE["C34"] = ("explicit-state model checking: exhaustive enumeration of stacks of active constructs x kinds of failures x shapes of live objects, every history replayed on the interpreter",
               "All stacks of up to two enclosing constructs out of 27 (calls, constructors, operators, iterators, loops, handlers, ...), 14 kinds of failures, 11 shapes of live objects; output up to the failure and exit status are compared.")
NOTE["C35"] = ("exhaustive enumeration of pieces of code (single and all ordered pairs) x kinds and owners of methods x enclosing statements; one meaning per piece in the model, every placement replayed on the interpreter",
               "All 28 pieces and all ordered pairs in 75 places of a class tree, generic class, namespace and file, inside of six kinds of statements.")
NOTE["C36"] = ("explicit-state model checking: exhaustive enumeration of log sessions, child loggers and messages against a line list model, every history replayed and the files read back",
               "All sequences of steps up to the bound, up to three sessions on two files and the standard output; run as an unprivileged user in an own folder.")
NOTE["C37"] = ("exhaustive enumeration of documents up to a bound on nodes and nesting, described to each builder and compared with an independent parse of the text",
               "All documents up to 5 (thorough 6) nodes for the three builders, with repeated names and all kinds of values.")
NOTE["C38"] = ("explicit-state model checking: exhaustive enumeration of instants x zones x formats against calendar rules and of process trees against a process model, every trace replayed on the interpreter",
               "Times in five time zones with and without daylight saving time; process trees up to 5 (thorough 6) operations, run as an unprivileged user.")
NOTE["C39"] = ("explicit-state model checking: exhaustive enumeration of write, read, failing and command sequences against byte stream models, every history replayed and the bytes compared outside of the interpreter",
               "All sequences of 3 (thorough 4) operations over 17 values and of 3 (thorough 4) pieces of commands; descriptors are files and pipes, sockets are not connected; run as an unprivileged user.")
NOTE["C40"] = ("explicit-state model checking: exhaustive enumeration of marked class chains, replicas, constant classes, routine states and nested types against a declaration model, every program replayed on the interpreter",
               "Chains of up to 3 classes with 4 marks and 4 states of maturity in 4 places, constant classes with up to 3 (thorough 7) members, 2 routines with up to 2 calls, up to 3 nested types.")
