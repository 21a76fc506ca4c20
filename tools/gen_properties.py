#!/usr/bin/env python3
"""Writes properties.jsonl.  The texts live here so that they can be edited comfortably."""
import json, os

TI = "Projects/Core/Core/AST/TreeInterpreter.cpp"
TG = "Projects/Core/Core/AST/TreeGenerator.cpp"
OBJ = "Projects/Core/Core/Object.cpp"
MEM = "Projects/Core/Core/VirtualMachine/Memory.cpp"
TS = "Projects/Core/Core/VirtualMachine/TypeSystem.cpp"
REPO = "Projects/Core/Core/VirtualMachine/Repository.cpp"
SCOPE = "Projects/Core/Core/Scope.cpp"
SYM = "Projects/Core/Core/Symbol.cpp"
METH = "Projects/Core/Core/Common/Method.cpp"
CTRL = "Projects/Core/Core/VirtualMachine/Controller.cpp"
THR = "Projects/Core/Core/VirtualMachine/Threads.cpp"
BPO = "Projects/Core/Core/Designtime/BluePrintObject.cpp"
ANA = "Projects/Core/Core/Designtime/Analyser.cpp"
SAN = "Projects/Core/Core/Designtime/SanityChecker.cpp"
TOK = "Projects/Core/Core/Designtime/Parser/Tokenizer.cpp"
PAR = "Projects/Core/Core/Designtime/Parser/Parser.cpp"
RBT = "Projects/Core/Core/Runtime/BuildInTypes/"
ATV = "Projects/Core/Core/Runtime/AtomicValue.cpp"
TC = "Projects/Core/Core/Runtime/TypeCast.cpp"
OO = "Projects/Core/Core/Runtime/OperatorOverloading.cpp"
REF = "Projects/Core/Core/Runtime/Reference.cpp"
MAIN = "Projects/slang/main.cpp"
LIB = "Projects/Library/"
COL = LIB + "System/Collections/"

P = []
def prop(id, title, statement, over, qtext, why, files, mech, state=None, observe=None, hook=None):
    assert len(title) <= 80, title
    d = {"id": id, "title": title, "statement": statement,
         "quantifier": {"over": over, "text": qtext},
         "why_tests_cant": why,
         "anchors": {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech]}}
    if state: d["anchors"]["state"] = [{"name": n, "meaning": m, "where": w} for n, m, w in state]
    if observe: d["anchors"]["observe_at"] = observe
    d["anchors"]["hook_needed"] = hook
    P.append(d)

prop("C01", "Structured control flow runs exactly the statements it should, in order",
 "For every accepted program, the statements executed and their order are exactly those prescribed by if/else, while, for, foreach, switch/case/default, break, continue and return: break leaves only the innermost loop or switch, continue starts the next iteration of the innermost loop (running the for increment) or re-evaluates the innermost switch, return leaves only the current function with the given value, and a switch runs exactly the first matching case (or default). Nothing after a taken jump is executed and nothing before it is skipped, however the constructs are nested or called.",
 ["programs", "inputs"], "all programs built from these constructs, all nestings and all outcomes of their conditions",
 "Each test fixes one nesting and one set of condition outcomes; jumps interact with every enclosing construct, so only enumerating all nestings x outcomes settles it.",
 [TI, TG, "Projects/Core/Core/AST/Statement.h"],
 [("control flow propagation", TI + " TreeInterpreter::process / visitStatements / visitWhile / visitFor / visitForeach / visitSwitch / visitIf / visitReturn"), ("statement construction", TG + " TreeGenerator::process_*")],
 [("mControlFlow", "pending jump of the executing method", TI)], ["stdout of slang", "exit status"])

prop("C02", "Exceptions reach the nearest matching handler and finally runs once",
 "A thrown value propagates through any number of blocks and calls to the innermost enclosing try whose catch accepts the value's type; the first matching catch of that try runs exactly once with that very value, statements between the throw and the handler are not executed, and execution continues after the try. The finally block of every try that was entered runs exactly once on every way out, rethrow raises the exception being handled, and a value nobody catches ends the program with a diagnosed non-zero exit status.",
 ["programs", "histories"], "all nestings of try/catch/finally, throws (also inside handlers, callees, expressions, constructors) and rethrows within the bound",
 "The outcome depends on the whole dynamic nest of active handlers; tests exercise a handful of shapes and never nested handlers followed by a rethrow.",
 [TI, "Projects/Core/Core/Runtime/ExceptionData.cpp", THR, MAIN],
 [("throw / try", TI + " visitThrow, visitTry, tryControl, execute"), ("in-flight exception", THR + " Thread::exception"), ("uncaught exceptions", MAIN + " main")],
 [("exception data", "value and position of the exception in flight", "Projects/Core/Core/Runtime/ExceptionData.cpp")], ["stdout", "exit status"])

prop("C03", "Objects are constructed once and destroyed exactly when last released",
 "Every object created by a program has its constructor run exactly once, and its destructor run exactly once, as soon as the last variable, member, parameter or temporary referring to it is gone (scope left normally or by break, continue, return or throw, or variable overwritten) and never while it is still reachable. Destructors of a scope's objects run before execution continues behind that scope, and no program - including one that leaves unreachable cycles behind - crashes because of how its objects are released.",
 ["programs", "histories"], "all sequences of create / alias / overwrite / release / scope-exit operations within the bound, over several variables, members and cyclic structures",
 "Reference counts are a property of the whole history of assignments; tests check single allocate/release pairs and never enumerate aliasing orders or exit paths.",
 [MEM, REF, OBJ, SCOPE, SYM, TI],
 [("reference counting", MEM + " Memory::add/remove/deleteObject/deinit"), ("object handles", OBJ + " Object::assignReference/garbageCollect/Destructor"), ("scope cleanup", SCOPE + " SymbolScope::deinit")],
 [("mMemory", "address -> (count, object)", MEM)], ["stdout of constructors/destructors", "exit status"])

prop("C04", "Expressions evaluate by the grammar, left to right, with short circuit",
 "The value of every expression equals the value of its fully parenthesised form under the language's operator precedence and associativity; operands and call arguments are evaluated exactly once and from left to right, the right operand of a logical operator only if the left one does not decide the result, and exactly one branch of a conditional expression. The logical operators and, or, not and nand yield their truth-table value.",
 ["programs", "inputs"], "all expression trees up to the bound over all operators, all operand values of a small domain and with side-effecting operands",
 "Precedence errors only show for particular operator pairs and values; tests sample a few mixed expressions.",
 [TG, TI, "Projects/Core/Core/AST/Expression.cpp"],
 [("expression parser", TG + " expression/conditional/relation/term/factor levels"), ("evaluation", TI + " evaluateBinaryExpression, evaluateBooleanBinaryExpression, evaluateTernaryExpression, evaluateUnaryExpression")],
 None, ["stdout"])

prop("C05", "Built-in value types compute, compare and convert correctly",
 "Operators on built-in values compute in the type of their left operand: for every accepted pair of types and all values where the right operand is representable in that type, arithmetic, comparison, bitwise, compound-assignment and increment/decrement operators yield the mathematical result (integers wrap around at the width of their type); casts and implicit conversions preserve every value the target type can represent and print in the type's canonical form. An operation with no defined result (division or modulo by zero of integers) ends in a diagnosed error and never in an abnormal termination.",
 ["inputs", "programs"], "all type pairs x operators x a boundary-value domain per type",
 "There are thousands of (operator, left type, right type, value, value) combinations; tests cover mostly int with small positive values.",
 [RBT + "Int32Type.cpp", RBT + "Int64Type.cpp", RBT + "Int16Type.cpp", RBT + "FloatType.cpp", RBT + "DoubleType.cpp", RBT + "BoolType.cpp", RBT + "StringType.cpp", ATV, OO, TC, TS],
 [("operator dispatch", OO + " operator_binary_*"), ("per type operators", RBT + "*Type.cpp operator_*"), ("casts", TC + " typecast"), ("values", ATV + " AtomicValue conversions")],
 None, ["stdout", "exit status"])

prop("C06", "Ill-typed programs are rejected before running; accepted ones stay typed",
 "A program that uses an operator, assignment, initialiser, argument list, return value, member, name or type for which the language defines no typing is rejected with an error before any of its statements runs, wherever the use stands. A program with a typing is accepted, its expressions have the type of the typing rules, and it never stops at run time because an operation is not defined for the types of its operands (explicit casts from or to classes and enumerations are checked when performed).",
 ["programs"], "all (operator, type, type), (declared type, initialiser type), (parameter type, argument type), (return type, value type) combinations over built-in, user and enum types, plus undeclared/duplicate names",
 "Rejection must hold for every combination in the typing table; tests exercise positive cases and single negatives.",
 [TG, TS, ANA, BPO, REPO, "Projects/Core/Core/AST/TreeGenerator.h"],
 [("type table", TS + " TypeSystem::init/define/getType"), ("static checks", TG + " resolveType / process_assign / process_method / process_return")],
 None, ["exit status", "stderr diagnostics", "absence of program output"])

prop("C07", "Constant data cannot be modified by any accepted program",
 "A const variable, const parameter, const member, const static or global, everything reached through a const object variable, and every member seen from a const method cannot be changed through that name after initialisation: a program that would assign it, increment it, hand it to a modifiable by-reference parameter, or call a modifying method or operator on it is rejected before it runs, wherever the statement stands. The same modification of non-const data is accepted and takes effect, and constants can be read everywhere.",
 ["programs"], "all combinations of const-ness of the data, the access path, the enclosing method and the kind of modifying operation",
 "Const-correctness is a negative guarantee over all access paths; tests contain a few fixed negative examples.",
 [TG, TI, OBJ, SYM, METH],
 [("mutability checks", TG + " process_assign / resolveType mutability"), ("method mutability", METH + " Method::getMutability")],
 None, ["acceptance/rejection", "stdout"])

prop("C08", "Private and protected members are unreachable from outside",
 "A private member (variable, constant, method, overload, operator, constructor) is usable only from code of the class that declares it and a protected member only from that class and its descendants, whatever the kind of access (read, write, call, creation) and the access path (unqualified, this, base, another instance, chained members, class name); every other program using it is rejected before anything runs. A class can always use its own private members and a derived class the protected members it inherits, and public members are never refused.",
 ["programs"], "all combinations of member kind, visibility, accessing context and access path",
 "A leak needs one unlisted (kind, context, path) combination; tests hold a few positive and negative samples.",
 [TG, TI, OBJ, SCOPE, "Projects/Core/Core/Common/Visibility.cpp"],
 [("visibility filter on lookup", SCOPE + " resolve/resolveMethod"), ("static checks", TG + " resolve*")],
 None, ["acceptance/rejection", "stdout"])

prop("C09", "Method calls dispatch to the most derived override of the object",
 "Calling a method on an object runs the implementation of the most derived class of that object that defines it, whatever the declared type of the reference (class, ancestor or interface) and whatever object it referred to before, except that a final method is never replaced; calls through base run the nearest ancestor's implementation, constructors (own or inherited) run once as written, and members of every ancestor exist once per object and keep their own values. The type test tells exactly the classes and interfaces an object descends from. Interfaces and classes that declare abstract methods cannot be instantiated, a method nobody implements cannot be called without a diagnosed error, and circular or unknown inheritance is rejected.",
 ["programs", "configurations"], "all class hierarchies up to the bound (depth, which class defines/overrides/abstracts which method, extends/implements) and all static/dynamic type pairs",
 "Dispatch depends on the whole hierarchy; tests use a few hand-written ones.",
 [BPO, REPO, OBJ, ANA, SCOPE, METH],
 [("inheritance set-up", REPO + " createUserObject / initTypeDeclaration"), ("lookup", SCOPE + " MethodScope::resolveMethod"), ("abstract/interface checks", ANA + " / " + BPO)],
 None, ["stdout", "acceptance/rejection"])

prop("C10", "A call binds to exactly the matching overload and parameters",
 "A call to an overloaded function, method, static method or constructor runs the one overload whose parameter list matches the argument types exactly (taking default values for omitted trailing parameters) and is rejected before anything runs if none matches; each parameter holds the corresponding argument. Built-in values are passed by value, so callees never change the caller's variable, while objects are shared with the caller: changes of the object are seen by the caller, assigning the parameter a new object is not.",
 ["programs", "inputs"], "all sets of overloads and calls up to the bound over the parameter types, defaults and passing modes",
 "Resolution is over all overload sets; tests use fixed pairs.",
 [METH, SCOPE, TI, OBJ],
 [("signature matching", METH + " Method::isSignatureValid / mergeParameters"), ("parameter initialisation", TI + " initialize")],
 None, ["stdout", "acceptance/rejection"])

prop("C11", "Generic types behave like their hand-written instances",
 "Instantiating a prototype (generic) class with concrete types behaves exactly like the same class written by hand with those types, for every permitted argument type, wherever the instance is first used and however many instances of the same or other prototypes the program contains. Instances with different type arguments are distinct types, and an instantiation with too many, unknown or unsuitable arguments is rejected.",
 ["programs", "configurations"], "all instantiations up to the bound over atomic, class and nested prototype arguments and member uses",
 "Tests instantiate few combinations; instantiation caching and substitution depend on which other instantiations exist.",
 [REPO, ANA, BPO, "Projects/Core/Core/Common/PrototypeConstraint.cpp", TG],
 [("instantiation", REPO + " createObject/initializeBlueprint with constraints"), ("constraint lookup", "Projects/Core/Core/Common/PrototypeConstraint.cpp")],
 None, ["stdout", "acceptance/rejection"])

prop("C12", "Names resolve to the innermost visible declaration; locals are isolated",
 "Every use of a name denotes the innermost declaration visible at that point: block-local before enclosing blocks, parameters, members, base members, then the enclosing namespaces from inside out; a name is not usable before its declaration or after its scope ended, nor unqualified outside its namespace. Every call has its own copy of its locals, so recursion and re-entrance never disturb the caller's variables.",
 ["programs", "histories"], "all placements of declarations of one name over blocks, parameters, members, namespaces and all use points; all recursion patterns up to the bound",
 "Shadowing bugs depend on the combination of scopes that declare the same name; tests use distinct names.",
 [SCOPE, TI, TG, THR, "Projects/Core/Core/VirtualMachine/StackFrame.cpp", ANA],
 [("lookup", SCOPE + " SymbolScope::resolve"), ("scope stack", "Projects/Core/Core/VirtualMachine/StackFrame.cpp pushScope/popScope"), ("static lookup", TG + " resolve / pushScope")],
 None, ["stdout", "acceptance/rejection"])

prop("C13", "Layout and comments never matter; literals denote their written value",
 "Replacing any gap between two tokens by any other non-empty mix of blanks, tabs, line ends and comments (and removing gaps between tokens that cannot merge) changes neither the acceptance nor the behaviour of a program. Every number, string and boolean literal evaluates to exactly the value its spelling denotes; in a string a backslash makes the following character literal.",
 ["inputs", "programs"], "all token boundaries of a set of programs covering the whole grammar x all gap fillers; all literals up to a length over the literal alphabets",
 "The number of token boundaries x fillers is large; tests are written in one style.",
 [TOK, "Projects/Core/Core/Designtime/Parser/Tokenizer.h", "Projects/Core/Core/Common/Token.cpp", "Projects/Core/Core/Common/Utils.cpp"],
 [("tokenizer", TOK + " Tokenizer::process/addToken/removeWhiteSpaces/replaceOperators")],
 None, ["stdout", "exit status"])

prop("C14", "No source text makes the interpreter crash or hang while reading it",
 "Whatever source text the interpreter is given, it either accepts it or reports a diagnosed error with a failing exit status: it never terminates abnormally, never touches memory it does not own, and never loops for ever while reading or checking the text. Text whose brackets do not balance is always reported.",
 ["inputs", "fault_sequences"], "every truncation and every single-token deletion, duplication, replacement and swap of a set of programs covering the grammar, and all token strings up to a bound",
 "Malformed inputs are unbounded; tests contain a few hand-picked syntax errors.",
 [TOK, SAN, PAR, ANA, TG],
 [("sanity check", SAN + " SanityChecker::process"), ("parser", PAR), ("tree generation", TG)],
 None, ["exit status", "run time"])

prop("C15", "Collections behave like the abstract sequence, stack, queue, set and map",
 "After any sequence of operations, each library collection (List, Vector, DoubleLinkedList, Stack, Queue, Set, Map, Pair, Range) has exactly the size, element order and membership of its mathematical counterpart (a map: each key inserted at most once; a queue's peek shows the newest element), and every query returns the corresponding value. Operations on missing elements or out-of-range positions raise an exception and leave the collection unchanged. A copy holds the same elements and shares no later change with the original.",
 ["histories"], "all operation sequences up to the depth bound over a small set of values and indices",
 "A collection's state depends on the whole operation history; tests run one scripted history each.",
 [COL + "List.os", COL + "Vector.os", COL + "DoubleLinkedList.os", COL + "Stack.os", COL + "Queue.os", COL + "Set.os", COL + "Map.os", COL + "Pair.os", COL + "Range.os", COL + "CollectionItem.os"],
 [("linked structures", COL + "List.os push/pop/insert/erase"), ("maps and sets", COL + "Map.os, " + COL + "Set.os")],
 [("mFirst/mLast/mSize", "linked list representation", COL + "List.os")], ["stdout"])

prop("C16", "Iteration visits every element exactly once, in order, and then ends",
 "For every collection content reachable by operations, foreach and the library iterators (forward, reverse, random access, string and character iterators) deliver exactly the current elements, each once, in the documented direction; hasNext is true exactly while elements remain and advancing past the end raises an exception. Several iterations over the same collection, nested or interleaved, do not disturb each other.",
 ["histories", "programs"], "all collection contents up to a size and all interleavings of iterator operations up to a depth",
 "Tests iterate once over one fixed collection.",
 [COL + "Iterator.os", COL + "DoubleLinkedIterator.os", COL + "RandomAccessIterator.os", LIB + "System/StringIterator.os", LIB + "System/CharacterIterator.os", TI],
 [("foreach", TI + " visitForeach"), ("iterators", COL + "Iterator.os")],
 None, ["stdout"])

prop("C17", "String operations return the exact substring, index or text",
 "For all strings and positions, the string type, the library String class and the string functions (length, concatenation, comparison, find, substring, pad, trim, case conversion, replace, remove, split, starts/ends-with, markers evaluated in strings, C string functions) return what their definition over character sequences gives, including empty strings and positions at both ends. A String's length and iteration always agree with its text. Positions outside the string give an error or the documented sentinel, never a crash or other memory.",
 ["inputs"], "all strings up to a length over a small alphabet x all argument strings/positions",
 "Off-by-one errors show at particular (length, position) pairs; tests use a few long strings.",
 [LIB + "System/String.os", "Projects/Extensions/System/Strings/Strings.cpp", "Projects/Extensions/LIBC/cstring/cstring.cpp", RBT + "StringType.cpp"],
 [("extension functions", "Projects/Extensions/System/Strings/*.h"), ("C string functions", "Projects/Extensions/LIBC/cstring/*.h"), ("String class", LIB + "System/String.os")],
 None, ["stdout", "exit status"])

prop("C18", "Semantic versions parse, print and order consistently everywhere",
 "Parsing a well-formed version and printing it returns the same text, text with fewer than three numbers is refused, and comparison of versions is a strict total order given by major, minor and patch number, then the rule that a labelled version precedes the unlabelled one, then label and build text. The version library and the package manager agree on this order.",
 ["inputs"], "all pairs of versions over small component, label and metadata domains",
 "Order axioms quantify over all pairs and triples; tests compare fixed pairs.",
 [LIB + "libSemVer/SemVer.os", "Projects/Utils/SemVer/Version.cpp"],
 [("library", LIB + "libSemVer/SemVer.os"), ("native", "Projects/Utils/SemVer/Version.cpp operator< / parse / toString")],
 None, ["stdout", "package manager decisions"])

prop("C19", "JSON values survive writing and reading unchanged",
 "Writing any JSON value built with the JSON library and reading the text back yields an equal value (same structure, member names, order, types and contents), and valid JSON text is read to the value it denotes. Text whose structure is not JSON (missing, superfluous or misplaced brackets, commas, colons, names, values or quotes, malformed numbers, content behind the value) is reported as an error instead of being read as some value.",
 ["inputs", "programs"], "all JSON values up to a depth/width over small scalars and names, and all single-token corruptions of their texts",
 "Round trips quantify over all value shapes; tests use a few documents.",
 [LIB + "libJson/Reader.os", LIB + "libJson/Writer.os", LIB + "libJson/Tokenizer.os", LIB + "libJson/Value.os", LIB + "libJson/Object.os", LIB + "libJson/Array.os"],
 [("reader", LIB + "libJson/Reader.os"), ("writer", LIB + "libJson/Writer.os"), ("tokenizer", LIB + "libJson/Tokenizer.os")],
 None, ["stdout"])

prop("C20", "Package operations leave exactly the requested modules installed",
 "An install command leaves the requested modules in the requested or else newest indexed version, plus every dependency that was not installed in a sufficient version (in its stated minimum or else newest indexed version), and changes nothing if any of these versions is forbidden by the restrictions; upgrade does the same for each outdated module, no module is replaced by an older version unless requested, removal deletes only the named modules and restrictions persist exactly as set. list, search and info report that state, an index that cannot be fetched keeps the old one, every command terminates, and nothing outside the library folder is modified.",
 ["histories", "configurations"], "all command sequences up to the depth bound over small repositories including diamond and cyclic dependencies",
 "The package manager has no tests at all; its result depends on the command history and the repository shape.",
 ["Projects/slang-pkg/Application/Application.cpp", "Projects/slang-pkg/Common/Repository.cpp", "Projects/slang-pkg/Common/Module.cpp", "Projects/Utils/SemVer/Version.cpp"],
 [("commands", "Projects/slang-pkg/Application/Application.cpp install/remove/purge/upgrade/processRestrictions"), ("repository state", "Projects/slang-pkg/Common/Repository.cpp")],
 [("installed modules", "module directories with module.json below the library folder", "library folder"), ("restrictions", "version limits per module", ".slang/config.json")], ["library folder contents", "stdout", "exit status"])

prop("C21", "Debugging shows the program's real execution without changing it",
 "Running a program in the debugger with any breakpoints and stepping commands produces the program's own output, result and order of effects unchanged. Execution stops exactly when control reaches an active breakpoint (or the next stop of a step command), in execution order, and never at a removed breakpoint; values shown at a stop are the program's values at that point.",
 ["histories", "programs"], "all sequences of debugger commands up to the bound over a set of programs",
 "The debugger has no automated tests; stop positions depend on the command history.",
 ["Projects/Core/Debugger/Debugger.cpp", "Projects/Core/Debugger/BreakPoint.cpp", "Projects/slang-dbg/LocalClient/LocalClient.cpp", TI],
 [("notification and stop decision", "Projects/Core/Debugger/Debugger.cpp notify/notifyEnter/notifyExit"), ("client", "Projects/slang-dbg/LocalClient/LocalClient.cpp")],
 [("breakpoints / next action", "what the debugger waits for", "Projects/Core/Debugger/Debugger.cpp")], ["slang-dbg output", "exit status"])

prop("C22", "File operations read back exactly what was written",
 "For any sequence of open (in every mode), read, write, seek, tell, eof, rewind, close and remove operations through the standard I/O functions and the library file class, file contents, positions, return values and end-of-file indications equal those of the C file model. Operations on files that do not exist or streams that are not open report failure instead of crashing.",
 ["histories"], "all operation sequences up to the depth bound on one and two files",
 "Return values and positions depend on the operation history; tests write and read one file once.",
 ["Projects/Extensions/LIBC/stdio/stdio.cpp", LIB + "System/IO/File.os"],
 [("stdio extension", "Projects/Extensions/LIBC/stdio/*.h"), ("file classes", LIB + "System/IO")],
 [("mFileHandles", "open streams by handle", "Projects/Extensions/LIBC/stdio/stdio.cpp")], ["stdout", "file contents"])

prop("C23", "Invocation contract: arguments, exit status, checks-only modes",
 "The program receives exactly the command line arguments given after the script, in order; the process exit status is the value returned from Main or passed to exit (modulo 256), a failing assertion or an uncaught exception gives a diagnosed failure status, and a program that cannot be read gives a failure status without running any of it. The syntax-check mode reports the same acceptance as a normal run and never executes the program.",
 ["inputs", "programs", "configurations"], "all argument lists up to a bound, all exit values, all ways to end a program at every nesting depth",
 "The command line entry point is not covered by the test suite.",
 [MAIN, "Projects/Core/Core/VirtualMachine/VirtualMachine.cpp", "Projects/Core/Core/Runtime/Script.cpp", TI],
 [("main", MAIN), ("exit", TI + " visitExit")],
 None, ["exit status", "stdout"])

prop("C24", "User-defined operators are called as written, with the right operands",
 "An operator applied to an object runs that class's own definition of the operator exactly once, on the left operand's object with the value of the right operand, and yields its result; compound assignment, comparison, equality, subscript and conversion operators obey the same rule. Applying an operator the class does not define is rejected.",
 ["programs"], "all subsets of defined operators x all operator uses, operand kinds and nestings within the bound",
 "Tests define a few operators and use them in one way.",
 [OO, TI, TG, TC, OBJ],
 [("operator lookup", OO + " operator_binary_*/operator_unary_*"), ("expression evaluation", TI + " evaluateBinaryExpression"), ("conversion operators", TC)],
 None, ["stdout", "acceptance/rejection"])

prop("C25", "Enumeration values are distinct, ordered and typed",
 "Each enumeration entry has its explicitly given value or one more than its predecessor's; entries convert to and compare as that value, variables of an enumeration type hold exactly the entry assigned and select the matching switch case, and values of a different enumeration or type are not assignable. Declarations with duplicate or descending values are rejected.",
 ["programs", "inputs"], "all declarations up to the bound (number of entries, explicit/implicit values) and all uses of their entries",
 "Tests declare a couple of fixed enums.",
 [ANA, BPO, REPO, RBT + "EnumerationType.cpp", TG],
 [("declaration", ANA + " createEnum"), ("values", RBT + "EnumerationType.cpp")],
 None, ["stdout", "acceptance/rejection"])

prop("C26", "References alias, atomic values copy, identity and null are exact",
 "Assigning or passing an object makes both names refer to the same object, so a change through one is seen through all others; assigning an atomic value copies it, so later changes are independent. Comparing references (of classes without an equality operator of their own) is true exactly for the same object, null compares equal only to null, and reading, writing or calling a member of a null reference ends in a diagnosed error without touching any other object.",
 ["histories", "programs"], "all sequences of declare/assign/copy/mutate/compare operations over several variables, members and parameters up to the bound",
 "Aliasing states multiply with every assignment; tests check single assignments.",
 [OBJ, REF, MEM, TI, OO],
 [("assignment", TI + " visitAssignment / assign; " + OBJ + " assignReference"), ("comparison", OO + " operator_binary_equal")],
 None, ["stdout", "exit status"])

prop("C27", "Static members and namespace variables exist once for the whole program",
 "A static member or namespace-level variable is initialised exactly once before its first use, and every access to it, through the class, a derived class, a method or a function, reads the last value written through any of them. Static methods act on that shared state only: using a non-static member in a static method or through the class name is rejected.",
 ["histories", "programs"], "all sequences of reads and writes through all access paths up to the bound",
 "Sharing shows only across access paths; tests use one path.",
 [TI, BPO, REPO, SCOPE, ANA],
 [("static storage", REPO + " / " + BPO + " language feature state"), ("type declaration", TI + " visitTypeDeclaration")],
 None, ["stdout"])

prop("C28", "Imports and namespaces assemble the same program from many files",
 "Splitting a program over files connected by import, with or without namespaces, gives the same behaviour as the program in one file, independent of the order of imports, diamond, repeated and circular imports; every file is processed once and a file next to the importing one wins over others of that name. Names of files that are not imported are unknown, and a needed file that is missing is a diagnosed error, never a hang. A name means the definition in the innermost enclosing namespace or exactly the one it is qualified with, never that of another namespace.",
 ["configurations", "programs"], "all import graphs up to the bound (files x edges, including diamonds and cycles) and all qualified/unqualified uses",
 "Tests import library files in fixed order; import graphs are not varied.",
 [ANA, PAR, "Projects/Core/Core/VirtualMachine/VirtualMachine.cpp", "Projects/Core/Core/Common/Namespace.cpp", SCOPE],
 [("import", ANA + " createLibraryReference / import"), ("library lookup", "Projects/Core/Core/VirtualMachine/VirtualMachine.cpp")],
 None, ["stdout", "exit status"])

prop("C29", "Mathematical functions return the values of the C library",
 "Every mathematical function offered to programs returns for every argument the value that the C library function of that name has, of the precision its name stands for, whatever form the argument has; absolute values and integer powers are exact. The rounding mode and the floating point exceptions that a program sets, raises, clears and queries behave as one state that only those operations change, and equal seeds give equal random sequences.",
 ["inputs", "histories"], "all functions x all argument tuples of a value grid x argument forms, and all sequences of floating point environment operations up to the bound",
 "Tests call a few functions at single points; swapped arguments, wrong precision or missing functions stay unnoticed.",
 ["Projects/Extensions/LIBC/math/math.cpp", "Projects/Extensions/LIBC/fenv", LIB + "System/Math/Functions.os"],
 [("registration of functions", "Projects/Extensions/LIBC/math/math.cpp"), ("integer powers", LIB + "System/Math/Functions.os")],
 None, ["stdout"])

prop("C30", "A tick of a behaviour tree reaches exactly the nodes it should",
 "A tick visits leaves in the order of the tree: a sequence goes on while its children succeed and a fallback while they fail, both resume at the child that was running or waiting while their reactive forms start over, and every node returns the status that follows from its children. Inverting and forcing decorators change only the final outcome of their child and pass on that it is running or waiting.",
 ["histories"], "all trees up to the shape bound x all outcomes of every visited leaf over several ticks",
 "The interesting behaviour (resuming after running children, nested resets) needs particular histories of outcomes over several ticks.",
 [LIB + "libBehaviourTree/Control.os", LIB + "libBehaviourTree/Decorator.os"],
 [("control nodes", LIB + "libBehaviourTree/Control.os"), ("decorators", LIB + "libBehaviourTree/Decorator.os")],
 [("position of the running child", "where the next tick resumes", LIB + "libBehaviourTree/Control.os")], ["stdout"])

prop("C31", "Program parameters are split, found and removed exactly",
 "The parameter library splits the arguments of a program into exactly the given parameters, in order, with prefix dashes removed, name and value separated at the first equal sign, and quotes and escapes resolved; program and directory name are those of the script. Lookup by name finds the first parameter of that name, lookup by index the one at that place, removal takes away exactly one matching parameter, and asking for a missing one is reported.",
 ["inputs", "histories"], "all lists of parameters over all written forms up to the bound and all sequences of queries and removals up to the bound",
 "Tests use one fixed argument list; combinations of quoting, prefixes, separators and repeated names are not varied.",
 [LIB + "libParam/ParameterHandler.os", MAIN],
 [("splitting", LIB + "libParam/ParameterHandler.os process"), ("arguments of the process", MAIN)],
 None, ["stdout"])

prop("C32", "CSV files are read as the table their text denotes",
 "Reading a file gives one row for each line, also for a last line without line end, and one cell for each text between separators, empty ones included; the number of rows, access by index, iteration, the header row and the search of a column agree with each other. Reading only the header gives only the first row, reading another file appends its rows, and a missing file is reported and changes nothing.",
 ["inputs", "histories"], "all texts over a small alphabet up to the length bound, all tables up to the size bound, all pairs of short files",
 "There is no automated test of the reader; empty cells, empty lines and missing line ends are typical gaps.",
 [LIB + "libCSVReader/CSVReader.os", LIB + "libCSVReader/Row.os", LIB + "System/StringIterator.os", LIB + "System/CharacterIterator.os"],
 [("splitting of lines", LIB + "libCSVReader/CSVReader.os parseString"), ("splitting of cells", LIB + "libCSVReader/CSVReader.os parseRow")],
 None, ["stdout"])

prop("C33", "Console, environment and reflection act on exactly the named target",
 "Text written to the standard output or error stream appears there unchanged and in order, a line end goes to the stream that was written last, reading a line returns the next non-blank line of the input without leading blanks and an empty text at its end, and reading a character returns the next one of the same input. Environment variables have the value they were inherited with or last given, a change without permission to overwrite keeps an existing value, invalid names are reported, and no other variable changes. Asking whether a type is known is true exactly for declared and built-in types by their full name, and creating an instance by name gives a new independent object with its default values, or a catchable error for unknown and abstract types.",
 ["histories", "inputs"], "all sequences of output and environment operations up to the bound, all input texts and inherited values over small alphabets, all combinations of kinds and places of declared types",
 "Tests neither feed input nor separate the output streams, and do not look at the environment or at types by name.",
 ["Projects/Extensions/System/Console", "Projects/Extensions/System/GetEnv.h", "Projects/Extensions/System/SetEnv.h", "Projects/Extensions/System/PutEnv.h", "Projects/Extensions/System/Reflection"],
 [("stream selection", "Projects/Extensions/System/Console/Endl.h"), ("instances by name", "Projects/Extensions/System/Reflection/CreateInstance.h")],
 None, ["stdout", "stderr"])

prop("C34", "A program that fails while running is stopped cleanly",
 "When an assertion fails, an integer is divided by zero, a missing object is used, an object is converted to a class it does not belong to or an exception is never caught, everything printed before stays printed, nothing that follows is executed, an error is reported and the program ends with its failure status; exit ends it just as directly with the requested status. This holds whatever calls, constructors, operators, loops, iterators and exception handlers are active and whatever objects are alive; the interpreter itself never crashes or aborts.",
 ["programs", "states"], "all stacks of enclosing constructs up to the bound x all kinds of failures x all shapes of live objects",
 "A crash while unwinding depends on the combination of active frames and live objects; tests only run programs that succeed or fail in Main.",
 [TI, MEM, "Projects/Core/Core/VirtualMachine/Threads.cpp", "Projects/Core/Core/VirtualMachine/Controller.cpp", "Projects/slang/main.cpp"],
 [("unwinding of scopes and frames", TI + " evaluateInScope / execute"), ("release of leftover objects", MEM + " deinit"), ("leftover frames", "Projects/Core/Core/VirtualMachine/Threads.cpp")],
 None, ["stdout", "exit status"])

prop("C35", "Code means the same wherever it is written",
 "A piece of code that uses only its own local variables, public parts of other types and free functions is accepted, prints the same lines and returns the same value in whatever function, method, constructor, operator or conversion it is written: static or not, public or not, overloaded or not, of whatever class of a hierarchy, generic class or namespace, and inside of whatever statement. Constant methods accept it as long as it modifies nothing they are forbidden to modify.",
 ["programs"], "all pieces of code and all ordered pairs of them x all kinds of places x all enclosing statements",
 "The rules for names, static, const and visibility look at the method the code is in; tests write each construct in one place only.",
 [TG, SCOPE, REPO],
 [("checks that depend on the enclosing method", TG + " process_method / resolve*"), ("name lookup", SCOPE + " resolve/resolveMethod")],
 None, ["acceptance/rejection", "stdout"])

prop("C36", "Log messages reach exactly their target, one line each, in order",
 "Every message given to a logger or to one of its children appears exactly once, as one line with its level, the joined key of the logger cut or padded to the requested length and its text, in the order of the calls, on the standard output or in the logger's file and nowhere else. Opening a file logger starts an empty file, opening an appending one keeps every line that the file already holds.",
 ["histories"], "all sequences of sessions, child loggers and messages up to the bound x targets, keys and key lengths",
 "Tests write a few messages and never read the file back.",
 ["Projects/Library/libLog/Logger.os", "Projects/Library/libLog/Context.os", "Projects/Library/libLog/FileLogger.os", "Projects/Library/libLog/StdOutLogger.os"],
 [("composition of the key", "Projects/Library/libLog/Logger.os"), ("writing to the target", "Projects/Library/libLog/Context.os")],
 None, ["content of the log file", "stdout"])

prop("C37", "JSON builders produce exactly the described document",
 "The text that a JSON builder returns after a well-formed sequence of calls is a valid JSON document with exactly the described arrays, objects, names and values in the described order; this holds for the compact, the indented and the static builder, for empty and nested containers, and for documents built one after the other.",
 ["inputs", "histories"], "all documents up to the bound on nodes and nesting x kinds of values x builders",
 "A misplaced separator depends on what precedes it; tests build a single document.",
 ["Projects/Library/libJsonBuilder/Builder.os", "Projects/Library/libJsonBuilder/StyledBuilder.os", "Projects/Library/libJsonBuilder/StructuredBuilder.os"],
 [("separators and nesting", "Projects/Library/libJsonBuilder/Builder.os"), ("indentation", "Projects/Library/libJsonBuilder/StyledBuilder.os")],
 None, ["stdout, parsed independently"])

prop("C38", "Times convert to text and back, child processes run and are waited for",
 "Formatting an instant gives the fields of its local time in the current time zone, and reading such a complete text back gives the same instant; sleeping lasts at least as long as requested. A forked process continues with its own copy of all variables and its output appears exactly once, waiting returns the process that ended and its status, waiting for a given process never returns another one, and waiting without such a process is reported.",
 ["inputs", "histories"], "instants x time zones x formats and all process trees over say, fork and wait up to the bound",
 "Tests run in one time zone and never start a process.",
 ["Projects/Extensions/System/Strings/StrFTime.h", "Projects/Extensions/System/Strings/StrPTime.h", "Projects/Extensions/System/Fork.h", "Projects/Extensions/System/Wait.h", "Projects/Extensions/System/WaitPID.h"],
 [("text to instant", "Projects/Extensions/System/Strings/StrPTime.h"), ("processes", "Projects/Extensions/System/Fork.h")],
 None, ["stdout", "exit status"])

prop("C39", "Descriptors and commands exchange exactly the bytes given",
 "Writing values and texts to a descriptor sends exactly their bytes, in order, and returns how many; reading returns the values and texts in the order their bytes arrive, reading a text stops at the requested length or the end of the stream, and a failing operation on a descriptor is reported and disturbs no other. Running a command returns exactly the text the command prints on its standard output, whatever its length and lines, with the environment of the program.",
 ["histories", "inputs"], "all sequences of write and read operations over all kinds of values up to the bound, all sequences of command pieces and all failing operations between good ones",
 "Tests open no descriptor and run no command.",
 ["Projects/Extensions/System/Network/Read.h", "Projects/Extensions/System/Network/Write.h", "Projects/Extensions/System/Network/Close.h", "Projects/Extensions/System/System.h"],
 [("reading values", "Projects/Extensions/System/Network/Read.h"), ("writing values", "Projects/Extensions/System/Network/Write.h"), ("running commands", "Projects/Extensions/System/System.h")],
 None, ["bytes on stdout", "stdout"])

prop("C40", "Marks of declarations restrict exactly what they say",
 "An abstract class cannot be instantiated, a final class cannot be extended, a constant class contains only constant members and methods and extends nothing, and a routine marked as not implemented cannot be called; nothing else is refused, and marks of maturity never change what a program computes. A class that replicates another has all of its members, methods, marks and ancestors, but is a type of its own that is neither the original nor derived from it. The type of an object is reported as the class it was created from, whatever the type of the variable, and classes may contain any number of nested types, also as prototypes and replicas.",
 ["programs"], "all chains of marked classes up to the bound in all places and orders, all replicas of their classes, all member selections of constant classes, all states of routines with all call sequences and all selections of nested types",
 "Tests use single marks on single classes; each combination of marks, ancestors, replicas and prototypes is a case of its own.",
 ["Projects/Core/Core/Designtime/BluePrintObject.cpp", "Projects/Core/Core/VirtualMachine/Repository.cpp", "Projects/Core/Core/Designtime/Analyser.cpp", "Projects/Core/Core/AST/TreeGenerator.cpp", "Projects/Core/Core/Object.cpp"],
 [("ancestors and replication", "Projects/Core/Core/Designtime/BluePrintObject.cpp"), ("creation of objects", "Projects/Core/Core/VirtualMachine/Repository.cpp"), ("calls of routines", "Projects/Core/Core/AST/TreeGenerator.cpp")],
 None, ["stdout", "exit status"])

with open(os.path.join(os.path.dirname(__file__), "..", "properties.jsonl"), "w") as f:
    for d in P: f.write(json.dumps(d) + "\n")
print(len(P))
