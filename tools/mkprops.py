#!/usr/bin/env python3
"""Writes properties.jsonl (kept as code so that the statements stay reviewable)."""
import json, os
FW = "src/easyMockFramework/src/"
FI = "src/easyMockFramework/include/"
G = "src/easyMockGenerate/src/"
CT = G + "CTemplateGenerator/CodeGeneratorCTemplate.cpp"
LP = G + "LLVMParser/LLVMParser.cpp"
P = []
def prop(id, title, statement, over, qtext, why, files, mech, observe, state=None):
    a = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech], "observe_at": observe, "hook_needed": None}
    if state: a["state"] = [{"name": n, "meaning": m, "where": w} for n, m, w in state]
    assert len(title) <= 80, title
    P.append({"id": id, "title": title, "statement": statement, "quantifier": {"over": over, "text": qtext},
              "why_tests_cant": why, "anchors": a})

prop("C01", "Mocked C functions replay their queued expectations in order",
 "After initialisation, the n-th call of a mocked C function returns exactly the value given to its n-th expectation, bit for bit, whatever was expected from or called on any other mocked function in between. A call that has no expectation left is reported as one unexpected-call error naming the function and consumes no other function's expectation. Up to 256 expectations per function can be made between two initialisations.",
 ["histories", "programs"], "every interleaving of expectations and calls over every set of mocked C functions of every parameter and return type",
 "The tests run one to three expectations on one function at a time with a handful of signatures; the guarantee quantifies over arbitrary interleaved histories over several functions and headers.",
 [FW + "MockedFunction.c", FI + "MockedFunction.h", CT],
 [("per-function queue of expectation records indexed by call number", FW + "MockedFunction.c: MockedFunction_addExpectedCall, MockedFunction_addActualCall, MockedFunction_getCurrentCallParam"),
  ("generated mock body and *_ExpectAndReturn", CT + ": fillDataStructureTemplate / mock body templates")],
 ["return value of the mocked function", "easyMock_getErrorArr"],
 [("expected/actual call counters", "how many expectations were queued and calls made since init", FI + "MockedFunction.h: MockedFunction")])

prop("C02", "The final check passes iff every expectation was met and no error reported",
 "easyMock_check returns 1 exactly when every mocked function of every generated header linked in was called exactly as often as it was expected since the last initialisation and no error was reported since then, and returns 0 otherwise. Every function whose count differs gets one error that names it with the expected and the actual number of calls, and no other function gets one.",
 ["histories"], "every history of expectations, calls and checks over every set of mocked functions, including histories with several failing functions",
 "The tests exercise a single function with at most one missing or extra call; a verdict that forgets one function among several, or one error kind, is invisible to them.",
 [FW + "easyMock.cpp", FW + "MockedFunction.c", CT],
 [("verification of every registered generated file", FW + "easyMock.cpp: verifyEasyMock, verifyRegisteredMockedFile"),
  ("verification of every function of one generated file", CT + ": easyMock_verifyAllMocksInThisHeader"),
  ("count comparison", FW + "MockedFunction.c: MockedFunction_verify")],
 ["easyMock_check", "easyMock_getErrorArr"])

prop("C03", "Each call's arguments are checked against its own expectation's matchers",
 "For every call of a mocked C function that has an expectation, each parameter whose matcher was given is passed to that matcher exactly once, in declaration order, with the value of this call, the value of this expectation and the parameter's name; parameters whose matcher is null are not compared. One error naming the function, the number of the call and the matcher's message is reported for every matcher that returns non-zero, and none otherwise; a mismatch changes neither the returned value nor the output data.",
 ["histories", "inputs"], "every signature, every choice of matchers (built-in, user-written, null) per parameter and expectation, all argument values, every call index",
 "The tests use one function with one wrong argument and the same matcher on every expectation; they do not mix matchers between expectations or run user matchers that observe what they are given.",
 [CT, FW + "easyMock.cpp", FW + "easyMock_matcher.cpp"],
 [("matcher invocation in the generated body", CT + ": parameter comparison section of the mock template"),
  ("storage of expected values and matchers per expectation", CT + ": ExpectReturnAndOutput_common template")],
 ["arguments seen by a user-written matcher", "easyMock_getErrorArr"])

prop("C04", "Call-order checking reports exactly the calls made out of order",
 "When call-order checking is on (the documented default, switchable at any time), the k-th expected-for call overall must be to the function of the k-th expectation overall: a call to a different function yields one error naming the called and the expected function, still returns its configured value and leaves output parameters untouched, and calls in order yield none. When it is off no order error is ever reported. Unexpected calls do not shift the order.",
 ["histories", "configurations"], "every interleaving of expectations and calls over several functions and headers, with the switch toggled anywhere",
 "No existing test enables or disables call-order checking, and each mocks a single function.",
 [FW + "easyMock.cpp", CT],
 [("global queue of expected function names", FW + "easyMock.cpp: addCall, popCurrentCall, checkCallsOrder"),
  ("comparison in the generated body", CT + ": checkCallsOrder section of the mock template")],
 ["easyMock_getErrorArr", "easyMock_check", "return value and output parameters"],
 [("FIFO of expected calls", "names of the expected functions in the order of the expectations", FW + "easyMock.cpp: m_fifoCall")])

prop("C05", "Output parameters receive exactly the data configured for that call",
 "A call whose expectation was made with output data writes, through each pointer argument for which data was given, exactly the bytes configured (the pointed-to type's size, or the explicit size for untyped and incomplete pointees) and not one byte more, and writes nothing through any other pointer or when no output data was given. Null output data writes nothing. The configured data belongs to that expectation only.",
 ["histories", "inputs", "programs"], "every pointer parameter type (scalars, structs, pointers, void, forward-declared types), every size and every mix of both expectation kinds in one history",
 "The tests check one output parameter per function with one or two calls and never look at the bytes around the target.",
 [CT], [("copy of the output data in the generated body", CT + ": output pointer sections of the mock and *_ExpectReturnAndOutput templates")],
 ["memory around the pointed-to object before and after the call"])

prop("C06", "Initialisation isolates test cases completely",
 "After easyMock_init, everything observable (returned values, output data, errors, order checking, verdict) is the same as in a fresh process with the same switches, whatever happened before: unconsumed expectations, excess calls, errors, failed checks, retrieved error strings. The switches for call-order checking and call stacks are not changed by initialisation.",
 ["histories"], "every pair of histories A;init;B compared with B in a fresh process, over several mocked headers",
 "Each test case calls init at its start from an almost clean state; residues that need particular leftovers (several functions, partially consumed queues, full queues) are never produced.",
 [FW + "easyMock.cpp", FW + "MockedFunction.c", CT],
 [("reset of registered mocks, order queue and errors", FW + "easyMock.cpp: init"), ("reset of one function", FW + "MockedFunction.c: MockedFunction_reset"), ("reset of every function of a generated file", CT + ": easyMock_resetAllMocksInThisHeader")],
 ["all observables after easyMock_init"])

prop("C07", "Errors are retrievable completely, in order and unaltered",
 "The error array holds every error reported since initialisation, in report order and complete whatever the length of function names, parameter names and values around the message, its size equals the number of errors and it is null-terminated; the error string is the same errors each followed by the line separator; both are null when there is none. Retrieving them, any number of times, changes nothing, and a matcher's message is never longer than the documented maximum. With call stacks on, each message starts with the same text as with call stacks off, and the verdict and mocked behaviour are the same.",
 ["histories", "inputs"], "every history with zero to many errors, every retrieval pattern, names and messages from one to thousands of characters",
 "The tests read one or two short errors once, right after producing them.",
 [FW + "easyMock.cpp", FW + "cstring.c", FI + "easyMock.h"],
 [("error list and its two views", FW + "easyMock.cpp: addError, getErrorStr, getErrorArr"), ("formatting without a length limit", FW + "easyMock.cpp: easyMock_addError"), ("growing string", FW + "cstring.c")],
 ["easyMock_getErrorStr", "easyMock_getErrorArr", "easyMock_check"])

prop("C08", "Built-in matchers report a difference iff the two values differ",
 "Each built-in matcher returns 0 exactly when the two values of its type compare equal with the C operator == (for strings: have the same characters), for all pairs of values, and its pointer-dereferencing variant does so for the pointed-to values. On a difference it writes a null-terminated message of at most the documented maximum that gives the parameter's name and, when they fit and are printable, both values in the right order; on equality it leaves the message untouched. It never reads beyond the operands or writes beyond the message buffer.",
 ["inputs"], "all pairs of values of all 16 supported C types incl. boundary values, NaN, signed zero, 128-bit values differing in one half; strings and names of any length",
 "The tests compare one equal and one different pair per type.",
 [FW + "easyMock_matcher.cpp", FI + "easyMock.h"],
 [("matcher implementations", FW + "easyMock_matcher.cpp: IMPLEMENT_MATCHER, cmp_str, cmp_int128, cmp_uint128")],
 ["return value and message buffer of cmp_*"])

prop("C09", "Generated struct/union comparators decide field-wise equality",
 "For every struct or union whose comparator is requested, the generated comparator returns 0 exactly when all named fields, bit-fields, array elements and (recursively) embedded struct or union members compare equal, with pointer fields compared by address; padding never matters. A reported difference names a field that does differ, and the dereferencing comparator gives the same answer for the pointed-to objects. A comparator exists for every requested type used by a mocked function.",
 ["programs", "inputs"], "every composition of scalar, enum, pointer, array, bit-field, nested and anonymous members, and every pair of objects that differ in any single field or in none",
 "The tests compare a few hand-written structs with one chosen difference each.",
 [CT], [("generated comparators", CT + ": generateBodyStructCompare / generateFieldCmp"), ("selection of compared types", CT + ": m_generateComparator handling")],
 ["return value and message of cmp_struct_*, cmp_union_* and cmp_deref_ptr_*"])

prop("C10", "The mock of any valid C header compiles, links and has the original signatures",
 "For every C header the compiler accepts, the generated mock compiles without errors, links with the framework, defines every mocked function with a type identical to its declaration in the header, and offers for each a configuration function that takes all parameters, the return value if any and one matcher per parameter, plus the output variant when a parameter is a pointer to non-const data.",
 ["programs"], "every combination of builtin types, qualifiers, pointers, arrays, enums, structs, unions, typedefs, function pointers, variadic and unnamed parameters, comments and macros in a header",
 "The tests have about a hundred fixed headers with one construct each; combinations are not covered.",
 [LP, CT, G + "Function.cpp", G + "TypeItf.cpp", G + "FunctionDeclaration.cpp", G + "FunctionType.cpp"],
 [("type reconstruction from the AST", LP + ": getEasyMockTypeFromClangType and get*Type"), ("declaration printing", G + "TypeItf.cpp, Pointer.cpp, FunctionDeclaration.cpp: getDeclarationPrefix, getFullDeclarationName"), ("templates", CT)],
 ["compiler diagnostics on the generated mock next to the original header", "behaviour of the linked mock"])

prop("C11", "Type-generating mode yields self-contained, ABI-identical declarations",
 "With --generate-types the generated header compiles without the original header, and every type reachable from a mocked function has the same size, alignment, member names, member offsets, member types, bit-field widths and enumerator values, and every mocked function the same type, as in the original header. Every macro defined by the header expands as it did at the end of the original header.",
 ["programs"], "every acyclic and recursive composition of structs, unions, enums, typedefs, arrays, bit-fields, pointers, function pointers, forward declarations, and macros",
 "The tests compile a few dozen small headers in this mode and never compare layouts, enumerator values or macro values.",
 [CT, LP, G + "MacroDefinition.cpp", G + "Enum.cpp", G + "ComposableType.cpp", G + "ComposableBitfield.cpp"],
 [("printing of used types in dependency order", CT + ": generateAllTypes, generateComposedTypedTypeFullDefinition, generateEnum"), ("macro capture", LP + ": MacroBrowser, ElementToMockContext::addMacroDefine")],
 ["sizeof, offsetof, types and values evaluated against the original and the generated header"])

prop("C12", "Exactly the selected functions are mocked",
 "The functions mocked are exactly those declared in the input header itself (plus those of included headers when asked), minus inline, static, bodied and non-returning ones that the mode cannot mock, minus the ignored ones and those whose name is also a macro at the end of the header, and only the named ones when a mock-only list is given; each is mocked once however often it is declared and in any mode. Every other declaration leaves no mock behind.",
 ["programs", "configurations"], "every header set with duplicates, includes, inline/static/extern/noreturn/bodied functions, and every combination of selection options",
 "Each selection option has one test with one two-function header; combinations and repeated declarations are not covered.",
 [LP, CT, G + "CmdLineParser/CmdLineParser.cpp", G + "ElementToMockContext.cpp"],
 [("filtering while visiting declarations", LP + ": FunctionDeclASTVisitor::VisitFunctionDecl"), ("filtering while generating", CT + ": generateCode, m_mockOnlyList")],
 ["symbols defined by the compiled mock", "generated header"])

prop("C13", "Command line options are interpreted as documented, in any order",
 "For every argument vector, options are recognised in any order and any number, repeated list options accumulate, relative input and output paths are resolved against the --cwd directory wherever it stands, -h shows the help, and every argument that is not an option of the tool reaches the parser unchanged and in order. A missing or unusable mandatory value yields the corresponding error and never a crash or an out-of-bounds access.",
 ["inputs", "configurations"], "every sequence of known options, values, unknown options, empty strings and missing values",
 "The tests parse about forty fixed vectors, each mostly with one option.",
 [G + "CmdLineParser/CmdLineParser.cpp", G + "main.cpp"],
 [("option loop", G + "CmdLineParser/CmdLineParser.cpp: CmdLineParser::parseArgs")],
 ["options and status returned by the parser", "behaviour of the program"])

prop("C14", "The generator never crashes and its exit status tells the truth",
 "On every input file and option combination the generator terminates normally: it exits 0 only when it has written the complete mock files, and otherwise exits non-zero with a message. A header with errors fails unless --ignore-parser-error is given, in which case the functions that could be parsed are still mocked; a header that the compiler accepts succeeds.",
 ["inputs", "fault_sequences", "configurations"], "valid, mutated, truncated and garbage headers, missing, unreadable and unwritable paths, full devices, all option combinations",
 "The tests only feed well-formed headers and writable directories, plus one ignored parser error.",
 [G + "main.cpp", G + "MainCodeGenerator.cpp", LP, CT, G + "CmdLineParser/CmdLineParser.cpp"],
 [("status propagation", G + "main.cpp: main; MainCodeGenerator.cpp: generateCode; CodeGeneratorItf.cpp: generateCode")],
 ["exit status, standard error, files written"])

prop("C15", "Generation is deterministic and independent of the environment",
 "The content of the generated files depends only on the header's name and location, what it includes, and the options: repeating the run, running from another directory, writing to another directory, through relative or absolute or symbolic paths, over existing or longer old output, and the order of independent options give byte-identical files. Only the two documented files are written.",
 ["configurations", "inputs"], "every header and option set, every pair of equivalent invocations",
 "Every test generates once, in one directory, into a clean location.",
 [CT, G + "CodeGeneratorItf.cpp", G + "CmdLineParser/CmdLineParser.cpp", LP],
 [("output file names and content", CT + ": generateCode, generateCodeToFile")],
 ["bytes and names of the generated files"])

prop("C16", "C++ mocks replay expectations and check arguments and instances",
 "For every C++ header of free functions, namespaced functions and public non-static member functions, over value, pointer and reference parameters (arithmetic types, enums, structs, classes, unions and standard library types that can be copied), the mock generated with --mock-cpp compiles. The n-th expected call of a function returns the value (for a reference: the object) of its n-th expectation and sets the objects its pointer parameters point to, when outputs were given, and reports an error for each matcher that finds a difference and one for a call on another object than the named instance (none when no instance was named); every unexpected call, every number of calls that differs from the expected one and every call out of the expected order when the order is checked is reported, and nothing else. Functions of the same name in different namespaces, classes or overloads are mocked independently.",
 ["programs", "histories"], "every nesting of namespaces and classes, const and reference qualifiers, overloads, and every history of expectations and calls on several instances",
 "The tests cover seven C++ headers with one function each and one or two calls.",
 [LP, CT, FI + "easyMock.h", FI + "MockedFunction.h", G + "Namespace.cpp", G + "ClassType.cpp", G + "Reference.cpp", G + "Function.cpp"],
 [("C++ expectation queue", FI + "MockedFunction.h: MockedCppFunction"), ("C++ templates", CT), ("namespace and class context", LP + ": getNamespace, parent data")],
 ["returned values, reported errors, compiler diagnostics"])

prop("C17", "Attribute and field-suppression options change exactly what they name",
 "With --generate-attribute every mocked function that declares a listed attribute re-declares it with the same arguments and no other attribute appears; with --ignore-field-generation-of the listed struct and union types, and only those, have no members in the generated types, while the mock still compiles and works through pointers to them. Without these options neither happens.",
 ["programs", "configurations"], "every set of attributes with parameters on functions, every set of listed types, every other option",
 "One header and one attribute, and one ignored type, are tested.",
 [LP, CT, G + "FunctionAttribute.cpp", G + "CmdLineParser/CmdLineParser.cpp"],
 [("attribute capture", LP + ": VisitFunctionDecl attribute loop"), ("field suppression", LP + ": getFromRecordType / ignore list")],
 ["compiler diagnostics caused by the attribute", "generated header"])

prop("C18", "Several generated mocks in one process register, act and unregister cleanly",
 "Mocks generated from different headers, linked together or loaded and unloaded at run time in any order, all take part in initialisation and in the verdict exactly while they are present, are independent of each other, and share call-order checking. Unloading one, with expectations pending, leaks and corrupts nothing and removes exactly its functions from later verdicts.",
 ["histories", "programs"], "every sequence of load, unload, expect, call, init and check over several generated libraries",
 "One test links two mocks once; none unloads a mock.",
 [FW + "easyMock.cpp", CT], [("registration by constructor and destructor of each generated file", CT + ": easyMock_register_this_header, easyMock_unregister_this_header"), ("registry", FW + "easyMock.cpp: registerMock, unregisterMock")],
 ["easyMock_check, error messages, memory checker"])

prop("C19", "Type and function descriptions obey the laws of equality and hashing",
 "For all type and function descriptions: equality is reflexive and symmetric and insensitive to how the object was built (names of parameters do not matter); a moved-to object equals the original; equal descriptions have equal hashes; the cached hash equals a recomputed one; and descriptions that differ in any other name, type, qualifier, size, value, flag or order are not equal and, as the containers of the generator compare hashes only, have different hashes (a class's hash only covers the names of its methods, whose signatures may refer to the class; classes with methods inside the signature of a method are told apart by those names only). The raw hash of a type is that of any typedef of it, however deep, and functions have equal raw hashes when they agree in name, variadicity and parameter and return types up to such typedefs, whatever their other attributes.",
 ["inputs"], "all finite compositions of builtin types, pointers, const, typedefs, structs, unions, enums, bit-fields, arrays and functions",
 "The tests check these laws on about a hundred fixed descriptions and single-field variations.",
 [G + "TypeItf.cpp", G + "ComposableType.cpp", G + "ComposableField.cpp", G + "ComposableBitfield.cpp", G + "Pointer.cpp", G + "TypedefType.cpp", G + "QualifiedType.cpp", G + "Function.cpp", G + "Parameter.cpp", G + "ReturnValue.cpp", G + "Enum.cpp", G + "IncompleteType.cpp"],
 [("equality, hash and raw hash of each class", G + "*.cpp: isEqual, operator==, getHash, getRawHash, cacheHash")],
 ["operator==, operator!=, getHash, getRawHash, move construction and assignment"])

prop("C20", "The framework's string type behaves like an unbounded string",
 "Every sequence of creating, appending, comparing, copying by value into another variable (a move) and freeing the framework's strings, including automatic freeing at the end of a scope, gives the same content, length and comparison results as a reference string, whatever the lengths, across the switch from inline to heap storage; it never leaks, double-frees or overflows.",
 ["histories", "inputs"], "every operation sequence over several strings with lengths from 0 to many times the inline capacity",
 "Eight fixed sequences are tested.",
 [FW + "cstring.c", FI + "cstring.h"], [("inline buffer with heap fallback", FW + "cstring.c")],
 ["cstring_* API"])
out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl")
with open(out, "w") as f:
    for p in P: f.write(json.dumps(p) + "\n")
print(len(P))
