TODO = "Not decided yet: the analysis for it is not finished."

P("C01", "Binary packing and unpacking of every supported type agree on the wire",
  "For every supported type and every value of it, unpacking consumes exactly the sequence of items, in the same order and with the same widths, that packing that value produced, in both the native and the machine-independent buffer. Counts that precede variable-length data equal the number of elements that follow, and every value read back is stored in the target. Reading into a constant target consumes the same bytes as reading into a mutable one.",
  ["inputs", "programs", "configurations"],
  "All values of every built-in, library-supported and descriptor-generated type; every language standard (98/11/17/20) and with or without machine-independent encoding.",
  "Tests pack a few sample values of a few types; a type whose two directions disagree only for empty, null, constant, nested or wide-character cases, or only in one build configuration, stays unseen and silently shifts all later data.",
  ["pack_base.h", "pack_stl.h", "pack_stream.h", "pack_graph.h", "object.h", "polyPackBase.h", "classdesc.cc"],
  [("pack/unpack overloads and access_pack/access_unpack specialisations", "pack_base.h, pack_stl.h"), ("generated descriptors", "classdesc.cc")],
  ["bytes moved through pack_t"],
  technique="path-sensitive wire-event automata over LLVM IR, language equality",
  note="Sound for the order, number, width and signedness of items on all normal paths of the enumerated type instantiations; trusts clang's lowering, the standard containers, and that user-written virtual pack/unpack pairs match.")

P("C02", "Unpacking replaces whatever the target held before",
  "After unpacking into an existing object, the object equals the packed one whatever it held before: containers lose their previous elements, and a pointer that was packed as null is null afterwards.",
  ["inputs", "histories"], "Every prior state of the target, every supported container and pointer type.",
  "Tests unpack into freshly constructed objects, where stale contents cannot show.",
  ["pack_base.h", "pack_stl.h", "pack_graph.h", "object.h", "polyPackBase.h", "xml_unpack_base.h", "json_pack_base.h"],
  [("clear/resize/reset before insertion", "pack_base.h, pack_stl.h, pack_graph.h, xml_unpack_base.h")], ["target object after unpack"],
  technique="must-dataflow (emptied before inserted, emptied on every exit) over LLVM IR of every unpack instantiation",
  note="Sound for the enumerated instantiations under the standard containers' contracts; objects whose members are written field by field are covered through those members' own instantiations.")

P("C03", "Unpacking never reads outside the data the buffer holds",
  "No sequence of bytes presented for unpacking, including truncated data and hostile length fields, makes the library read outside the bytes the buffer holds or write outside the target object: it stores a value or raises an error.",
  ["inputs"], "All byte strings, all unpacking entry points of the native buffer, all target types.",
  "Out-of-bounds access needs particular length values (near the top of the size range, or one past the end) that no round-trip test produces.",
  ["pack_base.h", "xdr_pack.cc", "pack_stl.h", "pack_graph.h", "object.h", "poly.h"],
  [("bounds tests before copying out of the buffer", "xdr_pack.cc"), ("length validation", "pack_stl.h")], ["memory accesses of unpack"],
  technique="wrap-aware linear bounds facts from path conditions over LLVM IR; taint of values read from the buffer used as positions; iterator typestate; null-check dominance",
  note="Sound for the copies, extents and positions in the enumerated entry points; trusts libtirpc's memory streams to respect their extent, the standard containers, and descriptor-supplied array extents. Memory exhaustion from large but consistent lengths is an error, not an access.")

P("C04", "Buffer positions and storage failures are reported faithfully",
  "After every pack or unpack operation the reported size and read position account for exactly the bytes moved, and no byte is stored beyond the storage obtained. When storage cannot be grown, a file cannot be opened, or a read or write comes up short, the operation raises an error instead of continuing.",
  ["inputs", "histories", "fault_sequences"], "Every sequence of pack/unpack/seek/reset operations on memory and file buffers, every allocation or I/O failure.",
  "Tests never fail an allocation or a write, and only observe the buffer through a matching unpack.",
  ["pack_base.h", "xdr_pack.cc"], [("realloc/fread/fwrite/fopen result tests", "xdr_pack.cc"), ("m_size/m_pos updates", "xdr_pack.cc")],
  ["size(), pos(), exceptions"], technique="path-sensitive dataflow in a linear value domain over the buffer's fields, with typestate of the XDR streams and must-test rules for results of allocation and I/O, over LLVM IR of every buffer method",
  note="Sound for the methods of pack_t, pack_t's subclasses in pack_base.h and xdr_pack under the model of malloc/stdio/libtirpc; trusts the kernel and libtirpc's stream bookkeeping. File positions beyond what stdio reports are not modelled.")

P("C05", "The machine-independent encoding preserves every scalar type's width and sign",
  "In the machine-independent encoding every scalar type is written and read with an encoding wide enough to hold all its values and of the same signedness, the same one in both directions; a value the encoding cannot hold, and any encoding failure, is reported as an error.",
  ["inputs", "configurations"], "All values of all scalar types that can be packed.",
  "Tests use small positive sample values, which survive a narrowing or sign-changing encoding.",
  ["pack_base.h", "xdr_pack.cc"], [("per-type XDR filter table", "pack_base.h"), ("xdr_pack::append/popoff", "xdr_pack.cc")], ["bytes of xdr_pack"],
  technique="width and signedness dataflow over LLVM IR of every XDR filter specialisation and of the per-type dispatch, compared with the scalar's declared type; must-test of the filter's result",
  note="Sound for the scalar types that have an XDR filter in the HAVE_LONGLONG and default configurations; the capacity of each libtirpc primitive is a table of its documented ranges. Wide-character strings are raw by design and excluded.")

P("C06", "Swapping or moving a buffer exchanges all of its state",
  "Swapping two serialisation buffers, or moving one, exchanges every part of their state: afterwards each behaves exactly as the other did before, and storage or file handles are owned and released exactly once.",
  ["histories", "configurations"], "All buffer kinds and states, all following operations.",
  "A forgotten member only shows in later operations that depend on it.",
  ["pack_base.h", "xdr_pack.cc", "classdescMP.h"], [("swap members, move constructors, destructors", "pack_base.h")], ["behaviour after swap/move"], technique="dataflow of the buffer's scalars (offsets from the compiler's record layout) through swap, move and destruction over LLVM IR; release counting against the states constructors leave",
  note="Sound for pack_t, xdr_pack and MPIbuf in the enumerated configurations, assuming standard containers swap and move as specified. Slicing moves through a base reference are outside the statement.")

P("C07", "Cyclic and deep graphs serialise once each, and no state leaks between calls",
  "In graph mode, packing a pointer graph writes every reachable node exactly once per call and terminates on cycles, with recursion limited by the documented bound however deep the graph is, and unpacking restores the same structure. Each serialisation call starts from a clean state, even when an earlier call on any buffer ended with an exception.",
  ["inputs", "histories", "fault_sequences"], "All pointer graphs, all sequences of calls, failures at any node.",
  "Tests use small graphs and never fail in the middle of one; leaked bookkeeping corrupts only the next call.",
  ["pack_graph.h"], [("GraphLevel, pack_graph, unpack_graph", "pack_graph.h")], ["packed bytes, restored graph"], technique="path-sensitive dataflow including exceptional edges over the graph functions' bookkeeping (depth, table, deferred list), with an inductive assumption on recursive calls",
  note="nodes held through raw pointers; tree mode recursion depth is not bounded by the library")

P("C08", "XML output is well formed for every string value",
  "Every character of every string, character, key or enumerator written to XML is either written unchanged where it is legal or as an entity the reader maps back to the same character; markup characters never reach the output unescaped. Every string is written, and read back, whole, empty strings included.",
  ["inputs"], "All strings over all byte values.",
  "Tests write a few plain strings.",
  ["xml_pack_base.h", "xml_unpack_base.h", "xml_common.h"], [("entity tables and quoting", "xml_pack_base.h, xml_unpack_base.h")], ["XML text"], technique="path-sensitive dataflow over characters and texts on LLVM IR: quote table composed with the reader extracted as a transducer; taint of text reaching the stream",
  note="Element names are taken to be C++ identifiers; locale C.")

P("C09", "Reading any XML text terminates and reports malformed input",
  "For every input text, well formed or not, the XML reader terminates; text that ends inside a tag, comment, entity or element, and mismatched tags, are reported as errors and not silently accepted.",
  ["inputs"], "All byte strings as XML input.",
  "Tests feed only well formed documents.",
  ["xml_unpack_base.h"], [("tokenizer loops and end-of-file tests", "xml_unpack_base.h")], ["XML reader behaviour"], technique="dataflow over characters and tokens on LLVM IR: loop progress, end-of-input and end-tag obligations",
  note="every way round every loop of the XML tokeniser and element reader takes a character or non-empty token; every way meeting the end of the input inside a construct throws; elements are left only past a compared end tag")

P("C10", "XML output is balanced on every path",
  "Whatever object is written and even when writing a member raises an error, every opened XML element is closed exactly once, in nesting order.",
  ["inputs", "fault_sequences"], "All objects, failures at any member.",
  "Tests write complete, non-failing objects.",
  ["xml_pack_base.h", "xml_pack_epilogue.h"], [("tag guard object", "xml_pack_base.h")], ["XML text"], technique="path-sensitive dataflow, over exceptional ways too, of the texts each writer appends to its stream (LLVM IR, guard objects inlined), parsed for balanced elements",
  note="Memory exhaustion and streams that raise exceptions are outside; user supplied writers are taken to be balanced themselves.")

P("C11", "XML writer, reader and schema generator agree on element names",
  "For every type, the XML writer, the XML reader and the schema generator use the same element name for every member, container element, map key and value, so everything written is found again when read and the schema describes it.",
  ["programs", "inputs"], "All supported and descriptor-generated types.",
  "Missing elements are silently skipped by the reader, so a mismatch only shows for the types tests happen to round-trip.",
  ["xml_pack_base.h", "xml_unpack_base.h", "xsd_generate_base.h"], [("element name literals", "xml_pack_base.h, xml_unpack_base.h, xsd_generate_base.h")], ["XML text and schema"], na='element names are strings assembled at run time from descriptor names and demangled type names in three separately generated descriptor families; deciding their equality for all types is not in reach of the string domain built here, and arrays, tuples and the schema are known to differ by design')

P("C12", "Generated descriptors cover exactly the describable members, once, in order",
  "For every class definition the processor accepts, each generated descriptor visits every base class and every describable data member exactly once, in declaration order, each under its own name and as itself, and nothing that is not a member (names in function bodies, initialisers, friends, comments, strings or nested types). Constant static members are flagged as such. When private access is to be respected private and protected bases and members are left out, otherwise they are described too.",
  ["programs", "configurations"], "All class definitions, all descriptor options. Anonymous unions, bit-fields and pointers to functions cannot be described and are left out.",
  "Tests contain a fixed set of class definitions; a member that is silently left out, or a name that is taken for a member, only shows for classes written in just that way.",
  ["classdesc.cc", "tokeninput.h"], [("class parser and action emission", "classdesc.cc"), ("tokens, delimiters and template arguments", "tokeninput.h")], ["generated descriptor code"], technique="the descriptors the processor emits for every pair of 81 forms of member declaration are compiled to LLVM IR; the sequence of (name, byte offset or static object) each descriptor visits is compared with the compiler's own record layout",
  note="Bounded to the enumerated forms, their pairs (triples when thorough), class heads and constructor forms, in C++17. Bit-fields, anonymous unions, function pointers, raw string literals, nested classes of class templates, classes local to a function and definitions inside macros are outside.")

P("C13", "Function-object calls bind every argument to the right parameter",
  "For every supported arity the generated call wrappers pass all arguments, each exactly once and in order, to the wrapped function, and report the matching arity and argument types.",
  ["programs"], "All arities and signatures supported.",
  "Tests call a few small arities.",
  ["functiondb.sh", "functiondb.h", "function.h"], [("arity tables", "functiondb.sh")], ["arguments received by the function"], technique="compile-time traits read as constants and operand dataflow over every call wrapper (LLVM IR, one distinct type per argument), for 0 to 20 arguments and both implementations",
  note="Both the checked-in functiondb headers and those functiondb.sh would regenerate are analysed; arity up to 20.")

P("C14", "The source processors end on every input",
  "For every input file, including truncated or malformed ones, and every command line, the source processors terminate and never write outside their fixed buffers; an unknown option, a file that cannot be opened and an input that cannot be repositioned end in a failure status.",
  ["inputs"], "All byte strings as input.",
  "Tests feed valid headers.",
  ["classdesc.cc", "tokeninput.h", "insert-friend.cc"], [("end-of-file handling in token loops", "tokeninput.h, classdesc.cc, insert-friend.cc")], ["termination, exit status"], technique="ranking of every loop and recursion over LLVM IR: least fixpoint of functions that must take input, counters, iterators and positions towards tested ends with character-set facts; must-test and failure-status rules for opens and repositioning",
  note="Input that ends in the middle of a class is not diagnosed by the tools and not part of the property.")

P("C15", "The friend inserter preserves the source it rewrites",
  "The friend-inserting filter outputs every token and character of its input unchanged and in order, only adding lines of friend declarations (and their CLASSDESC_FDEF companion after a class template) between tokens of class definitions.",
  ["inputs"], "All C++ source texts.",
  "Tests run it on one small file.",
  ["insert-friend.cc", "tokeninput.h"], [("echo of consumed characters", "tokeninput.h")], ["filter output"], technique="path-sensitive dataflow over the reader of insert-friend (LLVM IR): characters taken, written, put back and pending; control dependence of everything else it prints",
  note="Covers insert-friend, not the fix-privates shell script around it.")

P("C16", "Message buffers deliver what was sent to the intended process",
  "Every send, broadcast, gather and scatter of message buffers uses matching tags, sources, sizes and displacements on both ends, and the receiver sees exactly the sender's packed bytes.",
  ["schedules", "inputs", "configurations"], "All process counts, ranks, message sizes and interleavings.",
  "Tests run one fixed program with few processes.",
  ["classdescMP.h"], [("MPIbuf operations", "classdescMP.h")], ["received buffers"], na='which message a receive matches depends on process counts, schedules and the MPI runtime; no static bound on those is in reach here, and the per-call arguments alone do not settle what arrives')

P("C17", "Unknown type identifiers are reported, never used",
  "Creating or reading an object by type name or type number never uses an identifier that was not registered: an unknown one raises an error.",
  ["inputs"], "All identifiers.",
  "Tests only use registered identifiers.",
  ["factory.h", "object.h", "poly.h"], [("registry lookups", "factory.h, object.h")], ["exceptions"], technique="path-sensitive term dataflow over registry lookups on LLVM IR (bounds, found and null typestate before use)",
  note="lookups of object.h, poly.h, factory.h and the polymorphic unpackers; a user's own create() is trusted to report unknown types")

P("C18", "Owning handles release each object exactly once",
  "Whatever sequence of copies, assignments (including self-assignment), swaps and destructions owning handles go through, each owned object is destroyed exactly once, after its last handle is gone.",
  ["histories"], "All operation sequences.",
  "Tests do few operations and would not notice a leak or a double release.",
  ["ref.h", "poly.h", "pack_graph.h"], [("reference counting", "ref.h")], ["object lifetime"], technique="ownership analysis on LLVM IR: per-operation counting of owners over all ways handles can share objects",
  note="ref, poly and PtrStoreRef; each operation is analysed from every sharing of its handles, so histories follow by induction; single thread; destructors do not throw")

P("C19", "Multi-dimensional arrays map distinct indices to distinct elements in bounds",
  "For every shape, each index tuple within the shape addresses its own element within the storage, the same element for reading, writing, slicing and iterating, however the array wrapper was made; extents of zero are shapes too.",
  ["inputs"], "All shapes and indices.",
  "Tests use one small shape.",
  ["multiArray.h"], [("stride computation", "multiArray.h")], ["element addresses"], technique="the address computed by every way of indexing and iterating, as a polynomial over indices and dimensions extracted from optimised LLVM IR, compared with the mixed radix numbering of the reported extents",
  note="Ranks 1 to 4 (5 when thorough); element counts within size_t.")

P("C20", "Enumerator names and values convert both ways",
  "Every enumerator converts to its own name and that name back to the same value; an unknown name or value is reported or yields a defined result (zero, the empty name). The table generated for an enumeration holds each of its enumerators once, with its own value, and nothing else.",
  ["programs", "inputs"], "All enumerations whose values fit an int, all names and values.",
  "Tests use one enumeration.",
  ["classdesc.h", "classdesc.cc"], [("EnumKeys, Enum_handle", "classdesc.h"), ("enumeration parsing and key table generation", "classdesc.cc")], ["converted values"], technique="comparison of the generated key tables (as constant initialisers in LLVM IR) with the compiler's own enumerators, and abstract interpretation of EnumKeys and Enum_handle over a map model",
  note="The parser part covers the enumeration forms of the witness headers; enumerators' values are taken to fit an int.")

P("C21", "Every descriptor can reach private members through the documented hooks",
  "A class that declares the documented access hook (CLASSDESC_ACCESS) can be described by every descriptor the library ships, its private and protected members and bases included, in every supported language standard; nothing generated for it touches what only its own members may name.",
  ["programs", "configurations"], "All descriptors.",
  "Tests use private members with few descriptors.",
  ["classdesc_access.h", "Makefile"], [("friend declarations", "classdesc_access.h")], ["compilation of descriptors"], technique="type-checking, with access control on, of the generated descriptors of hooked witness classes against every shipped descriptor, of probes of every access template, and of hooked forms of class definition; dataflow over the IR of the descriptors for the members they hand on",
  note="javaClass, RESTProcess, JSON and Python descriptors are covered by the access probes only (they need json5_parser, JNI or Python, or do not support arrays and bases). Private nested types cannot be members of a described class.")

P("C22", "JSON reading reports missing or mistyped data instead of inventing values",
  "Reading JSON into an object stores exactly the values present, converts only compatible types, and reports a missing element or an incompatible value as an error.",
  ["inputs"], "All JSON documents.",
  "The JSON code is not compiled by the test suite of this tree.",
  ["json_pack_base.h"], [("json_unpack overloads", "json_pack_base.h")], ["exceptions"], na='the JSON headers need the json5_parser submodule, whose directory is empty in this tree, so they cannot be compiled or lowered to anything that could be analysed')

P("C23", "Random initialisation stays in the range of each type",
  "Random initialisation leaves every object valid: numbers within their type's range, characters printable, enumerations set to one of their enumerators, every element of an array, string or sequence set, whatever numbers in [0,1) the random source returns; the default source stays in [0,1).",
  ["inputs"], "All random sequences.",
  "Tests see one random sequence.",
  ["random_init_base.h", "random_init_epilogue.h"], [("range mapping", "random_init_base.h")], ["object values"], technique="interval dataflow with exact rounding over the random initialisers in LLVM IR; typestate of element loops",
  note="A user's random source is trusted to return numbers in [0,1); container behaviour per the standard.")

P("C24", "Comparing buffers or packed objects is one consistent total order",
  "Comparing two in-memory buffers yields less, equal or greater consistently: swapping the operands reverses the result, equality means same size and same bytes, and every comparison operator, deepCmp and deepEq agree with that order for every content and size.",
  ["inputs"], "All pairs of buffer contents, all comparison operators.",
  "Tests compare a few equal or slightly different buffers, and the sign and magnitude of the byte comparison depends on the platform.",
  ["pack_base.h"], [("pack_t::cmp, comparison operators, deepCmp, deepEq", "pack_base.h")], ["results of comparison operators"], technique="path-sensitive evaluation of the comparison functions in a sign domain for the byte comparison's result, over LLVM IR; operand tracking for the operators",
  note="Sound for in-memory buffers given memcmp's contract; that equal objects pack to equal bytes is C01's subject.")
