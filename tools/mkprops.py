#!/usr/bin/env python3
"""Writes properties.jsonl from the table below (single source for ids, statements, anchors)."""
import json, os
W = ["beschi/writers/c.py","beschi/writers/csharp.py","beschi/writers/go.py","beschi/writers/rust.py","beschi/writers/swift.py","beschi/writers/typescript.py","beschi/writers/assemblyscript.py","beschi/writers/zig.py"]
B = ["beschi/writers/boilerplate/"+n for n in ("C.1.h","CSharp.1.cs","Go.go","Rust.rs","Swift.0.swift","TypeScript.ts","AssemblyScript.ts","Zig.zig")]
P = ["beschi/protocol.py"]
def mech(*a): return [{"name":n,"where":w} for n,w in a]
SER = mech(("serializer/deserializer emitters of every writer","serializer() and deserializer() in beschi/writers/*.py"),("buffer/stream helper code copied into every generated file","beschi/writers/boilerplate/*"))
L=[]
def p(id,title,statement,over,qtext,why,files,mechanism):
    L.append(dict(id=id,title=title,statement=statement,quantifier=dict(over=over,text=qtext),why_tests_cant=why,anchors=dict(files=files,mechanism=mechanism)))
p("C01","Generated readers mirror generated writers",
  "For every protocol and in every target language, the generated reading code of a struct or message consumes exactly the byte sequence its generated writing code emits, in the same order and widths, and stores each decoded value in the member it was written from. A value written by a generated writer therefore comes back unchanged in every member when read by the same language's reader.",
  ["inputs","configurations"],"all valid protocols, all member kinds and nestings, all eight target languages, all list lengths and string contents",
  "The suite checks a handful of fixed protocols with fixed values; untested shapes (struct nestings, list-of-struct-with-list, enum in simple struct ...) and two languages (Swift, AssemblyScript) are never executed.",W+B,SER)
p("C02","All languages share one documented wire format",
  "For every protocol the bytes a generated writer emits for a message are the same in every target language: members in declaration order, numbers little-endian at their declared width, booleans one byte 0/1, enums at their storage width, strings as length plus UTF-8 bytes, lists as element count plus elements, structs inline, with no padding, omitted or extra bytes. The generated readers of every language accept exactly that layout.",
  ["inputs","configurations"],"all valid protocols and all eight target languages",
  "Cross-language comparison in the suite covers a few fixed messages and skips Swift and AssemblyScript; member kinds or nestings absent from them are unchecked.",W+B+P,SER)
p("C03","Reported message size equals bytes written",
  "For every message value, the size a generated message reports for itself equals the number of bytes its generated writer emits without the tag, in every target language. The size reported for a packed list of messages equals the number of bytes packing that list emits.",
  ["inputs"],"all valid protocols, all message values including non-ASCII strings and empty or nested lists",
  "Sizes are tested for one sized-messages protocol with particular contents; e.g. non-ASCII strings or particular nestings are not sampled in every language.",W+B+P,
  mech(("size measurement emitters","gen_measurement() in beschi/writers/*.py"),("static sizes","Protocol.get_size_of in beschi/protocol.py"),("packed size helpers","beschi/writers/boilerplate/*")))
p("C04","Configured length-prefix types are honoured independently",
  "In every target language the element count of a list is written, read and sized using the configured list size type, and the byte length of a string using the configured string size type, each independently of the other, wherever the list or string occurs. With neither configured both prefixes are unsigned 32-bit.",
  ["configurations"],"all pairs of list size type and string size type, strings and lists at every nesting level, all languages",
  "Tests configure one small-sized protocol where a fixed pair is used; the other pairs and places (list of strings, strings in nested structs) are not exercised.",W+B+P,
  mech(("size type selection","Writer.get_native_list_size/get_native_string_size in beschi/writer.py"),("placeholders","STRING_SIZE_TYPE / LIST_SIZE_TYPE substitutions in add_boilerplate calls")))
p("C05","Message tags are consistent everywhere",
  "For every protocol, each message has a unique tag equal to its 1-based position in declaration order, 0 being reserved, and the message type constants, the tag written in front of a tagged message, the type a message reports for itself, and the tag every stream reader dispatches on agree on it, in every target language. The tag is written exactly when requested and is exactly one byte.",
  ["inputs","configurations"],"all protocols with 1..255 messages, all languages",
  "Tests use protocols with few messages; per-message agreement among five independent emitters in eight languages is not enumerated.",W+B,
  mech(("tag emission","gen_struct() message branches and generate() MessageType emission in beschi/writers/*.py")))
p("C06","Stream reading dispatches exhaustively and stops where documented",
  "In every target language the raw-stream reader decodes, for every declared message, the message announced by its tag using that message's own reader, in stream order, until the data is exhausted, a zero tag is met, or the requested maximum number of messages is reached (negative meaning no maximum, zero meaning none). A tag that belongs to no declared message is never decoded as a message and is reported in the language's error style.",
  ["inputs","histories"],"all protocols, all byte streams, all maxima",
  "Tests feed a few concatenated messages; every tag value, message count and stop condition combination cannot be sampled.",W,
  mech(("ProcessRawBytes family","generate() of beschi/writers/*.py"),("Message::from_bytes etc.","beschi/writers/rust.py")))
p("C07","Packed envelope has one layout in every language",
  "Packing a list of messages emits, at the current write position, the four bytes BSCI, the message count as an unsigned 32-bit little-endian integer, every message in order with its tag, and one final zero byte, identically in every target language. The packed size reported for the list is the sum of the message sizes plus one tag byte per message plus nine.",
  ["inputs","configurations"],"all message lists, all protocols, all languages",
  "The packed tests use one protocol and one list, writing at position zero.",W+B,
  mech(("PackMessages/GetPackedSize","beschi/writers/boilerplate/* and generate() of beschi/writers/c.py, swift.py")))
p("C08","Unpacking rejects anything that is not an intact envelope",
  "In every target language, unpacking verifies the BSCI header before decoding, reads the message count, decodes at most that many messages and returns them only when exactly that many were present. A wrong header, a buffer too short for the header or count, or a count that does not match the messages present is reported as an error rather than returned as a list.",
  ["inputs"],"all byte buffers",
  "The suite tries a few corrupted buffers; short buffers and count mismatches are not enumerated per language.",W+B,
  mech(("UnpackMessages","beschi/writers/boilerplate/* and generate() of beschi/writers/c.py")))
p("C09","Truncated input is always reported",
  "In every target language, if the bytes available end before the value being read is complete, at whatever member, nesting level, list element or string byte, the generated reader reports failure in the language's error style instead of returning a value. No read touches memory outside the input buffer.",
  ["inputs","fault_sequences"],"every truncation point of every message of every protocol, every language",
  "Broken-message tests truncate one message at one place; each primitive read at each nesting level is a separate failure path.",W+B,
  mech(("bounds checks","beschi/writers/boilerplate/*"),("error propagation after each read","err_check_return and friends in beschi/writers/*.py")))
p("C10","Undersized output buffers are reported, never overrun",
  "In the languages that write into a caller-sized buffer with an error channel (C and AssemblyScript), every generated write first checks that the bytes fit in the remaining space, a write that does not fit is reported by every enclosing generated function, and no byte is stored outside the buffer.",
  ["inputs","fault_sequences"],"every message value and every buffer size and start position",
  "Tests always supply buffers of exactly the right size.",["beschi/writers/c.py","beschi/writers/assemblyscript.py","beschi/writers/typescript.py"]+B[:1]+[B[6]],
  mech(("bounds checks on writes","beschi/writers/boilerplate/C.1.h, AssemblyScript.ts"),("err checks after each write","beschi/writers/c.py serializer, beschi/writers/typescript.py err_check_return")))
p("C11","Enum values are validated on read",
  "In every target language, a value read for an enum member, wherever the enum occurs (directly, in lists, inside structs of any kind), is accepted only if it equals one of the declared values; any other value is reported as an error (or, in AssemblyScript, becomes the enum's unknown marker, which differs from every declared value).",
  ["inputs"],"all enums (sequential, sparse, negative, any storage size) in all positions, all wire values",
  "Tests try one out-of-range value in one position of one enum.",W+B,
  mech(("enum validation emitters","deserializer()/gen_enum() in beschi/writers/*.py")))
p("C12","Enum constants and storage size agree everywhere",
  "Every declared enum value appears exactly once in the generated enum of every target language with its declared name and number (position when no number is given), and the enum is stored in the smallest of unsigned 8-bit, signed 16-bit and signed 32-bit that holds all its values, the same in every language and in size computations.",
  ["inputs","configurations"],"all enum declarations, all languages",
  "Tests check a couple of enums; boundary ranges (255/256, -1, 32767/32768) per language are not covered.",W+P,
  mech(("encoding choice","Enum.__init__ in beschi/protocol.py"),("enum emitters","gen_enum() in beschi/writers/*.py")))
p("C13","Freshly created messages hold the documented defaults",
  "In every target language a newly created message or struct, before anything is assigned, has every number zero, boolean false, string empty, list empty, enum equal to its first listed value and every nested struct likewise defaulted, recursively. Writing such a fresh value is therefore well defined and gives the same bytes in every language.",
  ["inputs","configurations"],"all protocols, all member kinds, all creation entry points",
  "Uninitialised-message tests cover one message with one fixed shape.",W,
  mech(("default emitters","gen_default()/default_value in beschi/writers/*.py")))
p("C14","Generated cleanup releases exactly what reading allocated",
  "In C and Zig, releasing a message that was successfully read frees every allocation the reader made for it, each exactly once and with correct loop bounds at every nesting level, and frees nothing the reader did not allocate. A freshly created, never filled message can be released safely as well.",
  ["inputs","histories"],"all protocols with strings/lists at any nesting",
  "Leaks and double frees only show under sanitizers for the shapes that are sampled.",["beschi/writers/c.py","beschi/writers/zig.py",B[0],B[7]],
  mech(("destructor emitters","destructor() in beschi/writers/c.py and zig.py"),("allocating reads","beschi/writers/boilerplate/C.1.h ReadString, Zig.zig readString/readList")))
p("C15","Allocation failures in C are detected before use",
  "Generated C code checks the result of every allocation before the memory is used and returns the allocation-failure (or null) result, and each allocation requests at least the bytes that are subsequently written to it.",
  ["fault_sequences"],"every allocation site of generated C for every protocol",
  "Tests never make malloc fail.",["beschi/writers/c.py",B[0]],
  mech(("allocations","MALLOC/REALLOC uses in beschi/writers/c.py and boilerplate/C.1.h")))
p("C16","Failed reads leave C and Zig memory consistent",
  "In C and Zig, when reading a stream or packed buffer fails part-way, nothing that was not fully initialised is handed to the caller or released, and (Zig) every allocation made before the failure has been released.",
  ["fault_sequences","histories"],"every failure point of every reader",
  "Failure in the middle of nested allocations is not sampled.",["beschi/writers/c.py","beschi/writers/zig.py",B[0],B[7]],
  mech(("error exits of readers","ProcessRawBytes/FromBytes emitters in beschi/writers/c.py, zig.py")))
p("C17","Every declared type and member is generated once with its documented type",
  "For every protocol, each struct, message and member appears exactly once in the generated source of every target language, in declaration order where order is visible, under its declared name (or the documented renaming of Go and Rust, switched off by the corresponding option), with the documented native type for its kind. No member is dropped, duplicated, or given another member's type.",
  ["inputs","configurations"],"all protocols, all languages, rename options",
  "Only fixed protocols are compiled; a dropped or mistyped member of an unsampled kind goes unseen.",W,
  mech(("type mappings","type_mapping tables and gen_struct() in beschi/writers/*.py"),("renaming","Go and Rust __init__ rename passes")))
p("C18","Valid protocols generate code that compiles cleanly",
  "For every valid protocol and option combination, the generated source is accepted by the target language's compiler or type checker without errors, and without warnings at the strict settings the project promises (C also as C++).",
  ["inputs","configurations"],"all valid protocols (every member kind, nesting, empty definitions, enum shapes, size types), options and the six languages with a toolchain here",
  "Only the suite's own protocols are compiled.",W+B,
  mech(("whole-file emitters","generate() in beschi/writers/*.py")))
p("C19","Command-line options affect only what they document",
  "The indentation option changes only leading whitespace of the generated source, the embed option only adds a comment carrying the protocol text, the namespace option has exactly the effect of declaring that namespace in the protocol file, and the rename options only change identifier spelling. Generated source never contains unresolved template placeholders.",
  ["configurations"],"all languages, options and protocols",
  "Tests never compare generated source across options.",W+["beschi/cli.py","beschi/writer.py"],
  mech(("boilerplate insertion","Writer.add_boilerplate in beschi/writer.py"),("option handling","main() in beschi/cli.py")))
p("C20","Embedding the protocol text never alters the generated code",
  "For every protocol text, including text containing comment terminators, generating with the protocol embedded yields the same code as without, the protocol text being entirely inside comments.",
  ["inputs"],"all protocol texts, all languages",
  "No test embeds a protocol whose text contains comment delimiters.",W,
  mech(("protocol embedding","embed_protocol branches of generate() in beschi/writers/*.py")))
p("C21","Member names cannot collide with generator temporaries",
  "For every protocol whose names are valid, the local variables and parameters the generator introduces in reading, writing, measuring and releasing code never shadow or capture a member, so that each member keeps its own value whatever the other members are called.",
  ["inputs"],"all member names, including ones such as 'foo_len', 'reader', 'size', 'el' and 'i'",
  "Adversarial names are not sampled.",W,
  mech(("temporaries","deserializer()/serializer()/gen_measurement() in beschi/writers/*.py")))
p("C30","Documented invalid protocols are rejected",
  "Every protocol breaking a documented rule is rejected with an error before any code is generated: whitespace in names or namespace, missing, empty or reserved names, reserved or whitespace member names, duplicate structs, messages, enums, enum values or numbers, names shadowing each other, unknown types, messages inside messages or structs, nested lists, non-integral size types, enums without values, with malformed values or values too large to store, and more than 255 messages. This holds wherever in the protocol the offending item occurs.",
  ["inputs"],"all protocol documents, offending item at any position",
  "The suite has one broken file per rule for a subset of rules; position and combination are not sampled.",P,
  mech(("validation","Protocol.__init__, Enum.__init__ in beschi/protocol.py")))
p("C31","Protocol validation terminates and rejects every reference cycle",
  "Loading any protocol terminates. Any protocol in which a struct directly, through lists, or through a chain of other structs contains itself is rejected, whether or not the cycle passes through the definition being examined first.",
  ["inputs"],"all struct reference graphs",
  "Graph shapes are infinite; the suite has two-struct cycles only.",P,
  mech(("cycle check","check_for_cycles in beschi/protocol.py")))
p("C32","Valid protocols are accepted",
  "A protocol obeying all documented rules is accepted and interpreted as written: every struct, message, enum, member, list marker, size type and namespace is taken over in declaration order, shared (diamond-shaped) struct use is not mistaken for a cycle, and exactly 255 messages are allowed.",
  ["inputs"],"all valid protocol documents",
  "Only fixed valid files are loaded.",P,
  mech(("parsing","Protocol.__init__ in beschi/protocol.py")))
p("C33","Failing runs exit non-zero and leave no output",
  "Whenever the command cannot produce code (missing or unreadable arguments or files, invalid protocol, unknown language, generation failure) it ends with a non-zero status and a diagnostic on the error stream, and neither creates nor truncates the requested output file. The output file is only opened once generation has fully succeeded.",
  ["fault_sequences","inputs"],"all argument combinations and all failure points before output",
  "Each failure point times each pre-existing output state is not sampled.",["beschi/cli.py"]+P,
  mech(("command driver","main() in beschi/cli.py")))
p("C34","Generation is deterministic",
  "The generated text is a function of the protocol, language and options alone: it does not depend on hash seeds, time, environment, directory listing order, or on anything generated earlier in the same process.",
  ["configurations","histories"],"all protocols, repeated or different runs",
  "Tests run with a fixed hash seed and compare nothing across runs.",W+["beschi/writer.py","beschi/writers/__init__.py","beschi/cli.py"],
  mech(("set iteration, registries, shared state","beschi/writers/*.py module and class state")))
p("C35","Generators do not disturb the protocol or each other",
  "Constructing and running a generator changes neither the protocol object it is given nor any module, class or default-argument state, so one protocol object can be handed to any sequence of generators, each yielding what it would alone.",
  ["histories"],"all sequences of generators over one protocol",
  "Tests use a fresh process per generation.",W+["beschi/writer.py"],
  mech(("in-place renaming","GoWriter/RustWriter __init__ in beschi/writers"),("mutable defaults","Writer.add_boilerplate")))
p("C36","Text files are read and written as UTF-8 regardless of locale",
  "Every text file the tool opens, for reading protocol or boilerplate and for writing output, uses an explicit UTF-8 encoding, so that non-ASCII protocol text or names give the same output under any locale.",
  ["configurations"],"all open calls, all locales",
  "Tests run under one UTF-8 locale.",["beschi/cli.py","beschi/writer.py"]+P,
  mech(("file opens","open() calls in beschi/cli.py, writer.py, protocol.py")))
# not applicable (kept for the record)
p("C40","Floating point payloads survive bit for bit",
  "Every float and double value, including NaN payloads, infinities, negative zero and subnormals, survives a write/read round trip in every language with its exact bit pattern.",
  ["inputs"],"all 2^32 / 2^64 bit patterns","Values are sampled.",B,mech(("float conversions","boilerplate of every language")))
p("C41","Reading untrusted sizes never exhausts memory or time",
  "Reading a message never allocates more than a constant factor of the bytes actually present, whatever length prefixes the input claims.",
  ["inputs"],"all byte buffers","Adversarial sizes are not sampled.",W+B,mech(("length-driven allocation","deserializer() in beschi/writers/*.py")))
def validate():
    import jsonschema
    sc=json.load(open("/root/.vp/PROPERTIES.schema.json"))
    for x in L:
        jsonschema.validate(x,sc); assert len(x["title"])<=80
if __name__=="__main__":
    try: validate()
    except ImportError: pass
    out=os.path.join(os.path.dirname(os.path.abspath(__file__)),"..","properties.jsonl")
    with open(out,"w") as f:
        for x in L: f.write(json.dumps(x)+"\n")
    print(len(L))
