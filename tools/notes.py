TECH0 = "TLA+ specification (Wire, Codec, Objects) checked with TLC; executions recorded from the real generated code validated against it (TraceObjects)"
NOTE0 = ("TLC decides every recorded event of the executed operation sequences against the specification; sequences and schemas are sampled "
         "(seeded), values include all boundaries. Trusts the compiler, protoc, sanitizers, TLC and the read accessors used to observe.")
BUF = ("TLA+ state machines of the buffers (Buffers, MCBuffers) explored completely with TLC for small capacities, every transition replayed in the "
       "real buffers; recorded random histories validated against the same machines (TraceBuffers)")
BUFN = "Exhaustive for the listed capacities and section depths; larger ones are sampled (seeded)."
TECH.update(C08=BUF, C09=BUF,
  C17="TLA+ specification of the text form (Text over Codec/Objects) checked by TLC on recorded to_string() calls with guarded views of all sizes (TraceObjects)",
  C15="TLA+ specification of the generator (Gen, MCGen): TLC checks that acceptance equals existence of a header and enumerates programs; the generator is run on them and on random programs, code compiled as C++11 and its observed capacities judged by TLC (TraceGen)",
  C16="TLA+ specification of the generator (Gen, MCGen): TLC enumerates all programs of three messages and decides acceptance and needed files; the real plugin and protoc are run on them and on random programs",
  C19="TLA+ specification of the identifiers (Gen): TLC judges the constants, names, lookups and cases recorded from compiled generated code (TraceGen)",
  C21="TLA+ specification of the wire primitives (Wire) with inverse laws checked by TLC (MCWire); recorded calls of the real functions judged by TLC (TracePrim)",
  C22="TLA+ specification of the wire primitives (Wire); recorded operation histories of the real field wrappers judged by TLC (TracePrim)")
NOTE.update(C08=BUFN, C09=BUFN,
  C15="All nestings and references of three messages are enumerated, a sample compiled per quick run (all in the thorough one); richer programs are sampled. Names that collide in C++ by themselves are out of scope (DESIGN.md).",
  C16="All programs of three messages (nesting x references to messages and enums) every run; larger ones and file groupings sampled.",
  C19="Programs are sampled (seeded): names, numbers up to 2^29-1, enum values; lookups probed at all fields, their neighbours and aliases modulo powers of two.",
  C21="Values and byte strings are sampled (seeded) with all boundaries; inverse laws of the specification checked by TLC on boundary values.",
  C22="Values and histories are sampled (seeded) with all boundaries.")
