#!/usr/bin/env python3
# Writes /verif/MANIFEST.json from the checks listed here and properties.jsonl.
import json, os
here=os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props=[json.loads(l)["id"] for l in open(here+"/properties.jsonl")]
ENUM="explicit-state enumeration of a reference codec model, every model trace replayed against the real Go v1, Go v2, Rust, C and TypeScript implementations"
NOTE="Exhaustive within the stated value alphabets, sequence depths and byte-string bounds (DESIGN.md, evidence domains); the model is bound to the code because every enumerated trace is executed on the real implementation and compared. Trusts the reference codec (harness/ref.go), the compilers and the drivers' observation code."
CONC="The sources under test are instrumented at build time through -overlay (sync, sync/atomic and go statements replaced, a scheduling point before every statement); nothing is committed in /repo. Exhaustive within the stated scenarios and preemption bound. A run under the race detector supplements the exploration: it is not what decides."
GEN="Exhaustive within the stated schema family, value alphabets and mutation classes (DESIGN.md, evidence domains). Every enumerated case is executed on code generated from the current tree by protoc with the real generator, so there is no model to keep in step beyond the schema family and the field-wise comparison. num_enum, which is not available offline, is replaced by a stand-in derive macro."
CH={
 "C01":(ENUM+" (encode, then decode)",NOTE),
 "C02":(ENUM+" (bytes compared, all encoder/decoder pairs)",NOTE),
 "C03":(ENUM+" (all short byte strings, all single-edit neighbours of valid messages x request sequences)",NOTE),
 "C04":("exhaustive truncation-point enumeration: every prefix of every enumerated message, replayed against every implementation",NOTE),
 "C05":(ENUM+" (every value x every wrong request, repeated, then the right one)",NOTE),
 "C06":(ENUM+" (acceptance, value and length of every enumerated byte string in every decoder)",NOTE),
 "C07":(ENUM+" (every buffer state: origin x capacity x fill x stale contents, crossed with value sequences)",NOTE),
 "C08":("explicit-state exploration of all buffer operation sequences to a depth bound, run on the real Go buffers and compared with a byte-sequence model after every step",NOTE),
 "C09":("stateless model checking of the real Go pool code under a controlled scheduler: all interleavings up to a preemption bound crossed with all recycle choices of the pool",CONC),
 "C10":("stateless model checking of the real Go codec under a controlled scheduler: all interleavings of the accesses to shared state up to a preemption bound",CONC),
 "C11":("explicit-state enumeration of value sequences, scratch slices and the memory changes a caller can make between and after decodes, run on the real implementations and compared with a copy-semantics model",NOTE),
 "C12":(ENUM+" (error and zero value of every failing enumerated input)",NOTE),
 "C13":("exhaustive enumeration of C call scripts (functions x null arguments x initial status x object states, and all short call sequences), replayed on the real library and compared with a model of the interface",NOTE),
 "C14":("exhaustive enumeration of allocation histories and release orders of the C interface, replayed on the real library under an accounting allocator with guard pages",NOTE),
 "C15":(ENUM+" (allocation of every request over claimed length x input present)",NOTE),
 "C16":("exhaustive enumeration of a schema family (every field type x cardinality, map key x value type, pairs of field classes, nestings, names) crossed with bounded value spaces and decode-target histories; every trace runs on the code that the real generators emit for it",GEN),
 "C17":("exhaustive fault enumeration on generated Go code: every prefix, every byte value at every position, every value replaced by each other kind, every short input, inflated sizes, for every message of the schema family",GEN),
 "C18":("exhaustive enumeration of the schema family and its bounded value spaces; every value runs through generated Go v1, Go v2 and Rust code and the outcomes are compared with each other and the model value",GEN),
 "C19":("explicit-state exploration of all histories of generator requests up to a depth, on the real generators, compared with the outcome of each request in a fresh process",GEN),
 "C20":("exhaustive fault enumeration on generated Rust code: every prefix, every byte value at every position, every value replaced by each other kind, every short input, inflated sizes, for every message of the schema family",GEN),
 "C21":("exhaustive enumeration of the schema family and its bounded value spaces; every value runs through generated Go v1 and v2 and generated TypeScript code, type-checked by the compiler, and the outcomes are compared with each other and the model value",GEN),
 "C22":("exhaustive fault enumeration on generated TypeScript code: every prefix, every byte value at every position, every value replaced by each other kind, every short input, inflated sizes, for every message of the schema family",GEN),
 "C23":("explicit-state enumeration of all interleavings of the steps (creation, calls, end) of two and three encoders and decoders, executed on the real implementations; each object is compared with what it does alone","Exhaustive within the stated objects, calls per object and value alphabets (DESIGN.md, evidence domains). The reference is the same implementation used alone, so no model has to be kept in step; trusts the drivers' observation code."),
 "C24":("exhaustive enumeration of the combinations of added code and ways to generate, crossed with bounded value spaces, cut and damaged inputs, on the code the real generators emit; explicit-state exploration of all histories of changes and requests on two generators","Exhaustive within the stated schema, value spaces and history depth (DESIGN.md, evidence domains). The reference for bytes and values is the generated code without insertions, which C16 binds to the model; the reference for histories is a fresh generator."),
 "C25":("exhaustive enumeration of the bounded space of names x places x pairs of field names; the real generators emit the code of every schema and the compilers of the three languages decide each","Exhaustive within the stated names and places (DESIGN.md, evidence domains). There is no model: the state is the schema, the transition the real generator, the judge the compiler. Trusts protoc, go/types, rustc and tsc."),
 "C26":("exhaustive enumeration of the bounded space of schema features, alone and in pairs within one message and one file; the real generators emit the code of every schema and the compilers of the three languages decide each","Exhaustive within the stated features and their pairs (DESIGN.md, evidence domains). There is no model: the state is the schema, the transition the real generator, the judge the compiler. Trusts protoc, go/types, rustc and tsc."),
}
exec(open(here+"/tools/manifest_extra.py").read()) if os.path.exists(here+"/tools/manifest_extra.py") else None
NA={}
m={"version":1,"setup_cmd":"./setup.sh","checks":[],"not_applicable":[],
 "notes":"Each check rebuilds everything it needs from /repo's working tree into a scratch directory that it removes. No hooks are committed in /repo: the concurrency checks instrument copies of the sources at build time."}
for p in props:
    if p in CH:
        t,n=CH[p]
        m["checks"].append({"property":p,"quick_cmd":f"./check {p} quick","thorough_cmd":f"./check {p} thorough",
          "technique":t,"level":"model_checking","level_note":n})
    else:
        m["not_applicable"].append({"property":p,"reason":NA.get(p,"its check is not built yet")})
json.dump(m,open(here+"/MANIFEST.json","w"),indent=1); open(here+"/MANIFEST.json","a").write("\n")
