#!/usr/bin/env python3
"""Regenerates MANIFEST.json from the table below (development aid)."""
import json
T = {
 'C04': ('path-sensitive dataflow over SSA (provenance of compared checksums) with exact decision of the comparison helper', 'Every path on which opening succeeds is covered, helpers inlined; the position of the header is not judged, and a comparison through an unknown library call is recorded but not decided.'),
 'C17': ('path-sensitive dataflow over SSA (validity facts of names, result types) with name-flow tracking', 'Every path of the list builder, of Open and of the entry accessors is covered; the meaning of ValidPath and path.Base is taken from the standard library.'),
 'C21': ('path-sensitive dataflow over SSA (one volume per loop iteration) with concrete evaluation of the naming scheme', 'Every path of the volume-opening code is covered, helpers inlined; the naming functions are interpreted for 7 archive names and sample positions (first, ninth, tenth, hundredth ... volume); unrecognised size or numbering shapes are recorded but not decided.'),
 'C26': ('path-sensitive dataflow over SSA with case-complete decision of the ordering predicates', 'Comparison functions and search predicates are decided for all orderings of directory and element; every path of the list builder and of ReadDir is covered. Linear-scan lookups and lists built by appending in ReadDir are only partly judged.'),
 'C05': ('path-sensitive typestate dataflow over SSA (error obligations)', 'Every fallible call site in the module and every path from it is covered by the abstract interpretation; sound up to the stated exemptions (documented-infallible calls, end of data absorbed by Read code, absent next volume) and the no-alias assumptions of the memory model.'),
 'C06': ('path-sensitive typestate dataflow over SSA (error provenance)', 'As C05; additionally tracks how the returned error is built from the cause (errors.Join, fmt.Errorf %w, Unwrap fields).'),
 'C08': ('path-sensitive typestate dataflow over SSA (file ownership) with structural recognition of closing loops', 'Every path of the outermost opening functions is covered, helpers inlined; volumes opened in one loop are summarised per loop iteration and older iterations; a list counts as closed only by a loop that closes each element and cannot be left early.'),
 'C09': ('path-sensitive ownership dataflow over SSA (typestate of streams: made, handed over, closed)', 'Every path of every function that obtains, stores or closes a stream is covered, helpers inlined; streams kept in lists under construction are tracked list by list; a stream reachable from a returned stream is judged by that type\'s own Close.'),
 'C10': ('path-sensitive typestate dataflow over SSA (open/closed streams)', 'Every method of every stream type is interpreted from the closed states its own Close can leave behind; types that only promote Close are judged through the stream they wrap; a failed Close leaves the stream open.'),
 'C11': ('path-sensitive typestate dataflow over SSA (objects taken from and given to a sync.Pool)', 'Every path of every constructor and method that reaches a recycling pool is covered; library decoders are assumed to forget their previous input on Reset.'),
 'C12': ('escape and lock-set analysis over SSA with a call graph (post-open effects)', 'Every store, map write and stateful call reachable after opening on memory shared between members is covered; sound up to the call graph (interface calls resolved to module implementers, dynamic constructor calls to the registered ones) and the field-based heap abstraction.'),
 'C13': ('interprocedural alias-flow analysis over SSA (immutability of parsed state)', 'Every store, copy and library call that may write through memory reachable from the parsed description or from another stream\'s input is covered along the alias flow; library functions are assumed to write only where documented.'),
 'C07': ('path-sensitive typestate dataflow over SSA (encryption hint provenance)', 'Every exit of the stream builder and every failure of a builder or its stream in functions that report ReadError is covered, helpers inlined; a decoder whose constructor fails is not regarded as set up.'),
 'C14': ('path-sensitive dataflow over SSA with access paths and linear facts (size confinement)', 'Every path of the stream builder, of every method of a member handle and every section made over the archive is covered; the library limiters are taken to enforce the bounds they are given; integer conversions are taken to keep the value; the start of a group inside the stream area is only checked to come from a module function.'),
 'C15': ('path-sensitive dataflow over SSA: access-path comparison of park and fetch sites, linear facts for pool choice and Seek', 'Every path that parks or fetches a stream is covered, helpers inlined; integer conversions are taken to keep the value; a pool choice that is not recognised as an element of the pool is not judged.'),
 'C16': ('constant propagation through the method table initialisers and abstract evaluation of the coder instantiation', 'Every documented ID and 125 near misses are decided; IDs outside these follow from the table being a map with exact keys only as far as the evaluated near misses show; constructor identity is decided from the packages and converter types it statically reaches.'),
 'C18': ('dataflow over SSA: key injectivity, cache-key coverage and immutability of cached keys', 'Every derivation input is traced into the cache key and the key encoding is decided injective from its construction; every write path to a cached key is covered; the cache library is assumed to return what was stored under an equal key.'),
 'C19': ('interprocedural taint analysis over SSA (secret sources to output sinks)', 'Every flow from passwords and derived keys through the module is followed to errors, output calls and exported fields; library calls are summarised as stated in the evidence assumptions.'),
 'C02': ('interval and taint classification of allocation sizes by path-sensitive abstract interpretation with an interprocedural fixpoint', 'Every allocation of a size that is not constant, on every path; sizes given by callers of the exported API and memory of third-party decoders are not judged.'),
 'C23': ('path-sensitive dataflow over SSA with inductive counters: linear loop invariants derived from the code and checked on every loop edge', 'Every path and every loop edge of the member loops, the substream lookup, the size parser and the packed stream positions is judged for all counts at once; counters kept in maps or memory cells and sums over sub-slices are recorded but not decided.'),
 'C22': ('path-sensitive dataflow over SSA (header grammar: ID pinning and field assignment)', 'Every path of every header parser is covered by the abstract interpretation; values themselves (N02) are out of scope. A parser that skips a property it stores nothing from is reported; a property the format defines must have a store.'),
 'C25': ('bit-level provenance analysis (abstract interpretation) of the mode mapping', 'Complete over all 2^32 attribute values: 512 classes of fixed bits, the rest symbolic. Undefined Unix file types are only checked for permissions and special bits.'),
 'C20': ('effect analysis over the whole-program call graph, dependencies included', 'Every reachable call, in module and dependency code, is classified; dependency code behind constant-false debug switches is excluded; interface calls on caller-supplied readers and filesystems are the trusted boundary.'),
}
NA = {
 'N01': 'equality with the reference decoder is about the values computed from run-time data (LZMA range decoding, PPMd models, AES); no static argument in reach bounds them',
 'N02': 'exact decoded values of variable-length numbers, FILETIMEs and UTF-16 names are functions of run-time bytes; the arithmetic would have to be proved against the format by a solver or proof assistant, not by flow analysis',
 'N03': 'a cost bound over whole call histories depends on pool occupancy and member order at run time; static analysis cannot count decodes',
 'N04': 'whether a wrong password yields a checksum mismatch is a probabilistic statement about decrypted content',
}
import os
here = os.path.dirname(os.path.abspath(__file__))
extra = os.path.join(here, 'manifest_extra.json')
if os.path.exists(extra):
    for k, v in json.load(open(extra)).items(): T[k] = tuple(v)
props = [json.loads(l)['id'] for l in open(os.path.join(here, 'properties.jsonl'))]
checks = [{'property': k, 'quick_cmd': './check.sh ' + k, 'thorough_cmd': './check.sh ' + k, 'evidence_file': 'evidence/%s.json' % k,
           'technique': T[k][0], 'level': 'other', 'level_note': T[k][1]} for k in props if k in T]
na = [{'property': k, 'reason': NA.get(k, 'no check built yet')} for k in props if k not in T]
json.dump({'version': 1, 'setup_cmd': './setup.sh', 'checks': checks, 'not_applicable': na,
           'notes': 'All checks are one static analyser (analyzer/, Go, golang.org/x/tools/go/ssa) run on /repo\'s current source; no hooks are needed in /repo.'},
          open(os.path.join(here, 'MANIFEST.json'), 'w'), indent=1)
