_REF = (
    "Exhaustive within the stated bounds on the real CLI (no model gap); trusts the independent reference model in mc/ref.py, "
    "the YAML reader and the bound argument in DESIGN.md. "
)
_T = "exhaustive bounded enumeration of {} executed on the real CLI, each compared with an explicit reference model"
T = {
    "C01": _T.format("file layouts (includes, overlays, attribute writes)"),
    "C02": _T.format("node sets and node bodies"),
    "C03": _T.format("instance declarations x subtrees"),
    "C04": _T.format("general/instance-specific write histories"),
    "C05": _T.format("deletion mark histories over all nodes"),
    "C06": _T.format("datatype x value constraint combinations"),
    "C07": _T.format("unit/quantity file configurations"),
    "C08": _T.format("unknown attributes x node kinds x policies"),
}
NOTE = {k: _REF + n for k, n in {
    "C01": "Bounds: <=3 writes over 3 attributes and 3 layers, include graphs of <=3 files.",
    "C02": "Bounds: <=4 nodes, 2 names per level, every kind/body fault.",
    "C03": "Bounds: <=3 instance entries from the entry alphabet, 2 nested instantiated branches.",
    "C04": "Bounds: <=3 writes out of general/specific targets.",
    "C05": "Bounds: <=3 marks, 3 layers, fixed set of trees.",
    "C06": "Bounds: all datatypes, value alphabet with all range limits +-1.",
    "C07": "Bounds: <=2 unit and quantity files, all datatypes.",
    "C08": "Bounds: <=2 unknown attributes, all policies.",
}.items()}
NA = {}
T.update({
    "C09": _T.format("struct/reference placements x file orders x hash seeds"),
    "C10": _T.format("node attribute variations x output options x four formats"),
    "C11": "exhaustive bounded enumeration of composed models, each exported, re-imported and re-exported on the real CLI (fixpoint check)",
    "C13": _T.format("single and pairwise edits of a model"),
    "C14": _T.format("UID sources x spellings x node pairs/triples"),
    "C15": _T.format("edit histories (single edits and pairs) between two model versions"),
})
NOTE.update({k: _REF + n for k, n in {
    "C09": "Bounds: <=3 structs with prefix-sharing names in a two-level namespace, <=2 files, all orders.",
    "C10": "Bounds: one- and two-attribute variations over the value alphabet, all node kinds.",
    "C11": "Bounds: the composed families of C01-C06, re-imported twice.",
    "C13": "Bounds: all single and pairwise edits of a 6 node model.",
    "C14": "Bounds: <=3 nodes, all sources of UIDs; real FNV collisions are precomputed.",
    "C15": "Bounds: all single edits and pairs, both tree orders.",
}.items()})
T["C12"] = "exhaustive bounded exploration of histories: all ordered pairs (and triples) of export operations in one process, leftover outputs, hash seeds, each compared bytewise with a fresh run"
NOTE["C12"] = "Exhaustive over the stated alphabet of specifications and exporter variants on the real code. No reference model needed: the oracle is the implementation's own fresh-process output."
T.update({
    "C16": "exhaustive bounded enumeration of models around every limit of the format, each exported on the real CLI and read by drivers of the real C (ASan/UBSan) and Go library, compared with a reference encoding",
    "C17": "exhaustive bounded enumeration of files and of all operation histories (read, write, search, list) up to a depth on the real C and Go libraries, byte comparison",
    "C18": "exhaustive bounded enumeration of trees x search paths x flags x limits x scopes and of all listing/search histories up to a depth on the real C and Go libraries, each compared with an explicit reference search",
})
NOTE.update({
    "C16": "Exhaustive within the stated bounds; trusts the reference encoding in mc/binlib.py and the sanitizers. Bounds: <=6 nodes per shape, text lengths around 0/64/128/255/512/65535 in 1, 2 and 4 byte characters.",
    "C17": "Exhaustive within the stated bounds; only files written by the exporter count as valid. Bounds: histories of <=4 operations over two files and two targets.",
    "C18": "Exhaustive within the stated bounds; trusts the 30 line reference search in mc/binlib.py. Bounds: trees of <=6 nodes, paths of <= depth+1 segments, histories of <=4 calls.",
})

_X = "exhaustive bounded enumeration of models x options exported on the real CLI; every output is parsed{} by an independent reader and compared with an explicit reference model"
T.update({
    "C19": _X.format(" and linked by the rules of proto3"),
    "C20": _X.format(" and validated as GraphQL schema"),
    "C21": "exhaustive bounded enumeration of models x options exported on the real CLI; every schema is checked against the meta schema and decides every candidate value at every node, compared with the reference model",
    "C22": _X.format(" and name-resolved by the rules of IDL 4.2"),
})
_XB = "Exhaustive within the stated bounds on the real CLI; trusts the reference model in mc/ref.py and the reader in the check module. "
NOTE.update({
    "C19": _XB + "The proto3 reader and linker was validated against protoc 3.21 on every generated file (DESIGN.md). Bounds: <=4 nodes per shape (thorough 5), <=3 structs in 6 places.",
    "C20": _XB + "Reader: graphql-core. Bounds: <=4 nodes per shape (thorough 5), all texts of the alphabet, <=2 (3) additional fields.",
    "C21": _XB + "Validator: jsonschema (Draft 2020-12). Values outside of the range of the datatype itself are not judged. Bounds: <=4 nodes per shape (thorough 5), all datatypes and option combinations.",
    "C22": _XB + "Bounds: <=4 nodes per shape (thorough 5), every keyword of IDL, C and Python in up to 4 spellings, <=3 structs in 6 places.",
})

T["C23"] = _X.format(" and type-checked by the rules of Go")
NOTE["C23"] = _XB + "The Go reader and checker agreed with go/types on every output of the original and of the repaired exporter. Bounds: <=4 nodes per shape (thorough 5), <=3 structs in 6 places, single changes of each instance."
T["C24"] = _X.format("")
NOTE["C24"] = _XB + "Bounds: <=4 nodes per shape (thorough 5), 40 texts, <=2 (3) deprecated nodes, all sets of template paths."
T["C25"] = "exhaustive bounded exploration of invalid inputs and of single faults (every file operation of every exporter x every fault mode, injected below libc) on the real CLI, with the directory compared before and after"
NOTE["C25"] = "Exhaustive within the stated bounds on the real CLI. File operations are intercepted at the libc interface; faults of the interpreter itself (memory, signals at arbitrary instructions) are out of scope."
T["C26"] = _X.format(" as Turtle, following the references from the root aspect")
NOTE["C26"] = _XB + "Turtle parser: rdflib. Bounds: <=4 nodes per shape (thorough 5), 4 split modes, instances up to 3 levels, <=2 (3) selected paths and deprecated nodes. Names of URIs are not judged, only their identity."
