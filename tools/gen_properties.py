#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (the single place where the property texts live)."""
import json, os
P = []
V = "scale-decode/src/visitor/"
T = V + "types/"
I = "scale-decode/src/impls/mod.rs"
D = "scale-decode-derive/src/lib.rs"
def p(id, title, statement, over, text, why, files, mech, state=(), observe=()):
    assert len(title) <= 80, (id, len(title))
    P.append(dict(id=id, title=title, statement=statement,
        quantifier=dict(over=over, text=text), why_tests_cant=why,
        anchors=dict(files=files,
            state=[dict(name=a, meaning=b, where=c) for a, b, c in state],
            mechanism=[dict(name=a, where=b) for a, b in mech],
            observe_at=list(observe), hook_needed=None)))

p("C01", "Decoding reports exactly the SCALE value that the bytes encode",
  "For every type the resolver can describe and every byte string, a visitor is handed exactly the value those bytes encode under SCALE: the right kind, the right contents in the right order, the right path, field and variant names, the right variant index and the right type ID, at every nesting level. Bytes that are not a valid encoding (cut short, a bool other than 0/1, an invalid char, invalid UTF-8, a non-canonical or overflowing compact, an unknown variant index) give an error when that part is read, never a value.",
  ["inputs", "programs"], "all types built from every constructor and primitive x all byte strings",
  "Unit tests round-trip a few dozen hand-picked values of hand-picked types; they reach neither other type shapes, nor invalid or boundary encodings, nor the names and type IDs reported at depth.",
  [V+"decode.rs", T+"composite.rs", T+"variant.rs", T+"sequence.rs", T+"array.rs", T+"tuple.rs", T+"str.rs"],
  [("one visit_* arm per resolved kind, reading the primitive with the codec", V+"decode.rs"),
   ("variant lookup by leading index byte", T+"variant.rs"), ("field list and path captured in declaration order", T+"composite.rs")],
  [("is_compact", "whether the value being read is compact encoded", V+"decode.rs")], ["visitor callbacks"])

p("C02", "A successful decode consumes exactly the bytes of the value",
  "Whenever decoding a value succeeds, the input is left pointing just after that value's own encoding, so any number of values laid end to end decode one after the other. Whatever bytes follow the value, their content and their number, never change the result or how much is consumed; cutting any bytes off the end of the value's encoding makes a full decode fail.",
  ["inputs", "programs"], "all types x all valid encodings x all truncations x all trailing data",
  "Tests decode buffers that hold exactly one value and nothing else, so neither trailing data nor truncation at every byte is ever seen.",
  [V+"decode.rs", T+"composite.rs", T+"str.rs", T+"bit_sequence.rs"],
  [("input cursor advanced by each primitive read and by skip_decoding_and_return!", V+"decode.rs")],
  [("data", "the caller's input slice, advanced in place", V+"decode.rs")], ["input slice after the call"])

p("C03", "Whatever a visitor leaves undecoded is skipped",
  "On well-formed bytes a visitor may decode all, some or none of a composite, tuple, variant, sequence, array, string or bit sequence, by decoding items, iterating, skipping or any mixture, and may ignore failures of individual items; once it returns successfully the input is positioned just after the whole value. Everything decoded afterwards (later siblings, outer values, following values) is therefore the same as if the visitor had decoded everything.",
  ["programs", "inputs", "histories"], "all visitor behaviours at every container x all types x all well-formed values",
  "Only two or three fixed visitors with a fixed partial-consumption pattern are tested.",
  [V+"decode.rs", T+"composite.rs", T+"tuple.rs", T+"sequence.rs", T+"array.rs", T+"variant.rs", T+"bit_sequence.rs"],
  [("skip_decoding after every container visit", V+"decode.rs"), ("IgnoreVisitor", V+"mod.rs")],
  [("next_field_idx / remaining / item_bytes", "cursor inside a container", T)], ["input slice", "sibling values"])

p("C04", "No input makes decoding panic, overflow, abort or run away",
  "For any bytes, any type information (including unknown type IDs, failing resolvers and claimed lengths far beyond the input) and any built-in or derived target type, decoding returns a value or an error: it never panics, never overflows an integer, never exhausts the stack for values whose nesting depth is bounded, and never keeps looping beyond the input for elements that occupy bytes. The input is always left as a suffix of what it was, also after an error.",
  ["inputs", "programs"], "all byte strings x all types (bounded nesting) x all built-in/derived target types and visitors",
  "Tests feed valid data almost exclusively; hostile lengths and boundary values at each position are not enumerated.",
  [V+"decode.rs", T+"str.rs", T+"sequence.rs", T+"bit_sequence.rs", I],
  [("checked slicing (get) for string and bit sequence ends", T+"str.rs"), ("fallible number conversion", I)],
  (), ["process status", "input slice"])

p("C05", "Memory use is bounded by the input, not by lengths it claims",
  "Decoding allocates memory proportional to the bytes actually present in the input: a length prefix that claims more items, characters or bits than the input holds leads to an error without first reserving space for the claimed amount. This holds for the built-in collection, string, bit-sequence and array targets and for derived types containing them, when elements occupy at least one byte.",
  ["inputs"], "all claimed lengths up to the maximum x truncated payloads x all collection-like targets, nested",
  "No test measures allocation, and none claims a length it does not supply for each target.",
  [I, T+"str.rs", T+"bit_sequence.rs", T+"sequence.rs"],
  [("collections are built through an iterator without a size hint", I)], (), ["allocator"])

p("C06", "Container cursors stay in step under any sequence of operations",
  "On the composite, tuple, variant, sequence and array handles given to a visitor, after any sequence of decode-item, iterate, peek, skip and convert-to-tuple operations, the reported remaining count, emptiness, next field name and undecoded bytes describe exactly the items not yet read, the field list stays that of the whole value, items come out in order exactly once, and operations past the end return nothing. After an item fails, a composite, tuple or variant yields no more items while a sequence or array carries on with the next one; skipping afterwards still ends just after the value when the bytes are well formed.",
  ["histories", "inputs"], "all operation sequences up to the item count plus two x all container kinds x valid and truncated data",
  "Tests use each handle in one fixed pattern; interleavings of the operations and use after failure are not explored.",
  [T+"composite.rs", T+"tuple.rs", T+"sequence.rs", T+"array.rs", T+"variant.rs", V+"mod.rs"],
  [("cursor moved only after a successful item", T+"composite.rs"), ("remaining decremented before the result is returned", T+"array.rs")],
  [("next_field_idx", "index of next field", T+"composite.rs"), ("remaining", "items left", T+"array.rs"), ("item_bytes", "undecoded bytes", T)],
  ["handle accessors"])

p("C07", "Iterated items can be decoded later, repeatedly, with the same result",
  "Each item obtained by iterating over a composite, tuple, variant, sequence or array carries exactly the bytes of that item's own encoding, its type ID, its name and whether it is compact encoded. Decoding such an item by visitor or into a target type, at once or later, any number of times and in any order, on clones or originals, gives the same value as decoding it in place.",
  ["histories", "inputs", "programs"], "all container kinds (compact-encoded ones included) x all orders and repetitions of item decodes",
  "Tests decode each iterated item at most once, in order, and never for compact-encoded tuples.",
  [T+"composite.rs", T+"tuple.rs", T+"sequence.rs", T+"array.rs"],
  [("item holds its own byte range and decodes from a copy of the slice", T+"composite.rs")],
  [("is_compact", "carried with the item", T+"tuple.rs")], ["item accessors and decode methods"])

p("C08", "A visitor's own error is what the caller gets back",
  "When a visitor method returns an error, that very error is what decoding returns, even if the bytes the visitor left unread are malformed or missing; errors found while skipping leftovers are reported only if the visitor succeeded. This holds for every kind of value visited, at any depth, and also when decoding directly from a list of fields.",
  ["programs", "inputs", "fault_sequences"], "every kind of value x failing at every visit x every malformation of the remaining bytes",
  "No test combines a failing visitor with malformed remaining bytes.",
  [V+"decode.rs", I, D],
  [("visitor errors prioritised over skip errors", V+"decode.rs")], (), ["returned error"])

p("C09", "Numbers convert exactly or fail as out of range",
  "Decoding any integer (plain or compact, any width or signedness up to 128 bits, also inside single-field wrappers) into any built-in integer, size or non-zero target gives the mathematically equal value when the target can represent it. Otherwise it fails with an out-of-range error naming the value; it never wraps, truncates or changes sign, and non-zero targets reject zero.",
  ["inputs"], "all source integer types x all target integer types x all values (exhaustive to 16 bits, boundaries beyond)",
  "Tests try a handful of small positive values per pair.",
  [I], [("fallible conversion per visited integer type", I)], (), ["DecodeAsType result"])

p("C10", "Compact encoding is transparent to every target at any nesting",
  "Wherever the type information says a value is compact encoded (directly, or as a single-field composite or tuple around an unsigned integer, nested to any depth), every target type that can take the plain value takes the compact one with the same result, including through boxes, shared pointers, copy-on-write, one-element tuples, error-converting visitors and derived wrappers. Types that cannot be compact encoded give an error rather than a value.",
  ["inputs", "programs"], "all compact-able types nested to depth 3+ x all wrapper targets x all compact length modes",
  "Tests cover compact integers and a few struct nestings with a single target each.",
  [V+"decode.rs", V+"mod.rs", I, T+"composite.rs", T+"tuple.rs"],
  [("is_compact flag threaded through containers and items", V+"decode.rs")],
  [("is_compact", "compactness of the value being read", V+"decode.rs")], ["DecodeAsType result"])

p("C11", "Decoding agrees with the static codec for built-in Rust types",
  "For every built-in type that has both a static SCALE codec and type information of the same shape (string-keyed maps, which take named fields instead, and tuples of marker types are not), decoding a statically encoded value by its own type information gives back an equal value and consumes everything. On arbitrary bytes, decoding by type information and the static decoder agree on acceptance, value and bytes consumed.",
  ["inputs", "programs"], "all built-in Rust types and nestings of them x all values / byte strings in the bound",
  "Round-trip tests exist for single values only and never compare behaviour on bytes that were not produced by the encoder.",
  [V+"decode.rs", I], [("codec used for primitives; own code for containers", V+"decode.rs")], (), ["DecodeAsType vs codec::Decode"])

p("C12", "Single-field wrappers are transparent for built-in targets and enums",
  "Decoding into a built-in scalar, string, bit-sequence, sequence-like, optional or result target, or into a derived enum, looks through any number of nested single-field composites and tuples (named or not) around the source and gives the same value and consumption as the unwrapped source. A composite or tuple with any other number of fields is rejected by those targets.",
  ["programs", "inputs"], "all such targets x all wrapper stacks up to the depth bound x all inner values",
  "Tests wrap one or two targets once.",
  [I, D], [("visit_single_field_composite_tuple_impls!", I)], (), ["DecodeAsType result"])

p("C13", "Sequences, arrays and tuples map to Rust collections item by item",
  "Sequences and arrays decode into vectors, deques, lists, heaps, sets and fixed arrays with every item converted, in order, nothing dropped or added (sets and heaps by their ordering); tuples and composites decode into tuples of the same length position by position, for every supported length. A different length gives a wrong-length error stating both lengths, never a partial or padded value.",
  ["inputs", "programs"], "all collection and tuple targets (lengths 0..20) x all source kinds and lengths",
  "Tests use a few lengths and element types, and hardly any length mismatch.",
  [I], [("decode_items_using + collect", I), ("tuple_method_impl! length check", I)], (), ["DecodeAsType result"])

p("C14", "Struct fields and map keys are matched by name",
  "A derived struct with named fields takes each field from the source field of the same name, whatever the order of the source fields and whatever extra ones exist; when source fields are unnamed it and tuple structs match by position with an exact count; string-keyed maps receive exactly the named fields. A missing field gives a cannot-find-field error with its name, and fields marked as skipped are never read and take their default value, whatever other attributes they carry.",
  ["programs", "inputs"], "all struct shapes in the bound (arity, names, skip masks) x all source field subsets, orders and extras",
  "Tests derive a dozen structs and decode each from one or two source shapes.",
  [D, I], [("fields collected by name before conversion", D), ("skip attribute parsing", D), ("map insertion by peeked name", I)],
  (), ["DecodeAsType result"])

p("C15", "Enums, options and results are matched by variant name",
  "A derived enum, optional or result target is chosen by the source variant's name, never by its index or position, and that variant's fields are then matched like those of a struct. A source variant whose name the target lacks gives a cannot-find-variant error naming it and listing the target's variants.",
  ["programs", "inputs"], "all source enums with permuted/sparse indices, subsets and extra variants x all derived enum shapes",
  "Tests use enums whose indices mostly agree with declaration order.",
  [D, I, T+"variant.rs"], [("comparison of variant names", D)], (), ["DecodeAsType result"])

p("C16", "Decoding from a field list agrees with decoding from a type ID",
  "For every tuple and derived struct, decoding directly from an iterator of fields gives the same value, the same error and the same consumption as decoding a composite with those fields by its type ID. All listed fields are consumed, including those the target ignores.",
  ["programs", "inputs"], "all field lists in the bound (named, unnamed, mixed, empty, > 16) x all tuple/struct targets x valid and malformed bytes",
  "Tests decode a few structs from their own field list with exact data only.",
  [I, D], [("DecodeAsFields delegating to visit_composite", I)], (), ["DecodeAsFields vs DecodeAsType"])

p("C17", "The outcome does not depend on which resolver describes the types",
  "Two resolvers that describe the same types, with whatever kind of type IDs and numbering, lead to the same values, errors, consumption and (translated) type IDs. An unknown type ID or a resolver failure anywhere in a type surfaces as an error naming the cause, exactly when a value of that type has to be read.",
  ["configurations", "inputs"], "all resolver implementations/ID kinds in the bound x all types, with unknown IDs or failures at every position",
  "All tests use one resolver with integer IDs and complete registries.",
  [V+"decode.rs", "scale-decode/src/lib.rs", I], [("generic TypeResolver; resolver error mapped to a decode error", V+"decode.rs")], (), ["results under several resolvers"])

p("C18", "Visitors can take over decoding, and adapters add nothing of their own",
  "A visitor that takes over a value through the bail-out hook has its result returned unchanged and the input left exactly where it put it; one that declines is visited as usual with whatever it already consumed gone. The hook runs once for every value at every level, and the error-converting adapter and the result-mapping helpers pass values, errors and consumption through unchanged for every kind of value.",
  ["programs", "inputs"], "all hook behaviours at every value (decline, decline after consuming, take over, fail) x all types",
  "One test exercises the hook on one type.",
  [V+"decode.rs", V+"mod.rs"], [("unchecked_decode_as_type called before resolving", V+"decode.rs"), ("VisitorWithCrateError", V+"mod.rs")], (), ["result and input"])

p("C19", "Bit sequences give back exactly their bits in every storage format",
  "For all store widths and bit orders, a bit sequence of any length yields exactly the encoded bits in order and occupies exactly its length prefix plus whole store units, whether it is decoded, skipped, or asked where it ends before, after or without decoding. Bit sequences cut short give an error.",
  ["inputs", "configurations"], "8 formats x all lengths around store multiples and length-prefix modes x bit patterns x all truncations",
  "Tests check a handful of lengths without trailing data or truncation.",
  [T+"bit_sequence.rs", V+"decode.rs", I], [("length computed from the format's decoder", T+"bit_sequence.rs")], [("bytes_after", "cached end", T+"bit_sequence.rs")], ["decoded bits, bytes_after"])

p("C20", "Errors say where decoding failed, outermost location first",
  "When decoding into a target fails inside nested sequences, arrays, tuples, structs, maps, options or results, the error's location path, as listed and as displayed, names the indices, fields and built-in variants that lead from the outermost value to the failing one, in that order, and only those. Adding context to an error never loses or reorders what is already there, and keeps its kind.",
  ["programs", "inputs"], "all nestings of located targets to the depth bound x failure at every leaf",
  "No test looks at the path of an error nested more than one level deep.",
  ["scale-decode/src/error/mod.rs", "scale-decode/src/error/context.rs", I, D], [("at_idx / at_field / at_variant on the way out", I)],
  [("path", "list of locations", "scale-decode/src/error/context.rs")], ["Error::context, Display"])

p("C21", "Borrowed data is zero-copy, and visiting or skipping does not allocate",
  "Strings, item bytes and byte positions handed to a visitor point into the caller's own input and stay usable for as long as the input lives. Visiting, iterating over or skipping any value whose composites and tuples have at most 16 fields and paths at most 5 segments performs no heap allocation of the library's own.",
  ["inputs", "programs"], "all types in the bound x valid values x decode/iterate/skip behaviours",
  "No test measures allocation or pointer identity.",
  [V+"decode.rs", T+"str.rs", T+"composite.rs", T+"tuple.rs"], [("borrowed slices and inline small vectors", T)], (), ["allocator, pointers"])

p("C22", "Decoding is a pure function of bytes, type information and target",
  "The outcome of a decode depends only on its own bytes, type and target: not on what was decoded before, whether earlier decodes failed, whether other decodes are running inside its visitor callbacks or interleaved with them at callback boundaries, or on which thread it runs. Decoding never modifies the resolver or the bytes.",
  ["histories", "schedules"], "all histories up to the bound, all nestings and all interleavings of two decodes at callback points",
  "Every test is a single isolated decode.",
  ["scale-decode/src", V+"decode.rs"], [("no shared mutable state", "scale-decode/src")], (), ["results under histories and schedules"])

p("C23", "Kinds a visitor or target does not handle are announced as such",
  "A value of a kind that a visitor does not implement reaches its catch-all method exactly once and with that very kind, at any depth and through the error-converting adapter; what the catch-all returns is the outcome of visiting that value, and if it succeeds the value is skipped like any other. A visitor that implements no catch-all fails there with an error naming the kind. A built-in or derived target met by a kind of value it cannot be made from fails with the error naming the kind that was found, never with a value.",
  ["programs", "inputs"], "all 21 kinds of value at every position x all subsets of implemented kinds (none, leaves, containers, all) x all targets",
  "A couple of tests look at one unexpected kind for one target.",
  [V+"mod.rs", V+"decode.rs", I], [("default visit_* methods calling visit_unexpected", V+"mod.rs"), ("VisitorWithCrateError forwarding", V+"mod.rs")],
  (), ["visit_unexpected calls, returned error"])

out = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "properties.jsonl")
with open(out, "w") as f:
    for q in P:
        f.write(json.dumps(q) + "\n")
print(len(P), "properties")
