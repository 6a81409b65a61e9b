#!/usr/bin/env python3
"""Source of /verif/properties.jsonl (run: python3 tools/gen_properties.py)."""
import json, os
P = []
def prop(id, title, statement, over, text, why, files, mech, state=None, observe=None):
    d = dict(id=id, title=title, statement=statement,
             quantifier=dict(over=over, text=text), why_tests_cant=why,
             anchors=dict(files=files, mechanism=[dict(name=n, where=w) for n, w in mech]))
    if state: d["anchors"]["state"] = [dict(name=n, meaning=m, where=w) for n, m, w in state]
    d["anchors"]["observe_at"] = observe or ["public API return values"]
    d["anchors"]["hook_needed"] = None
    assert len(title) <= 80, (id, len(title))
    P.append(d)

S = "src/decoding_sci.rs"; E = "src/decoding_sci_ext.rs"; T = "src/special_types.rs"; I = "src/special_indicators.rs"
C = "src/cards.rs"; L = "src/lib.rs"; M = "src/traits.rs"; P_ = "src/propagated.rs"; ST = "src/storage_data.rs"
U = "src/unchecked_extrinsic.rs"; CO = "src/compacts.rs"; A = "src/additional_types.rs"; B = "src/printing_balance.rs"; ER = "src/error.rs"

prop("C01", "Typed decoding reproduces every encoded value",
 "For every well-formed type description and every value of a type in it, decoding the SCALE encoding of that value as that type succeeds, uses exactly the encoded bytes, and yields that value: every primitive, text, bit, hash and key at full precision, every sequence, array, tuple and struct element in order and count, and every enum variant as selected. Names of fields, variants and pallets in the result are the ones given by the metadata for exactly those items.",
 ["inputs", "configurations"], "all well-formed type registries (synthetic and the shipped real ones), all values of every type in them including compact, recursive, empty, long and nested ones",
 "Existing tests decode a few dozen hand-picked byte strings from real chains; the claim ranges over all type shapes and values (integer widths, compact modes, lengths around encoding boundaries, variant indices, recursion).",
 [S, T, CO, A], [("general typed decoder", S), ("fixed-length and compact primitives", T), ("compact search", CO)])

prop("C02", "Accepted data is fully accounted for; malformed data is rejected",
 "Whenever a byte string is accepted as a complete value of a type, the parsed result and the type description determine exactly those bytes (re-encoding the result gives the input back, up to padding bits of a bit sequence and saturation of compact per-thing values), so no byte is dropped, invented, reordered or read twice. A byte string that is not the encoding of any value of the type (truncated, with bytes left over, non-canonical compact, invalid bool, char, text, variant index, era or per-thing) is rejected with an error.",
 ["inputs"], "all byte strings (valid, mutated, truncated, extended, random) against all types of all well-formed registries",
 "Tests contain only a handful of malformed inputs; acceptance must be exact for every byte string.",
 [S, T, L, CO, A], [("position tracking through every decoder", S), ("all-data-used check", L), ("validity checks of primitives", T)])

prop("C03", "No input makes the parser panic, abort or show undefined behaviour",
 "With any well-formed metadata, no input bytes, however truncated, corrupted or hostile, make any entry point (typed decoding, signable transactions marked or unmarked, unchecked extrinsics, storage entries, and turning any result or error into cards and text) panic, abort, overflow or execute undefined behaviour; every outcome is a value or an error. (Nesting of data or indent levels beyond what a normal stack and a 32-bit counter hold are outside of this.)",
 ["inputs", "configurations"], "all byte strings, all entry points, all display settings (indent, decimals, units, address prefix), 64-bit and 32-bit targets",
 "Tests exercise mostly valid inputs; absence of panics is a claim about all inputs, arithmetic overflow included.",
 [L, S, E, T, U, ST, CO, C, B], [("bounds-checked slicing through the buffer", "external-memory-tools via " + S), ("expect()/unwrap() sites with local preconditions", T), ("length arithmetic", L)])

prop("C04", "Memory and work are bounded by the data present, not by claimed lengths",
 "Memory held and steps performed while parsing stay within a fixed multiple (set by the type description) of the number of input bytes actually present. A length, count or size merely claimed inside the data, however large, never causes allocation or iteration beyond what the present bytes justify.",
 ["inputs"], "all byte strings, in particular those claiming sequence, text, bit-sequence, call and extrinsic lengths up to 2^32-1 with few bytes behind them",
 "Tests have no hostile lengths and measure neither allocation nor steps.",
 [S, T, CO, U, L], [("element-by-element decoding without pre-allocation", S), ("length check before copy", S), ("bounded compact search", CO)],
 observe=["thread-local counting allocator", "access log of the instrumented buffer and registry"])

prop("C05", "Call and extensions of a signable transaction never share bytes",
 "In a signable transaction with a call-length prefix, the call is decoded from exactly the announced call bytes and the extensions from exactly the remaining bytes: neither outcome depends on the content of the other part, the call is reported decoded only if it ends exactly at the announced boundary, and extensions are reported only if they end exactly at the end of the data. A prefix announcing more bytes than present is rejected.",
 ["inputs"], "all transactions, all announced lengths (exact, shorter, longer, huge), all contents on both sides of the boundary, all metadata",
 "Tests use correctly prefixed transactions; isolation is a relation between pairs of inputs.",
 [L, S, E], [("marking of call and extensions boundary", L), ("length-limited view for the call", L), ("end-of-call and end-of-data checks", S + ", " + E)],
 observe=["public API return values", "access log of the instrumented buffer"])

prop("C06", "Signable transaction passes only with matching chain and version",
 "A signable transaction is parsed successfully only if its extensions contain exactly one spec version equal to the one in the metadata, exactly one genesis hash equal to the expected one when one is supplied, at most one era and at most one block hash, and, when the era is immortal and a block hash is present, a block hash equal to the genesis hash. Every transaction fulfilling these conditions and otherwise well-formed is accepted, with all extensions reported in metadata order: first all explicit parts, then all additional signed parts.",
 ["inputs", "configurations"], "all extension sets and orders, integer widths, wrappers and values of version, genesis hash, era and block hash; with and without expected genesis hash",
 "Tests cover a few fixed extension sets of real chains, with a single mismatch example for each condition.",
 [E, I, M], [("extension collection and checks", E), ("identifier-based tagging", I), ("metadata version constant", M)],
 state=[("collected era, hashes, version", "what has been seen in the extensions", E)])

prop("C07", "Undecodable call does not hide the extensions; both formats agree",
 "With a length-prefixed signable transaction whose extensions are correct, the extensions are always returned, identical whether or not the call decodes, and a faulty call is reported as an error in the call part only; faulty extensions always fail the whole. The same call and extensions without a length prefix give the same call and extensions, and any fault there, in the call or in the extensions, is an error of the whole.",
 ["inputs"], "all pairs of call bytes (valid or corrupted) and extension bytes (valid or corrupted), all metadata",
 "Existing tests compare only a few valid transactions across the formats.",
 [L, S, E], [("independent results for call and extensions", L), ("unmarked parsing", L)])

prop("C08", "Unchecked extrinsics decode completely or are rejected",
 "An unchecked extrinsic is accepted only if its length prefix equals exactly the bytes that follow, its version byte carries the metadata extrinsic version in the low 7 bits, and all bytes are used by the parts the high bit calls for: address, signature, extra and call when signed, call alone when unsigned, in this order. Accepted parts equal the result of decoding each part on its own, every well-formed extrinsic is accepted, and anything else is an error.",
 ["inputs", "configurations"], "all lengths, version bytes, signed and unsigned contents, trailing and missing bytes, all metadata of both supported versions",
 "Tests contain a handful of valid extrinsics and no trailing or missing bytes inside the length prefix.",
 [U, M], [("length and version checks", U), ("sequential part decoding", U), ("type parameters lookup", M)])

prop("C09", "Storage keys and values decode fully and key hashes are verified",
 "A storage entry is accepted only if its key consists exactly of the 32-byte prefix followed, for maps, by one part for each hasher in order: for the two concatenating hashers a hash that really is the hash of the following key bytes, for identity the key itself, for the other hashers a hash of the right length reported verbatim with its key type. Every well-formed key and value is accepted with all key parts decoded in order, the value decoded completely as the declared type and the entry documentation attached; wrong hash bytes, missing or extra bytes and hasher counts not fitting the key type are errors.",
 ["inputs", "configurations"], "all seven hashers alone and in tuples of any length and order, all key and value types, all corruptions of hash, key and value bytes",
 "Tests cover a few entries of one chain; hashers in unusual tuple positions and corrupted hashes are not reached.",
 [ST, L], [("hash cutting and checking", ST), ("all key bytes used check", ST)])

prop("C10", "Compact integers: only canonical encodings, exact value and length",
 "Finding a compact integer of any unsigned width at any position yields the encoded value and the position right after it exactly when a canonical encoding of a value fitting that width starts there, whatever follows it; otherwise an error is returned and no position is moved. Searching never needs more bytes than the longest possible encoding.",
 ["inputs"], "all widths (8 to 128 bits), all four encoding modes with boundary values, all non-canonical forms, all positions and following bytes, truncations",
 "Tests only meet compacts incidentally inside few real transactions.",
 [CO], [("shortest decodable slice search", CO)])

prop("C11", "Broken or cyclic type descriptions end in an error, never a hang",
 "With a malformed type description (types referring to missing types, references that cycle without consuming data, compact over something with no compact form, bit sequences over wrong store or order types), parsing any data terminates within a number of steps bounded by data and description, and returns an error or a value, never panicking. A type whose resolution would cycle without consuming data is reported as an error, as is a missing type that is needed, while legitimate recursion through sequences and enums is decoded.",
 ["inputs", "configurations"], "all malformed registries: dangling ids, cycles of any length through structs, tuples, arrays, compacts and sequences elements, ill-typed compacts and bit sequences; any data",
 "Real metadata in tests is well-formed; the cycle detection is never exercised on more than isolated shapes.",
 [P_, S, I, M], [("visited type id check on each data position", P_), ("element type resolution", S), ("registry resolution errors", M)],
 observe=["step-counting registry and buffer"])

prop("C12", "Results do not depend on how data and metadata are stored",
 "Any conforming storage of the input bytes (slice, copied, paged, length-limited view) and of the type registry or metadata (in memory or fetched type by type) gives the same results, values or errors, for every operation. The parser asks storage only for positions inside the announced length, or handles the refusal as an ordinary data error.",
 ["inputs", "configurations"], "all operations and inputs, several storage implementations with different read-buffer types and internal layouts",
 "Tests use plain slices and in-memory metadata nearly everywhere.",
 [L, S, M, CO, ST, U], [("all reads go through the buffer trait", S), ("all type lookups go through the registry trait", M)],
 observe=["access log of the instrumented buffer and registry"])

prop("C13", "A storage fault at any access surfaces as an error, never a changed value",
 "If the external memory fails at any single access or from any access on, while reading data or resolving types, the operation returns an error and does not panic; it never returns a value that differs from the one produced without the fault. A repeated attempt after the fault has gone gives the normal result.",
 ["fault_sequences", "inputs"], "every access index of every operation (all entry points), one-shot and persistent faults, on data reads and on type lookups",
 "No test injects storage faults at all.",
 [S, I, ST, L, U, E, CO], [("fallible reads propagated with ?", S), ("specialty detection over fallible reads", I)],
 observe=["fault-injecting buffer and registry"])

prop("C14", "Balances are displayed exactly",
 "For every unsigned integer of any width and every number of decimals, the displayed number together with its unit prefix equals the integer divided by ten to the power of decimals, exactly, with every digit of the integer present. The unit is the supplied unit with one of the documented prefixes, the integer part has one to three digits whenever the range of prefixes allows, and nothing panics for any decimals.",
 ["inputs", "configurations"], "all integers up to 2^128-1 (all digit counts), all 256 decimals values, all units",
 "Tests list specific number/decimals pairs; exactness is needed for each of 39 digit lengths times 256 decimals and any digits.",
 [B], [("placing of the point and of the unit prefix", B)])

prop("C15", "Flat cards carry all parsed data, in order, with right nesting",
 "Turning any parsed result into flat cards keeps every value, field name or number, variant, pallet, call and event name, and element count exactly once and in the order of the data, and indent levels reproduce the nesting so that the tree can be rebuilt; only empty structs and empty tuples produce no card. The starting indent (any that leaves room for the nesting in its type) shifts all cards uniformly and changes nothing else, and cards of a transaction are the concatenation of cards of its parts.",
 ["inputs"], "all parsed results (of all types and values, nested, empty, wrapped single-field), all starting indents",
 "Tests compare the printed text of few transactions.",
 [C, L], [("recursive carding of parsed data", C), ("transaction carding", L)])

prop("C16", "Rendered text shows the card value faithfully",
 "The text of every card states the value it holds with a label of its kind: integers in full decimal, hashes and signatures in full lowercase hex, bits in order, texts unchanged, bytes as text only if valid UTF-8 and in hex otherwise, era phase and period not swapped, currency as formatted number and unit. Addresses are shown in the SS58 form of exactly that key and the requested prefix, and the identicon belongs to that key; text with documentation adds the documentation and paths without altering the value.",
 ["inputs", "configurations"], "all card kinds and values, all address prefixes, indents, decimals and units",
 "Tests check a few rendered lines; many card kinds are never rendered in tests.",
 [C, B], [("card display", C), ("key to address and identicon", C)])

prop("C17", "Values are tagged by meaning exactly where the metadata says so",
 "An integer, text or hash is presented as balance, tip, asset tip, nonce, spec version, tx version, spec name, genesis hash or block hash exactly when the governing field name, field type name or extension identifier is one of the documented ones and the indication reaches it through single-field wrappers and compacts only; multi-field containers and enums stop it, except for asset tips. Currency formatting is applied only to balances inside the documented pallets and to balances and tips in extensions, while elsewhere balances are shown raw; the numeric value is never affected.",
 ["inputs", "configurations"], "all combinations of field names, type names, extension identifiers, wrapper shapes (compact, single-field structs, tuples, sequences) and pallets",
 "Tests see only combinations occurring in a few transactions of a few chains.",
 [I, P_, S, C], [("hint determination", I), ("hint propagation and dropping", P_), ("currency display decision", C)])

prop("C18", "Transaction era decodes and encodes exactly",
 "Every one- and two-byte era encoding decodes to immortal, to the mortal period and phase it encodes, or is rejected, exactly as in the Substrate runtime, consuming one or two bytes respectively; encoding any decoded era gives back the same bytes, and every valid era survives a round trip.",
 ["inputs"], "all 65536 two-byte patterns and all 256 one-byte inputs, all valid period and phase pairs; standalone and inside typed data",
 "Tests contain three patterns.",
 [A, T], [("era codec", A), ("era in typed data", T)])

prop("C19", "Bit sequences decode to exactly the encoded bits on 64- and 32-bit targets",
 "For all four store widths and both bit orders, a bit sequence of any length decodes to exactly the encoded bits in order, consumes exactly the stored elements, and displays the same bits on 64-bit and on 32-bit targets. Truncated or oversized bit sequences are errors, never a panic.",
 ["inputs", "configurations"], "all eight store/order combinations, all bit lengths (around every element boundary), all bit patterns including zero elements, both pointer widths",
 "The tests of the 32-bit path run four fixed patterns on a 64-bit host; lengths and patterns with zero halves are not covered.",
 [S, C], [("bit sequence slicing", S), ("32-bit rearrangement of 64-bit elements", S)],
 observe=["public API return values on x86_64 and, interpreted, on i686"])

prop("C20", "Metadata is interpreted correctly and equally in both versions",
 "Spec name and version are taken from the version constant of the system pallet whatever its integer width, call and extrinsic part types from the extrinsic description, and signed extensions in the listed order; any absence or wrong type of a needed item is the corresponding error. The same runtime described in metadata V14 and V15 gives identical parsing results for transactions, extrinsics and storage.",
 ["configurations", "inputs"], "all metadata of both versions: real ones, and synthesised with missing, duplicated, reordered or ill-typed constants, pallets, type parameters and extensions",
 "Tests use a few real metadata files and one spoiled digest; the failure paths are mostly not reached.",
 [M], [("version constant search and interpretation", M), ("extrinsic type parameters", M)])

prop("C21", "Results are deterministic and the same in all build configurations",
 "Repeating an operation on the same input, in the same or in concurrently running threads sharing one metadata, gives identical results. Builds with and without the standard library, with and without overflow checks and debug assertions, give identical results, values, errors, cards and texts, apart from the identicon image; 64-bit and 32-bit builds accept the same data and give the same values and kinds of errors.",
 ["configurations", "inputs", "schedules"], "all operations and inputs, repeated, with 8 threads, with and without the default features, on both pointer widths",
 "Tests run with default features in one configuration and never compare runs.",
 [L, C, S, ER], [("no hidden state", L), ("feature gates", "Cargo.toml, " + C)],
 observe=["digest streams of results of two builds", "thread results"])

prop("C22", "Errors tell the truth about what failed and where",
 "When parsing fails, the error names the first failing point in decoding order: its position is the input position of the item that could not be decoded (or of the first unused byte), its kind and type are those of that item, and reported lengths, ids, hashes, versions and ranges are those really found and expected. The printed error contains these values.",
 ["inputs"], "all single and multiple corruptions of valid data for all entry points, all error kinds",
 "Tests compare a few error texts for fixed inputs.",
 [ER, S, T, U, E, ST, CO], [("positions captured at the failing item", S), ("error texts", ER)])

prop("C23", "Decoding does not depend on surrounding data or position",
 "A value decoded at any offset inside larger data gives the same result as when decoded alone and moves the position by exactly its encoded length, whatever bytes stand before it and after it. Errors for faulty data at an offset are those for the data alone, with positions shifted by the offset.",
 ["inputs"], "all types, values and corrupted values, all offsets (including beyond 64 KiB) and all surrounding bytes",
 "Tests decode mostly from position zero with nothing following.",
 [S, T, CO, L], [("relative position arithmetic", S), ("position-based entry point", L)])

prop("C24", "Calls, events and signatures are recognised only when they are that",
 "A type is presented as a call or event exactly when it is so named, is an enum, and the variant selected by the data has a single field whose type is an enum named the same way; a multi-signature is presented as a signature of a scheme exactly when the selected variant is a single field of that scheme and length; keys, signatures, accounts and hashes only under their exact names and paths. In every other case the data is decoded by its plain structure with nothing lost, and only something presented as a call passes as the call of a transaction or extrinsic.",
 ["inputs", "configurations"], "all near-miss type descriptions: other names, namespaces, field counts, field types, lengths, kinds; all data",
 "Tests only meet the regular shapes of real metadata.",
 [I, S, U], [("name-based hint, structure check", I), ("call acceptance", S + ", " + U)])

prop("C25", "Documentation and type paths stay attached to the data they describe",
 "Every parsed item carries exactly the non-empty documentation and paths of the types it was resolved through, in order from outer to inner, and every field, variant, pallet and element carries its own documentation; nothing is lost, duplicated or attached to another item. In cards and in text with documentation the same information appears on the card of that item (a call or event card shows that of its variant, pallet and fields, as documented, not that of the outer Call or Event type).",
 ["inputs", "configurations"], "all type descriptions with documentation and paths at any subset of types, fields and variants, all values",
 "Tests check printed documentation for a few real calls only.",
 [S, C, P_], [("info collection while resolving", P_), ("element info", S), ("flattening into cards", C)])

prop("C26", "Public stages, called on their own, act as they do inside the whole",
 "Each public stage of decoding, called directly on any data, type description and inherited state, gives exactly what it contributes to the whole operation: decoding a type given resolved or by id, with an inherited meaning, compact state, ids already passed and documentation already collected, gives the value, documentation, position or error that the same data has at such a place. Decoding of primitives, selection of an enum variant, peeling of single-field wrappers and compacts, bit order and the end of a bit sequence, recognition of meanings (by field, type path and extension), of signatures and of special types, and collection of documentation follow the same rules on their own. Recognition that the data or the storage cannot confirm gives no special type and no error.",
 ["inputs", "configurations", "faults"], "all type descriptions (well-formed, near-miss, cyclic, incomplete), all data and offsets, all inherited states, storage faults during recognition",
 "Tests call the whole operations from a fresh state; the states in between and the public stages alone are not met.",
 [S, P_, I], [("decode_with_type, pick_variant, husk_type, find_bit_order_ty, BitVecPositions", S), ("Propagated, Checker, SpecialtySet", P_), ("hints and checked special types", I)])

prop("C27", "Records of settings and metadata survive encoding and decoding",
 "Encoding any display settings, spec name and version, signed extension entry or set of extrinsic types gives the plain SCALE encoding of their fields in order, and decoding it, alone or followed by other data, gives the same record and uses exactly those bytes; incomplete data are refused, copies are equal and records that differ in any field are not. An extension entry taken from metadata of either version keeps its identifier and both types. Parsing and display with records that went through encoding give the same results as with the original ones.",
 ["inputs"], "all contents of the records (all prefixes, decimals, texts, ids), all cuts, sequences and lists, all operations that use them",
 "Tests never encode or decode these records, which exist to be sent to devices and stored.",
 [M, L], [("derived encoding of metadata records", M), ("derived encoding of display settings", L), ("conversion from V14 and V15 entries", M)])

out = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "properties.jsonl")
with open(out, "w") as f:
    for d in P: f.write(json.dumps(d, ensure_ascii=False) + "\n")
print(len(P))
