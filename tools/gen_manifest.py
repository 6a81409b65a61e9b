#!/usr/bin/env python3
"""Source of /verif/MANIFEST.json (run: python3 tools/gen_manifest.py)."""
import json, os
C = {}
def check(id, technique, note, level="exploration"):
    C[id] = dict(property=id, quick_cmd=f"./check.sh {id} quick", thorough_cmd=f"./check.sh {id} thorough",
                 technique=technique, level=level, level_note=note)

REF = "Observes the real public API on generated inputs; trusts the independent reference decoder in harness/src/model.rs and scale-info, bitvec and parity-scale-codec. Not exhaustive: bounded, seeded workloads."
check("C01", "online oracle: generated type registries and values, expected value compared with the decoded one", REF)
check("C02", "online oracle: re-encoding of accepted data, reference decoder for rejection, on valid, poisoned, mutated data", REF)
check("C05", "metamorphic monitor: call and extension parts varied independently, boundary accesses compared with a reference", REF)
check("C06", "trace specification of the extension rules evaluated on every parsed transaction", REF)
check("C07", "metamorphic monitor: good/bad call x good/bad extensions x both formats, outcomes compared", REF)
check("C08", "online oracle: reference extrinsic decoder on valid, mutated and re-prefixed extrinsics", REF + " One recorded known finding (bytes left over after the call).")
check("C09", "online oracle: reference storage key decoder with independent hashing", REF + " Trusts sp-crypto-hashing.")
check("C10", "boundary-dense and exhaustive short-input enumeration of compacts against exact arithmetic", "All inputs up to two bytes exhaustively for each width, then boundary values and random; trusts parity-scale-codec's Compact encode only as a second opinion.")
check("C11", "step-budget monitor on instrumented registry and data, hostile type descriptions", "Termination is judged by logical steps counted at the storage boundary, not by wall time; sampled descriptions.")
check("C14", "exact decimal arithmetic oracle over all widths and decimals", "All decimals near every prefix boundary plus random; exact big-integer comparison.")
check("C15", "independent card model, tree rebuilding, indent shifting", REF)
check("C16", "independent text model, SS58 and hex re-decoding of the text, identicon comparison", REF + " Trusts plot_icon's generator for the identicon of a given key.")
check("C17", "reference propagation of indicators, compared tag by tag", REF)
check("C18", "exhaustive enumeration of all one- and two-byte eras against the Substrate rules", "All 65 536 two-byte prefixes are observed, both decoding and encoding.")
check("C19", "bit-for-bit oracle natively; Miri on i686 runs the 32-bit implementation", "Sampled bit sequences with boundary lengths; 32-bit behaviour is observed in Miri's interpreter.")
check("C22", "reference decoder predicting first failing point, error text inspected", REF)
check("C23", "metamorphic monitor: decoding inside surrounding data against decoding alone", REF)
check("C24", "reference recognition of calls, events and keys, near-miss type descriptions", REF)
check("C25", "leaf trace of documentation compared with the result, cards and text", REF)
check("C03", "panic, overflow and abort monitor (overflow checks and debug assertions on) over every entry point, card and text; Miri for x86_64 and i686; nesting probes in a child process", REF + " Undefined behaviour is looked for by Miri on a few thousand operations; nesting to 100000 levels is a recorded known finding.")
check("C04", "counting allocator and access counters against budgets in the bytes present", "Peak memory, total memory, accesses and steps are compared with generous multiples of what the reference decoder needs; sampled hostile claims. One recorded known finding (elements without bytes).")
check("C12", "the same operation over several instrumented conforming storages, results compared, refused accesses reported", REF)
check("C13", "fault injected at every single access index (one-shot and persistent) of every operation", "Every access index of each generated operation (a bounded number of evenly and boundary-placed indices for very long ones); operations are sampled.", "fault_enumeration")
check("C20", "reference interpretation of metadata; generated metadata of both versions, spoiled one item at a time; results of both versions compared", REF)
check("C21", "repetition, 8 threads with injected yields (interleavings counted), digest comparison of two builds, Miri i686 results compared with native ones", REF + " Threads interleave at storage accesses only.")
check("C26", "online oracle: the public stages called directly with generated inherited states, compared with the reference rules", REF + " Signatures of the public functions are taken as they are; built apart (feature blocks) so that other checks do not depend on them.")
check("C27", "online oracle: independent encoder, decoding alone, in sequence and cut; whole operations repeated with records that were encoded", REF)
exec(open(os.path.join(os.path.dirname(__file__), "manifest_more.py")).read()) if os.path.exists(os.path.join(os.path.dirname(__file__), "manifest_more.py")) else None
root = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..")
ids = [json.loads(l)["id"] for l in open(os.path.join(root, "properties.jsonl"))]
m = dict(version=1, setup_cmd="./setup.sh", checks=[C[i] for i in ids if i in C],
         not_applicable=[dict(property=i, reason="check under construction") for i in ids if i not in C],
         notes="No hooks in /repo: everything is observed through the public traits (buffer, registry, metadata), a counting allocator and the public results.")
json.dump(m, open(os.path.join(root, "MANIFEST.json"), "w"), indent=1)
