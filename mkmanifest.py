#!/usr/bin/env python3
"""Writes MANIFEST.json from the list below."""
import json, os
TECH = "deterministic simulation with fault injection: seeded search over "
NOTE = ("Seeded random search, not exhaustive: a quick run explores a fixed number of simulated runs that is a function of "
        "VERIF_SEED and the tree. Trusts sha2, fuel-crypto, fuel-types, serde_json, bincode, and the model's statement of the published rules. ")
C = {
 "C01": ("senders, transport fragmentation and stalls, round-trip and refinement against an independent encoder", "Codecs are the real ones; the transport is simulated."),
 "C02": ("crash points, torn and lost writes and re-supply of a log of values", "Every cut offset class of every shape; the disk is simulated."),
 "C03": ("damaged, spliced and hostile messages under a metered, failing allocator", "Memory is bounded by measurement per operation; a hang is 120 s of a single simulated run."),
 "C04": ("aimed wire damage, refinement against an independent decoder", "Where the layout leaves a byte free (padding, high bits) any reading consistent with it is accepted."),
 "C05": ("call sequences, stale and short destination buffers", "Buffers are simulated memory."),
 "C06": ("orders of relaying, signing, executing and restarting parties, ids against an independent model", "Excluded: cached ids of transactions edited after precomputation and not recomputed (documented use)."),
 "C07": ("histories of edits, precomputation, clones, torn decodes and restarts", "Stale caches between an edit and the next precomputation are the documented contract and excluded."),
 "C08": ("executor patches through advertised positions in simulated memory with crashes", "The VM memory is simulated."),
 "C09": ("gossip, restarts, clock jumps and limit changes, verdicts against an independent rule model", "gas_price_factor 0 excluded."),
 "C10": ("signing sessions with stale replies and restarts, then tampering attackers", "Signature recovery itself is fuel-crypto's."),
 "C11": ("ledger histories with cheating wallets, duplicates and crashes before settlement", "The ledger is simulated."),
 "C12": ("histories of checks, conversions, copies and restarts against a model of passed checks", ""),
 "C13": ("charge and refund histories with changing parameters and crashes", "gas_price_factor 0 excluded; where an intermediate product overflows a word while the fee fits, refusal and the exact fee are both accepted."),
 "C14": ("journal crashes, torn and damaged receipts, unknown tags", ""),
 "C15": ("store crashes, torn and stale records, missing settings, cross-form reloads", ""),
 "C16": ("executor crash and retry points, states against a malleability model", ""),
 "C17": ("exchanges between a std process and a no-std (alloc) peer process built from the same tree, with restarts of the peer", "The peer is a separate build of the same crate without std; its allocator and panic handler are the host's."),
 "C18": ("interleaved builder sessions with copies and seeded call orders, against a hand-assembled model", ""),
 "C20": ("announcements of identifiers as text over a garbling network with restarting registries, against an independent grammar", "Accepted short forms (no or one or two digits, a repeated prefix) are left open."),
 "C21": ("parameter changes delivered late, duplicated and reordered to parties that restart from saved copies, against a table of limits", ""),
 "C22": ("a bridge between two chains with duplicated, reordered and altered messages and restarts, against the published formulas and an exactly-once ledger", "The published formula is restated with sha2 directly."),
 "C24": ("pools and indexes fed with near copies in seeded orders with restarts, against content equality of the model", "Storage slots order by key only; their indexes are compared entry by entry."),
 "C25": ("histories of constructions, edits, reloads and queries against the content held by the model", ""),
 "C27": ("interleaved factories over shared seeds and simulated sources that get stuck, with restarts", "The helper crate is compiled from its own source by a manifest of ours, as its own manifest needs a directory named fuel-tx."),
 "C26": ("interleaved draws from simulated random sources that get stuck, with crashes and redraws", "The stream is simulated; the good source is a SplitMix64 counter."),
 "C19": ("reordered, duplicated and re-sent storage entries between deployer, relayer and executor", "Merkle and hash definitions restated independently."),
}
TODO = {k: "check not built yet" for k in C if not os.path.exists(os.path.join(os.path.dirname(__file__), "sim/src")) or
        '"%s"' % k not in "".join(open(os.path.join(os.path.dirname(__file__), "sim/src", f)).read() for f in os.listdir(os.path.join(os.path.dirname(__file__), "sim/src")))}
PURE = " There is no concurrency, time, I/O, fault or history for it to depend on, so there is nothing for a simulator to schedule or inject."
NA = {
 "C23": "The conversion is a pure function of one word." + PURE + " (Result codes in journals are covered by C14.)",
}
NA.update(TODO)
checks = [{
    "property": k,
    "quick_cmd": f"./check.sh {k}",
    "thorough_cmd": f"VERIF_TIER=thorough ./check.sh {k}",
    "technique": TECH + v[0],
    "level": "exploration",
    "level_note": NOTE + v[1],
} for k, v in C.items() if k not in TODO]
json.dump({"version": 1, "setup_cmd": "./setup.sh", "checks": checks,
           "not_applicable": [{"property": k, "reason": r} for k, r in sorted(NA.items())],
           "notes": "No hooks in /repo. Findings repaired in /repo are listed in known-findings.txt. Replay: target/release/sim replay FILE."},
          open(os.path.join(os.path.dirname(os.path.abspath(__file__)), "MANIFEST.json"), "w"), indent=1)
