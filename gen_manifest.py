#!/usr/bin/env python3
"""Writes MANIFEST.json."""
import json

T = {
 "C01": ("runtime monitor: reference-model oracle over exhaustive small and random/boundary multi-word calls, in two builds",
   "Held on every observed call. Oracle: independent binary power (exact below 2^19 result bits; sign, bit length and three 60-bit residues above). Trusts num-bigint's multiplication."),
 "C02": ("runtime monitor: Bezout identity and remainder-gcd oracle over exhaustive small and random/boundary calls, in two builds",
   "Held on every observed pair; the identity itself is checked, so any valid coefficients are accepted. Trusts num-bigint's add/mul/rem."),
 "C03": ("runtime monitor: congruence oracle (a*x = 1 mod m iff gcd 1) over exhaustive small and random/boundary calls, in two builds",
   "Held on every observed pair; any representative of the inverse is accepted. Trusts num-bigint's add/mul/rem."),
 "C04": ("runtime monitor: congruence and solvability oracle over an exhaustive cube and random solvable/unsolvable calls, in two builds",
   "Held on every observed triple; any solution is accepted. Trusts num-bigint's add/mul/rem."),
 "C05": ("runtime monitor: congruence oracle over exhaustive small systems and random long, mismatched and non-coprime systems, in two builds",
   "Held on every observed system; any representative is accepted, and 'none' is accepted whenever the moduli are not pairwise coprime. Trusts num-bigint's add/mul/rem."),
 "C06": ("runtime monitor: product-tree reference oracle over every n up to a bound and large/negative/oversized n, in two builds",
   "Held on every observed n (exact comparison). Naturals between about 150000 and 2^63 are not computed."),
 "C07": ("runtime monitor: matrix-power reference oracle over every index up to a bound of both signs and large indices, in two builds",
   "Held on every observed index (exact comparison); indices beyond 10^7 and within the machine word are not computed."),
 "C08": ("runtime monitor: sieve and flat-array prime-sum reference over every n up to a bound and neighbours of primes, squares, powers up to 10^11, in two builds",
   "Held on every observed bound (exact comparison). Bounds above 3*10^11 only at the published powers of ten, against the OEIS values copied into the oracle."),
 "C09": ("runtime monitor: sieve and flat-array prime-count reference over every n up to a bound, powers of ten and their neighbours, in two builds",
   "Held on every observed argument; above 3*10^11 the oracle is the published table (OEIS A006880), and any other number must lie between the neighbouring published values."),
 "C10": ("runtime monitor: panic/abort trap, per-thread CPU-time watchdog and counting allocator under hostile operands, in two builds",
   "Held on every observed call. Bounded progress: a call using 45 s of CPU where the unchanged tree needs at most about 3 s counts as a hang; memory budgets are deterministic (live bytes counted by the allocator)."),
 "C11": ("differential execution across debug, release (z+lto), checked, optimised and AddressSanitizer builds, plus Miri interpretation",
   "Held on the executed calls: same outcome in five builds, no overflow or assertion panic, no ASan/LSan report, no Miri UB or leak report on the (small) interpreted part."),
 "C12": ("history and concurrency stress against fresh-process answers, native threads, ThreadSanitizer build and Miri schedules",
   "Held on the observed histories, thread interleavings and Miri schedules; a race on a path these calls never take would not be seen."),
}
try:
    from gen_manifest_lang import T as T2
    T.update(T2)
except ImportError:
    pass

ids = [json.loads(l)["id"] for l in open("properties.jsonl")]
m = {
    "version": 1,
    "setup_cmd": "python3 run.py --setup",
    "checks": [{
        "property": i,
        "quick_cmd": "python3 run.py " + i,
        "thorough_cmd": "VERIF_TIER=thorough python3 run.py " + i,
        "evidence_file": "evidence/%s.json" % i,
        "technique": T[i][0],
        "level": "exploration",
        "level_note": T[i][1],
    } for i in ids if i in T],
    "not_applicable": [{"property": i, "reason": "no check yet"} for i in ids if i not in T],
}
json.dump(m, open("MANIFEST.json", "w"), indent=1)
