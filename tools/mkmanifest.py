#!/usr/bin/env python3
"""Writes MANIFEST.json: every property that has at least one scenario in harness/ is claimed."""
import json, os, re
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
have = {}
for f in sorted(os.listdir(V + "/harness")):
    if f.startswith("s_"):
        for m in re.finditer(r'SCENARIO(?:_\w+)?\("(P\d\d)", (\w+)', open(f"{V}/harness/{f}").read()):
            have.setdefault(m.group(1), []).append(m.group(2))
TECH = {
 "P01": "generated messages, chunkings and tables against an independent GOST 34.311 model (property-based testing)",
 "P02": "stateful generation of digest-context histories against a model; HMAC/PBKDF2 differential",
 "P03": "generated keys, IVs, tables, chunkings against an independent GOST 28147 CFB model; round trip; in-place metamorphic",
 "P04": "stateful generation of cipher-context histories against a model; CMS/PBE round trips",
 "P05": "generated keys/messages/nonce streams and injected random-source faults, oracle: verification equation computed independently; nonce statistics",
 "P06": "generated and mutated signatures, exhaustive windows on small curves, against an independent verifier",
 "P07": "generated keys with tables, interleaved signing contexts and signed structures against the model",
 "P08": "stateful generation of key-generation settings against a model; population statistics of secrets",
 "P09": "generated keys on named, real and made-up curves: byte-exact differential encoding, round trip, comparison oracle",
 "P10": "generated secrets: byte-exact differential PKCS#8, PEM and PBES2 round trips",
 "P11": "generated explicit/named parameters, differential encoding against tables from the standard",
 "P12": "generated points and strings on many fields against an independent compression model",
 "P13": "structure-aware mutation and coverage-guided fuzzing under AddressSanitizer/UBSan with re-use oracle",
 "P14": "generated key stores from an independent writer, compared entry by entry",
 "P15": "generated tampering, truncation and wrong passwords against independently written stores",
 "P16": "generated Key-6 containers from an independent writer; repeated runs with differing heap contents",
 "P17": "generated PKCS#12 containers from an independent writer; tampering",
 "P18": "structure-aware mutation and coverage-guided fuzzing under AddressSanitizer/UBSan with store-usability oracle",
 "P19": "generated stream deliveries (metamorphic: memory versus file versus stream)",
 "P20": "stateful generation of store accesses, reference taking and freeing against a model",
 "P21": "generated seeds, times and request sequences against an independent generator model; injected seeding faults",
 "P22": "generated thread schedules of random requests, oracle: pieces tile one stream; ThreadSanitizer",
 "P23": "stateful generation of engine life-cycle histories with result oracle under AddressSanitizer",
 "P24": "generated inputs of the exported block primitives against an independent model",
 "P25": "repetition of generated operations with live-allocation counting",
 "P27": "fault injection: generated operations with generated allocation failures, compared with the undisturbed result",
 "P28": "property-based testing: generated algorithm numbers, controls and refusals inside histories compared with the reference model; forged signatures over prime fields; error queue inspected",
 "P29": "property-based testing: generated flows of openssl utility commands, results compared with the reference model, with another process and with the container library; generated changes must be refused",
 "P30": "property-based testing: generated process trees (forks), oracle: streams, signatures and keys of all processes are distinct, each stream is the model's",
 "P31": "property-based testing: generated histories over shared keys with inputs in write-protected memory, oracle: reference encodings of every key and store after each step",
 "P32": "property-based testing: generated operations and failures over random secrets, invariant: no piece of a secret in any released block or, after cleanup, in the generator's memory",
 "P26": "generated concurrent workloads compared with their sequential results; ThreadSanitizer",
}
NOTE = "Held on every generated case of the run (counts and samples in the evidence file); sampling, not proof. Trusts OpenSSL's big-number, GF(2^m) and ASN.1 code, the compiler's sanitizers, and the reference models, which are checked against published vectors at start-up."
LEVEL = {"P05": "fault_enumeration"}
NA = {}
props = [json.loads(l)["id"] for l in open(V + "/properties.jsonl")]
m = {"version": 1, "setup_cmd": "python3 vbuild.py",
     "checks": [{"property": p, "quick_cmd": f"python3 check.py {p} --tier quick", "thorough_cmd": f"python3 check.py {p} --tier thorough",
                 "evidence_file": f"evidence/{p}.json", "technique": TECH[p], "level": LEVEL.get(p, "exploration"),
                 "level_note": f"Scenarios: {', '.join(have[p])}. " + NOTE} for p in props if p in have],
     "not_applicable": [{"property": p, "reason": NA.get(p, "not built yet")} for p in props if p not in have],
     "notes": "No hooks in /repo are needed: the harness loads the built libraries and replaces the random source, the clock and the allocator from outside. Known and fixed findings: known-findings.txt."}
json.dump(m, open(V + "/MANIFEST.json", "w"), indent=1)
open(V + "/MANIFEST.json", "a").write("\n")
print(len(m["checks"]), "claimed;", [x["property"] for x in m["not_applicable"]])
