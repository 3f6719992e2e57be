#!/usr/bin/env python3
"""Write MANIFEST.json."""
import json, os, sys
here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
T = {
 "C01": "runtime monitor: online dictionary model checked after every operation of seeded histories, with the hash function under fault injection",
 "C02": "runtime monitor: online set model checked after every operation of seeded histories, with the hash function under fault injection",
 "C03": "runtime monitor: iteration traces (full, repeated, stopped, panicking, nested, updating) checked against a model",
 "C04": "runtime monitor: reported length checked against a model after every operation",
 "C05": "runtime monitor: reported depth checked against the depth recomputed from observed hash digits; log16 bound with the real hash",
 "C06": "runtime monitor: iteration order and depth compared with containers rebuilt from the same keys under the same seed",
 "C07": "sanitizers: AddressSanitizer, race build with checkptr, GC stress with clobberfree, plus key/value integrity oracle",
 "C08": "ThreadSanitizer race detector on concurrent readers and locked histories, plus offline linearizability checker over the event log",
 "C09": "runtime monitor: weak pointers on every key and value object, checked after forced collections",
 "C10": "runtime monitor: retained value pointers compared with lookups and iteration throughout histories",
 "C11": "runtime monitor: callback counting and state comparison with injected panics and goroutine exits inside Modify",
 "C12": "runtime monitor: every operation on zero values and copies, and nil/len/depth checked through emptying histories",
 "C13": "runtime monitor: one model per container over handles, bystanders and nested containers; race detector on one container per goroutine",
 "C14": "runtime monitor: dictionary/set model over adversarial key pools, guard bytes around caller key slices",
 "C15": "runtime monitor: determinism and distinctness of hashes over seeds and iteration counts, provided key types driven as generic keys; race detector on concurrent hashing",
 "C16": "runtime monitor: model plus budgets of hash computations and of steps (instrumented basic blocks) under hash functions with injected shared prefixes and complete collisions",
 "C17": "runtime monitor: log of every Hash call of custom keys checked against a trace specification",
 "C18": "runtime monitor: heap accounting of a container against one freshly built with the same contents",
 "C19": "runtime monitor: iteration orders of equally built containers compared statistically, with the real hash",
 "C20": "runtime monitor: steps (instrumented basic blocks) and allocated bytes of every operation checked against a bound in the shared hash digits",
 "C21": "runtime monitor: heap accounting of a container against slot arrays and cells laid out by the check from observed hash digits",
}
checks = [dict(property=p, quick_cmd="python3 run.py %s --tier quick" % p, thorough_cmd="python3 run.py %s --tier thorough" % p,
               technique=t, level="exploration",
               level_note="sampled executions of the real code under an oracle; a pass is evidence over the recorded histories, not a proof")
          for p, t in sorted(T.items())]
m = dict(version=1, setup_cmd="python3 setup.py", checks=checks, not_applicable=[])
json.dump(m, open(os.path.join(here, "MANIFEST.json"), "w"), indent=1)
