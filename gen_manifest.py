#!/usr/bin/env python3
"""Writes MANIFEST.json from the table below (run by hand when the table changes)."""
import json
TRUST = ("Trusted: concrete-core, the FFT library and the CSPRNG of the dependency tree, the reference models and "
 "error calculus in /verif/harness, the compiler. ")
T = {
 "C01": ("explicit enumeration of operation histories x hash-table outcomes x settings on the real server and client, in lock step with an array model",
   "Exhaustive within the bounds in the evidence (all histories to depth 3-4 on 1-2 items with every table, and wide databases of up to 1024/4096 items). "),
 "C02": ("explicit enumeration of query lists per call and pairs of calls on the real server, in lock step with an array model",
   "Exhaustive within the stated bounds; the whole database is compared after every call. "),
 "C03": ("explicit enumeration of tables x item lists x read/write mixes x two-call histories on the real server, in lock step with an array model",
   "Exhaustive within the stated shapes; every copy in every row is compared after every call. "),
 "C06": ("explicit enumeration of every sequence of draws of the real shuffle (small h, n) and every draw pattern of the sampled ranges, compared with a bijection oracle",
   "Exhaustive for the stated (h, n). "),
 "C07": ("explicit enumeration of hash tables x ordered item lists on the real placement, compared with a reference first-free placement",
   "Exhaustive for the stated shapes. "),
 "C08": ("explicit enumeration of widths x indices x settings on the real encoder and demultiplexer",
   "Exhaustive over the stated widths (power-of-two widths only, as the server requires). "),
 "C11": ("explicit enumeration of all (m, d) pairs for small rings on the real comparison",
   "Exhaustive over all m, d for the stated ring sizes. "),
 "C12": ("explicit enumeration of message monomials x bits x decompositions x buffer states on the real external product and selector",
   "Worst-case error bound of the gadget calculus as oracle. "),
 "C13": ("explicit enumeration of keys (small rings), messages, decompositions and representations on the real key switching",
   "Worst-case error bound as oracle. "),
 "C14": ("explicit enumeration of every odd k, ring size and basis polynomial on the real substitution and trace",
   "Exact ring map plus worst-case error bound as oracle. "),
 "C15": ("explicit enumeration of conversion routes x bits x parameter sets on the real conversions",
   "Worst-case error bound as oracle. "),
 "C16": ("explicit enumeration of settings x messages x keys on the real RGSW encryption, every row checked",
   "Row phases and external-product action against the worst-case bound. "),
 "C17": ("explicit enumeration of moduli x values x boundary errors on the real codecs",
   "All values for small moduli; all boundary errors of either sign. "),
 "C18": ("explicit enumeration of keys, messages, formats and coefficients on the real encryption and conversions",
   "All keys of tiny rings, all coefficients. "),
 "C19": ("explicit enumeration of operation sequences on the real ciphertext arithmetic in lock step with a ring model",
   "All sequences to the stated depth. "),
 "C22": ("explicit enumeration of errors x positions x representations on the real noise functions",
   "Boundary errors of either sign at every coefficient of small rings. "),
 "C26": ("explicit enumeration of small tables, integers, polynomials and CSV files on the real helpers",
   "Exhaustive within the stated sizes. "),
 "C04": ("stateless exploration of the real server code under a controlled scheduler (the source compiled against a scheduler-controlled std, and a scheduler-controlled rayon-core): every schedule up to a deviation bound",
   "Exhaustive up to the stated deviation bound from three baseline schedules, for 1 to 3 workers; interleavings inside code without synchronisation are not explored (safe Rust). "),
 "C05": ("explicit enumeration of query kinds x shapes x indices x repetitions on the real client; every ciphertext compared with every other, and the shape with that of every other query",
   "Exhaustive for the stated shapes; cryptographic indistinguishability itself is not addressed. "),
 "C09": ("explicit enumeration of all trees up to a depth on the real plaintext tree operations, in lock step with a reference tree",
   "Exhaustive up to depth 2 (small label sets: 3). "),
 "C10": ("explicit enumeration of trees x feature vectors on the real encrypted evaluation, compared with plaintext evaluation",
   "Exhaustive for the stated trees and features inside the worst-case noise bound. "),
 "C20": ("explicit enumeration of command lines and parameter files on the real program, compared with a model of the parameter rules",
   "All options up to two at a time; all file shapes and all truncations within the bounds. "),
 "C21": ("explicit enumeration of call sequences on pairs of real contexts in lock step, and of the schedules of concurrent context creation under a controlled scheduler",
   "Uniqueness is checked among all contexts created in a run; the quality of the entropy source itself is trusted. "),
 "C23": ("explicit enumeration of shapes x hash-table outcomes on the real database generation, compared with a reference placement",
   "Every cell decrypted and compared; memory contents observed through a recording allocator. "),
 "C24": ("explicit enumeration of operation histories on the real server with the error of every stored ciphertext monitored at every step against the worst-case error calculus",
   "Exhaustive within the stated histories. "),
 "C25": ("explicit enumeration of small settings of the three modes on the real program, with a monitor of its output",
   "Exhaustive for the stated grid, with fixed hash tables and pool orders. "),
 "C27": ("explicit enumeration of encryption routines x deviations x ring sizes on the real code, every error coefficient and mask word recovered and monitored",
   "Exhaustive over the routines; deviations are decided by sample moments with limits at more than ten standard errors. "),
 "C28": ("explicit enumeration of items x operations x payloads x shapes on the real server, the trace of its memory operations and the set of rewritten cells compared with those of a reference query",
   "Exhaustive for the stated shapes; memory operations are observed through the allocator, timing and cache behaviour are not. "),
 "C29": ("explicit enumeration of unfitting requests x positions x states on the real code, with every stored value compared before and after and the server exercised afterwards",
   "Exhaustive for the stated requests; size mismatches that only concrete-core's debug assertions would notice are left out. "),
 "C30": ("explicit enumeration of mixed histories (single, multi-query and batched calls; orders of preparation; two clients of one key) on the real server against an array model",
   "Exhaustive for the stated histories, on rings of 8 and 16. "),
 "C31": ("explicit enumeration of the interleavings of the lives of two or more instances on the real library, each compared with its own reference",
   "Exhaustive for the stated kinds and events, sequential interleavings; concurrent ones belong to C04 and C21. "),
 "C32": ("explicit enumeration of repeated operations, calls and object lives on the real library, the process state (bytes in use, descriptors, threads) compared after every repetition with that after the first few",
   "Exhaustive over operations, kinds of call and kinds of object in the stated settings; the number of repetitions is bounded, and memory is what the allocator hands out. "),
 "C33": ("explicit enumeration of settings, durations, trees, input lists and execution modes on the real library, every reported and printed value compared with the one used",
   "Exhaustive within the stated lists; durations are compared with the clock with a wide margin. "),
}
checks=[]
for i,(tech,note) in sorted(T.items()):
    checks.append({"property":i,"quick_cmd":f"bash check.sh {i}","thorough_cmd":f"VERIF_TIER=thorough bash check.sh {i}",
      "evidence_file":f"evidence/{i}.json","technique":"model checking: "+tech,"level":"model_checking","level_note":note+TRUST})
props=[json.loads(l)["id"] for l in open("/verif/properties.jsonl")]
na=[{"property":p,"reason":"check not built yet"} for p in props if p not in T]
m={"version":1,"setup_cmd":"bash build.sh","checks":checks,"not_applicable":na,
 "notes":"No hooks in /repo: the checks link the real crate with replaced rand and rayon-core (cargo patch inside /verif/harness), and C04 and C21 compile the same source files of /repo against a scheduler-controlled replacement of std. Every check rebuilds from /repo's working tree."}
json.dump(m,open("/verif/MANIFEST.json","w"),indent=1); open("/verif/MANIFEST.json","a").write("\n")
