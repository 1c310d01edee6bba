"""writes MANIFEST.json"""
import json, os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "lib"))
EXPL = "explicit-state exploration of the real code (state matching on context images), reference model as oracle"
ENUM = "exhaustive enumeration of executions of the real code over a stated finite input space, reference model as oracle"
T = {
 "C01": (ENUM, "all listed seeds x buffer variants on 12 real, 6 toy and 21 abstract sets; trusts the reference model (validated against 12 known answers and hashlib)"),
 "C02": (ENUM, "full signatures compared; abstract-hash sets reach extreme WOTS digits and digests; trusts the reference model"),
 "C03": (EXPL, "all chunk sequences over the stated menu on toy, abstract and real sets"),
 "C04": (EXPL, "all splittings over the stated menu"),
 "C05": (ENUM, "all single-bit and structured alterations (every byte in quick, every bit in thorough), splices between signatures, swapped keys/sets; verdict compared with the reference verifier"),
 "C06": (EXPL, "every length 0..L+3n+2 over the menu, surplus anywhere later, verdict queries at every state"),
 "C07": (EXPL, "every context image reachable in an earlier operation plus garbage patterns, as the start of every following operation; stack patterns and buffer placements enumerated"),
 "C08": (EXPL, "every mismatching call tried at every explored state of both operations; zero-filled contexts"),
 "C09": ("exhaustive interleaving exploration of the real code: product-state search over call interleavings, nesting at every state, and a controlled scheduler with preemption bounds at every hash call or shared access", "2-3 operations; thread schedules up to a preemption bound; instrumented accesses show the threads share no memory"),
 "C10": (EXPL.replace("reference model as oracle", "every load and store of the instrumented build checked against the extents handed over"), "instrumented and ASan builds of three configurations, accept and reject paths, message lengths and chunkings as enumerated"),
 "C11": ("exhaustive enumeration of random-source fault sequences against the real code, reference model as oracle", "absent / failing at each request with every partial output length / succeeding"),
 "C12": ("exhaustive enumeration of the configuration space (146 builds), results of the real code compared with the reference model", "S sets of the quick tier: prefix of the signature in full-size trees, whole signature with abstract hash; thorough runs them whole"),
 "C13": ("explicit-state exploration of the hash interfaces (state = bytes fed + context image), hash standards as oracle", "all splits of up to 5 blocks (12 in thorough), all output splits of SHAKE256 up to 2 rates, lengths around 2^29 and 2^32 bytes"),
 "C14": (ENUM, "every structure n,k,t,d,h in the grid for the formula; delivered and consumed lengths on all sets"),
 "C15": (ENUM, "all lengths 0..700 on the real sets, whole operations 0..420 on toys, 2^32+5 bytes really hashed, all 2^b+-1 lengths passed through"),
 "C16": (ENUM, "digests forced: all digests of the small structures; code words, walking bits, all leaf and tree indices of one layer at a time on the published structures"),
 "C17": (ENUM.replace("reference model as oracle", "map position -> value as oracle"), "all digests of the small structures, the C16 digests on the published structures"),
 "C18": (ENUM.replace("reference model as oracle", "painted stack, allocator interposition and store monitor as oracle"), "12 minimal builds; message lengths, contents, chunk sizes; published sets measured (S sets up to the first FORS tree in quick)"),
 "C19": ("exhaustive enumeration of buffer destruction points over the real code", "every call boundary; overwritten and unmapped buffers"),
 "C20": ("exhaustive enumeration of parameter sets x report-file histories over the real tool, independent measurement as oracle", "12 minimal builds; repeated runs on the F sets"),
 "C22": ("exhaustive enumeration of secrets over the real code, whole execution traces (basic blocks, accesses) compared", "every value of every SK.seed/SK.prf byte with the others fixed, zero, ones; derived secrets only as they follow from these; memory-access and control-flow granularity, compiled with the Makefile's flags"),
 "C23": ("exhaustive enumeration of executions of the real code, also on interpreted 32-bit machines of either byte order (MIPS32r2, strict alignment) and under undefined-behaviour and memory sanitizers, reference model as oracle", "buffer offsets 0..7, two-piece splittings, altered signatures and digest bits as enumerated; the interpreted machine runs what clang makes of the tree for it (three builds); S sets signed on the host only; misaligned, shift, overflow, bounds and uninitialised-memory errors as far as the sanitizers define them"),
 "C21": (EXPL.replace("reference model as oracle", "hash counters carried in the state"), "all splittings over the menu; counters against the one-pass formula; cost of call-backs from instrumented builds"),
}
exec(open(os.path.join(os.path.dirname(os.path.abspath(__file__)), "manifest_more.py")).read()) if os.path.exists("manifest_more.py") else None
props = [json.loads(l)["id"] for l in open("properties.jsonl")]
m = dict(version=1, setup_cmd="python3 lib/setup.py",
         checks=[dict(property=p, quick_cmd=f"python3 run.py {p}", thorough_cmd=f"VERIF_TIER=thorough python3 run.py {p}",
                      technique=T[p][0], level="model_checking", level_note=T[p][1]) for p in props if p in T],
         not_applicable=[dict(property=p, reason="check not built yet") for p in props if p not in T])
json.dump(m, open("MANIFEST.json", "w"), indent=1)
