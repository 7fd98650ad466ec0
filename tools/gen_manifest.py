#!/usr/bin/env python3
"""Writes MANIFEST.json. DONE lists the properties that have a check."""
import json, os
here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = [json.loads(l) for l in open(os.path.join(here, "properties.jsonl"))]
impl = "the real code is driven directly (no separate model of it), every enumerated execution is compared with an independent reference model; trusts the reference model, the Go runtime and the harness; nothing beyond the stated bounds"
T = {
 # id: (technique, note)
 "S01": ("exhaustive enumeration of page-file operation words on the real code against a set model", ""),
 "S02": ("exhaustive enumeration of page-file histories with reopening, and of all opening files of a size grid, on the real code", ""),
 "S03": ("exhaustive enumeration of header-list operation words over several storages on the real code", "one known finding is listed"),
 "S04": ("exhaustive enumeration of mapped-file operation words compared with an ordinary file as oracle", ""),
 "S05": ("exhaustive enumeration of node contents and of all truncations and corruptions of encoded nodes on the real codec", ""),
 "T01": ("explicit-state exploration of all reachable small trees of the real B+ tree (every insertion order, small pages)", ""),
 "T02": ("explicit-state exploration of all reachable small trees with every seek and every iterator walk", ""),
 "T03": ("exhaustive enumeration of interleavings of operations on several trees sharing one file", ""),
 "T04": ("exhaustive enumeration of key-order triples of the real comparator against value order", ""),
 "I01": ("exhaustive enumeration of small JSON Lines files over a grammar against a reference indexer", ""),
 "I02": ("exhaustive enumeration of appends and cut points (incremental sync equals one-shot) on the real indexer", ""),
 "I03": ("exhaustive enumeration of refused inputs and repairs in histories on the real indexer", ""),
 "I04": ("exhaustive enumeration of small CSV files over a grammar against a reference indexer", ""),
 "I05": ("exhaustive enumeration of CSV growth histories on the real indexer", ""),
 "I06": ("exhaustive enumeration of header contents, and of truncations and corruptions of header bytes", ""),
 "I07": ("exhaustive crash-point enumeration of the real indexer's writes, with recovery and second crashes", "assumes that single writes are atomic and reach the file in order"),
 "I08": ("exhaustive single-failure enumeration of every storage call of the real tree and indexer", "injected failures are clean: no partial effect"),
 "I09": ("exhaustive enumeration of texts over an alphabet against an independent tokenizer, with concurrent shuffles", ""),
 "I10": ("exhaustive enumeration of corpora and searchable settings against a reference token index", "known findings for characters that expand when normalized are listed"),
 "I11": ("exhaustive repetition of small builds over every storage backend, byte comparison", ""),
 "I12": ("exhaustive enumeration of appends and lookups over growing indexes on the real code, every byte and call counted", ""),
 "V01": ("explicit-state exploration of all insertion orders of the real vector tree with small pages", ""),
 "V02": ("exhaustive enumeration of queue operation words against a sorted-list model", ""),
 "V03": ("exhaustive enumeration of level assignments, insertion orders and point sets of the real graph", ""),
 "V04": ("exhaustive enumeration of point sequences and levels on the real vector store", ""),
 "V05": ("exhaustive single-failure enumeration of every storage call over all reachable small vector trees and store histories", "injected failures are clean: no partial effect"),
 "C01": ("exhaustive enumeration of data sets, operators, directions and probes, client compared with the data, over indexes built by the real indexer", ""),
 "C02": ("stateless exploration of response orders (controlled scheduler), of every single failure and early stop on the real client", ""),
 "C03": ("exhaustive enumeration of range lists and server behaviours on the real client", ""),
 "C04": ("exhaustive enumeration of chunkings and truncations of multipart streams on the real decoder", ""),
 "C05": ("exhaustive enumeration of integers and byte strings, indexer codec compared with client codec", ""),
 "C06": ("exhaustive enumeration of header lists written by the real indexer and of their truncations, read by the real client", ""),
 "C07": ("exhaustive enumeration of query-builder call trees and clause combinations on the real client", ""),
 "C08": ("exhaustive enumeration of corpora, queries and token orders, client compared with a reference scorer", ""),
 "C09": ("exhaustive enumeration of texts, client tokenizer compared with the indexer's", ""),
 "C10": ("exhaustive enumeration of request sequences, interleavings and failures on the real cache", ""),
 "C11": ("exhaustive enumeration of queries over growing indexes on the real client, every requested byte counted", ""),
 "C12": ("exhaustive enumeration of crash points of index updates, each image queried by the real client", ""),
 "R01": ("exhaustive enumeration of files and names on the real converter binary", ""),
 "R02": ("exhaustive enumeration of append/run histories and invocations on the real command", ""),
}
DONE = os.environ.get("DONE", open(os.path.join(here, "tools", "done.txt")).read()).split()
checks, na = [], []
for p in props:
    i = p["id"]
    if i not in DONE:
        na.append({"property": i, "reason": "the check for this property is still being built"})
        continue
    t, n = T[i]
    note = impl if not i.startswith("C") else impl.replace("the Go runtime", "the Go and Node runtimes")
    checks.append({"property": i, "quick_cmd": f"bash check.sh {i} quick", "thorough_cmd": f"bash check.sh {i} thorough",
      "technique": "model checking: " + t, "level": "model_checking", "level_note": (n + "; " if n else "") + note})
m = {"version": 1, "setup_cmd": "bash setup.sh", "checks": checks, "not_applicable": na}
json.dump(m, open(os.path.join(here, "MANIFEST.json"), "w"), indent=1)
print(len(checks), "checks", len(na), "not claimed")
