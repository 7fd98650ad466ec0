#!/usr/bin/env python3
"""Writes properties.jsonl (one place to edit; run by hand, never by a check)."""
import json, os
P = []
def p(id, title, statement, over, text, why, files, mech, state=None, observe=None, hook=None):
    a = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech]}
    if state: a["state"] = [{"name": n, "meaning": m, "where": w} for n, m, w in state]
    if observe: a["observe_at"] = observe
    a["hook_needed"] = hook
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": text}, "why_tests_cant": why, "anchors": a})

PF="pkg/pagefile/pagefile.go"; LP="pkg/linkedpage/linkedpage.go"; BT="pkg/bptree/bptree.go"; BN="pkg/bptree/node.go"
IX="pkg/appendable/index_file.go"; AM="pkg/appendable/appendable.go"; JL="pkg/handlers/jsonl.go"; CS="pkg/handlers/csv.go"
NG="pkg/ngram/tokenizer.go"; MM="pkg/mmap/mmap.go"
# ---------------------------------------------------------------- storage
p("S01","Page allocation never hands out memory that is in use",
  "For any sequence of page allocations and frees on an index file, every allocation returns a page-aligned region that is not the reserved first page and overlaps no page still in use, holding exactly the supplied bytes padded with zeros. Freed pages are reused before the file grows, no other page's bytes change, and invalid requests (misaligned free, freeing an already-free page, overfull free list, oversized buffer) are refused without any effect. The reported page size, page position and page count agree with the file.",
  ["histories"],"every sequence of allocate/free (valid and invalid) up to a depth, and long systematic histories that fill, wrap and drain the free list",
  "tests allocate and free at most a couple of pages; free-list wrap-around, order of reuse and interaction with live pages need long histories",
  [PF],[("allocation from free list, else append","PageFile.NewPage"),("free list maintenance","PageFile.FreePage, FreePageIndex")],
  [("free list","offsets of reusable pages, ring of 512","first page of the file")],["return values of NewPage/FreePage","file bytes"])
p("S02","The free list survives closing and reopening the file",
  "Closing and reopening an index file at any point of an allocation/free history changes nothing that later operations can observe: the same pages are free, no live page is handed out and no free page is lost. This holds for every fill level of the free list and after any number of wrap-arounds. A file whose size is not a whole number of pages is refused when opened.",
  ["histories","crash_points"],"every history of allocate/free/reopen up to a depth, plus all fill levels and wrap positions of the free list",
  "the reopen test frees one page; persistence of a wrapped or full ring is never exercised",
  [PF],[("serialisation of the free list to the first page","PageFile.writeFreePageIndices"),("recovery of the free list","NewPageFile")],
  [("free list image","512 little-endian offsets","first page of the file")],["allocations after reopen vs. without reopen"])
p("S03","Metadata slots in the linked header list never interfere",
  "Each entry appended to the header list keeps exactly the root pointer and metadata last stored in it, whatever is written to any other entry, across page boundaries of the list and after reopening the file. Walking the list visits every entry exactly once in creation order, and appending after an entry that already has a successor is refused. The head of the list holds nothing itself: reading or storing a root pointer or metadata there is refused without effect. Metadata larger than the slot is refused, leaving the previous metadata intact.",
  ["histories","inputs"],"every sequence of append/set root/set metadata/reopen up to a depth over lists of 1..31+ entries and all metadata lengths",
  "tests touch single slots; interference between neighbouring slots, the 15/16 and 30/31 page boundaries and every length are not enumerated",
  [LP],[("slot addressing","LinkedPage.rootMemoryPointerPageOffset"),("chaining of pages","LinkedPage.AddNext, Next")],
  [("slot","12-byte root pointer, 1-byte length, metadata","header page")],["Root/Metadata of every entry after every step"])
p("S04","Memory-mapped files behave like ordinary files",
  "Reading, writing, seeking and appending through a memory-mapped file produces the same bytes, positions and end-of-file results as the same operations on an ordinary file limited to its current size, for every sequence of operations. After closing, the file on disk holds exactly what was written, growing as needed, and read-only mappings never alter the file.",
  ["histories"],"every sequence of read/write/seek/readat/writeat/close+reopen up to a depth, sizes straddling the page size",
  "tests run single scripted sequences; growth and remapping happen only at particular combinations of position, length and current size",
  [MM,"pkg/mmap/mremap_linux.go"],[("growth and remap on write past the end","MemoryMappedFile.WriteAt"),("position tracking","Seek, Read, Write")],
  [("position","current offset","MemoryMappedFile.seek")],["file content and returned counts/errors"])
p("S05","Page codec: a stored tree node reads back as written",
  "Encoding any tree node and decoding it again yields the same node: same leaf/internal kind, keys, data pointers and child or record pointers. The advertised size equals the number of bytes produced, for inline keys of every supported width as well as keys stored by reference to the data file, and for offsets and lengths of every magnitude. The encoding of one key never disturbs another.",
  ["inputs"],"all nodes over boundary offsets/lengths (each varint length), widths 0..9, 1..n keys, leaf and internal",
  "tests encode three hand-picked nodes with tiny offsets",
  [BN,"pkg/encoding/sizeVarint.go"],[("size computation","BPTreeNode.Size, SizeVarint"),("codec","MarshalBinary, UnmarshalBinary")],None,["decoded node vs. original"])
# ---------------------------------------------------------------- tree
p("T01","Tree lookups are exact for every insertion order",
  "After any sequence of insertions, looking a key up returns the smallest stored key that is not smaller than it together with the record it was stored with, or nothing when no such key exists. Every inserted key is found with its own record, and membership answers are true exactly for stored values. The order of insertions, node splits, number of levels and key representation (inline or by reference) make no difference.",
  ["histories","inputs"],"every insertion order of small key sets in trees forced to split at every level; systematic large trees on real page sizes; every probe key",
  "tests insert ascending/shuffled keys and look up the same keys; absent probes, gaps at leaf boundaries and other orders are not covered",
  [BT,BN],[("root-to-leaf descent","BPTree.traverse"),("node split","BPTree.Insert")],
  [("separator keys","first key of right sibling","internal nodes")],["Find/Contains for every probe after every insertion"])
p("T02","Range scans visit every key exactly once, in order, both ways",
  "A forward scan started at any key yields exactly the stored keys not smaller than it in ascending order, and a backward scan exactly the stored keys smaller than it in descending order, each with its record, and then ends. Changing direction in mid-scan moves to the true neighbour of the current position. This is independent of how keys are spread over nodes and levels.",
  ["histories","inputs"],"every small tree shape reachable by insertion, every start key (stored, between, below, above), every sequence of forward/backward moves up to a depth",
  "tests scan from a stored key in one tree; starting between leaves or reversing is not covered",
  [BT],[("iterator","TraversalIterator.Next/Prev/incr")],
  [("position stack","node and index per level","TraversalIterator.records")],["keys delivered by the iterator"])
p("T03","A rejected insertion leaves the index unchanged; trees are isolated",
  "Inserting a key that already exists, or one whose length does not match the tree's fixed key width, returns an error and leaves every tree as it was. Insertions into one tree never alter another tree, header entry or free page living in the same file, whatever the interleaving. Growth of one tree never loses or duplicates keys of another.",
  ["histories"],"every interleaving of insertions (valid, duplicate, wrong width) into several trees sharing a file",
  "tests use one tree per file",
  [BT,PF,LP],[("duplicate detection","BPTree.Insert"),("page ownership","PageFile.NewPage")],None,["full contents of all trees after each step"])
p("T04","The cost of an append is bounded by the height of the tree",
  "Adding one key reads and writes only pages on a single root-to-leaf path plus the pages created by splitting, so a tree never gains more nodes per insertion than it has levels plus one, and the file never grows by more than twice that. Pages given up by a split are reused. A page is never written beyond its size, and a node is split only when it no longer fits. Every non-root node stays non-empty and the tree stays balanced.",
  ["histories","inputs"],"every insertion order of small key sets, every key width, and long ascending/descending/alternating runs",
  "tests never look at I/O or shape; a regression to rewriting or leaking pages changes no result they check",
  [BT,BN,PF],[("in-place update of the path","BPTree.Insert"),("split in half","BPTree.Insert")],None,["page reads, writes and allocations seen by the pager"])
# ---------------------------------------------------------------- index
p("I01","A JSON Lines index contains exactly the values in the data",
  "After synchronizing a JSON Lines file, for every record and every scalar field in it (nested objects addressed by dotted paths) the index of that field and type contains exactly one entry with that value, pointing to that record's bytes, and contains nothing else. Value references resolve to the value whatever legal whitespace or escapes the record uses. The number of records, recorded read position and per-field length statistics equal what the data contains, and incomplete final lines are not indexed.",
  ["inputs"],"every file over a record grammar (types, nesting, arrays, whitespace, escapes, duplicate values, missing fields) up to a number of records",
  "tests check a few hand-written records without whitespace variants or full content comparison",
  [JL,IX,AM],[("streaming token walk","JSONLHandler.Synchronize, handleJSONLObject"),("key resolution","JSONLHandler.Parse")],
  [("file metadata","read offset, entry count","first header entry"),("index metadata","name, type, width, total length","header entries")],["all entries of all indexes"])
p("I02","Incremental indexing equals indexing everything at once (JSON Lines)",
  "Synchronizing after each of any number of appends, with or without reopening the index in between, leaves the same index as synchronizing once on the final data, whatever the append boundaries, including boundaries in the middle of a line. Synchronizing again with no new data changes nothing. Already indexed data is never indexed twice or skipped.",
  ["histories"],"every way of cutting the data into appends at byte granularity for small files, every subset of reopen points",
  "tests append once at a line boundary",
  [JL,IX],[("resume from recorded read position","JSONLHandler.Synchronize"),("reopen","NewIndexFile")],
  [("read offset","bytes consumed so far","file metadata")],["index content (logical and bytes) after each history"])
p("I03","Malformed JSON Lines input is reported and never corrupts the index",
  "When a line is not a valid JSON object that can be indexed, synchronization returns an error rather than succeeding, crashing or hanging. Everything indexed by earlier successful synchronizations stays intact and queryable, and the recorded read position never moves past the bad line. Once the data is corrected, synchronizing again succeeds and yields the same index content as a fresh one.",
  ["inputs","histories"],"every malformed-line variant (truncations of a valid record at every byte, wrong root types, trailing garbage, bad numbers/escapes) at every position",
  "one test feeds one malformed input and checks nothing afterwards",
  [JL],[("error propagation","JSONLHandler.Synchronize")],None,["error result; content before and after; retry after repair"])
p("I04","A CSV index contains exactly the values in the data",
  "After synchronizing a CSV file, for every data row and column the index of that column and inferred type contains exactly one entry with that value, pointing to that row's bytes, and contains nothing else. Empty fields are null, numbers and booleans are recognised as such, everything else is text, and the value reference of each entry covers that field's text. The number of rows and the recorded read position equal what the data contains. Rows with more fields than the header are reported as errors.",
  ["inputs"],"every CSV file over a field grammar (all inferred types, empty fields, short and long rows, duplicate values) up to a number of rows",
  "tests check a few hand-written tables and mostly only that lookups succeed",
  [CS,IX],[("header and row parsing","CSVHandler.Synchronize, handleCSVLine"),("type inference","InferCSVField")],
  [("file metadata","read offset","first header entry")],["all entries of all indexes"])
p("I05","Incremental indexing equals indexing everything at once (CSV)",
  "Synchronizing a CSV file after each of any number of appends, with or without reopening the index in between, leaves the same index as synchronizing once on the final data, whatever the append boundaries, including directly after the header or in the middle of a line. Column names always come from the header row and never from a data row. Synchronizing again with no new data changes nothing.",
  ["histories"],"every way of cutting small CSV files into appends at byte granularity, every subset of reopen points",
  "the append test cuts once after a data row with every column filled",
  [CS,IX],[("resume from recorded read position","CSVHandler.Synchronize"),("column names","IndexFile.IndexFieldNames")],
  [("read offset","bytes consumed so far","file metadata")],["index content after each history"])
p("I06","Index header data round-trips and incompatible files are refused",
  "File-level and per-field header data (version, format, read position, record count, field name, field type, key width, total length) read back exactly as written for all values that can be stored. Opening an index with a different format or version, or with truncated header data, returns an error rather than misreading it or failing abruptly. Looking up an index by name and type finds exactly that index, creating it once, with the key width belonging to the type, the list of field names contains each name once in order of first appearance, and an index without any field is reported as empty.",
  ["inputs","histories"],"all boundary values of every field, all truncations of encoded header data, all format/version pairs, all sequences of find-or-create over a set of names and types",
  "tests round-trip one record of each kind and one mismatching format",
  [AM,IX],[("codecs","FileMeta/IndexMeta Marshal/UnmarshalBinary"),("validation on open","NewIndexFile"),("lookup","FindOrCreateIndex")],None,["decoded values, errors, header list"])
p("I07","Interrupting synchronization never records unindexed data as indexed",
  "If synchronization is cut off between any two writes to the index file, the record count and read position found when the file is reopened never cover a record whose entries were not all written. Reopening such a file either succeeds or reports an error, and continuing synchronization either reports an error or results in a complete index without duplicates. It never silently yields an index with missing or extra entries.",
  ["crash_points","histories"],"every prefix of the sequence of storage writes of every small synchronization history, including node splits and header-page growth",
  "no test interrupts anything",
  [JL,CS,IX,BT,LP,PF],[("commit of read position after indexing","Synchronize"),("write ordering in splits","BPTree.Insert")],
  [("write log","ordered storage writes","io.ReadWriteSeeker under the page file")],["reopen + resynchronize on every prefix image"])
p("I08","Storage failures surface as errors",
  "If any single read, write or seek on the index file fails during opening, synchronizing or looking up, the operation returns an error instead of crashing, hanging or reporting success with wrong content. A failed operation never replaces the root of a non-empty tree with an empty one, and after a failed read the stored content is unchanged. Retrying the same lookup after a transient failure gives the correct answer.",
  ["fault_sequences","histories"],"failure injected at the k-th storage call for every k of every small history, for each kind of call",
  "no test injects failures",
  [BT,BN,LP,PF,IX,JL,CS],[("error propagation","all storage call sites")],None,["returned errors and subsequent content"])
p("I09","Search tokens are exactly the n-grams of the words of the text",
  "For any text and gram length, tokenization yields exactly the lower-cased runs of that many consecutive letters or digits within each whitespace-separated word, ignoring other characters and accents, in order, each with the position where it starts in the canonically decomposed text, counted in characters, and the length it spans. Reordering tokens for querying is a deterministic permutation of them. No token is lost, repeated or invented.",
  ["inputs"],"every string up to a length over an alphabet of letter, upper-case, digit, punctuation, whitespace, accented, combining and non-Latin characters, gram lengths 1..3",
  "tests use a dozen hand-picked phrases",
  [NG],[("normalisation","normalizeToAscii"),("window","BuildNgram"),("Shuffle","Shuffle")],None,["token list vs. reference"])
p("I10","A searchable field is indexed by every one of its n-grams",
  "When a field is declared searchable, the 1-, 2- and 3-gram indexes of that field contain, for every record, one entry per n-gram occurrence of its text pointing to that record, with the text length, and nothing else, while its plain value index is unaffected. Non-searchable fields get no n-gram indexes. Records whose searchable field is missing or is not text are indexed like any other record.",
  ["inputs","histories"],"every small file over texts with repeated and shared n-grams, every set of declared fields, every split into appends",
  "one test checks that some trigram lookups succeed",
  [JL,NG,IX],[("n-gram insertion","JSONLHandler.handleJSONLObject"),("declared fields","IndexFile.IsSearch")],None,["entries of the n-gram indexes"])
p("I11","The index is a deterministic function of the data",
  "Indexing the same data with the same options always produces byte-for-byte the same index file, in whichever storage it is written (in-memory buffer, ordinary file or memory-mapped file) and however often it is repeated. Appending data never changes the parts of the index that are unrelated to it. The data file is never modified.",
  ["inputs","configurations"],"every small data set and every storage backend, repeated runs",
  "tests compare one pair of runs; nondeterminism needs repetition across backends",
  [JL,CS,IX,PF,MM],[("no use of time, randomness or map order in layout","Synchronize, FindOrCreateIndex")],None,["bytes of the produced files"])
p("I12","Appending and looking up take work independent of the size of the index",
  "Opening an index, synchronizing it with data that grew by a few records, and looking up a few keys read and write an amount of the index file that depends on the keys added or read, the number of fields and the height of the trees, but not on the number of records already indexed; data synchronized before is not read again, except for keys stored by reference that are compared with. The index grows in proportion to the keys it holds.",
  ["inputs","histories","configurations"],"indexes of up to tens of thousands of records of several kinds in several orders; appends at every place, of repeated values, new fields, nothing, partial and refused records; lookups at every place; every byte and call counted, old data unreadable",
  "tests check what an index holds, never what it took to get there; appending cheaply is what the format is for",
  [IX,"pkg/handlers/jsonl.go","pkg/handlers/csv.go","pkg/bptree/bptree.go","pkg/pagefile/pagefile.go","pkg/linkedpage/linkedpage.go"],[("start at the read offset","Synchronize"),("path from root to leaf","BPTree.Insert, traverse"),("opening","NewPageFile, NewIndexFile")],None,["calls to the index file","reads of the data"])
# ---------------------------------------------------------------- vectors
p("V01","The vector tree stores and returns every vector exactly",
  "After any sequence of insertions into the vector tree, looking up a stored id returns exactly the vector stored for it, bit for bit, and looking up any other id reports that it is absent. Inserting an existing id is refused without effect. This holds for every insertion order, vector dimension, tree height and after reopening the file.",
  ["histories","inputs"],"every insertion order of small id sets in trees forced to split at every level, vector components over special values, several dimensions",
  "tests check that ids are found; vector values, orders and absent ids are not enumerated",
  ["pkg/btree/btree.go","pkg/btree/node.go"],[("split and descent","BTree.Insert, traverse"),("vector codec","BTreeNode Marshal/UnmarshalBinary")],None,["Find for every id after every insertion"])
p("V02","The neighbour queue is a correct double-ended priority queue",
  "For every sequence of insertions, re-insertions with a changed distance, removals of the nearest or the farthest entry, and copies, the queue returns the true nearest and farthest entries, its size counts distinct ids, and each id carries its last distance. A copy and its original never influence each other. Removing from an empty queue reports an error.",
  ["histories"],"every operation sequence up to a depth over a few ids and distances (including ties), with copies taken at any point",
  "tests insert descending or ascending runs and drain; updates and mixtures of both ends are not enumerated",
  ["pkg/hnsw/heap.go"],[("min-max heap order","up, down, Fix"),("position map","DistHeap.visited")],
  [("position map","slot of each id","DistHeap.visited")],["Peek/Pop results vs. sorted list"])
p("V03","Nearest-neighbour graph: links are valid and small searches are exact",
  "For any insertion order, level assignment and point set, every link of the neighbour graph connects two distinct existing points that both exist on that level and carries their true distance. A search returns distinct existing points with their true distances, at most as many as asked for, always containing some point; when the graph's connection and candidate limits are at least the number of points, it returns exactly the nearest ones. Points of the wrong dimension are refused without effect.",
  ["histories","inputs"],"every assignment of levels and every insertion order of small point sets on a grid (including duplicates), every query point and k, several limit settings",
  "tests use random levels and a few points; level assignment is never controlled",
  ["pkg/hnsw/hnsw.go","pkg/hnsw/friends.go"],[("greedy layered search","searchLevel, KnnSearch"),("bidirectional linking and pruning","InsertVector")],
  [("entry point","node on the highest level","Hnsw.entryPointId")],["Neighborhood and KnnSearch"])
p("V04","Adding points to the vector store keeps graph and files in step",
  "Every valid point added to the vector store is retrievable from the vector tree under its id with exactly its coordinates, and its nearest neighbours are recorded in the neighbour tree as nearest-first list of level and id. Adding any number of points in any arrangement succeeds, including coincident points and points sharing the same neighbours. A refused point leaves both trees unchanged.",
  ["histories","inputs"],"every sequence of points on a small grid up to a length, including duplicates, with controlled levels",
  "the only test adds a single point",
  ["pkg/vectorpage/manager.go","pkg/hnsw/friends.go"],[("write-through of graph insertions","VectorPageManager.AddNode"),("neighbour serialisation","Friends.Flush")],None,["contents of both trees"])
p("V05","A failing file never goes unnoticed by the vector tree or the vector store",
  "If any single read, write, seek or root access fails while a vector is stored or looked up in the vector tree, or while a point is added through the vector store manager, the operation reports an error instead of success, a crash or a hang, whichever of the two trees' files failed. A lookup never changes the file and never answers from a failed read; when an insertion ends because the tree or its root could not be read, nothing has been written, everything stored before is still found through the same handle, and repeating the insertion succeeds.",
  ["histories","fault_sequences"],"every reachable small vector tree and every sequence position of an addition to the store, times every storage call failing",
  "no test makes the storage of the vector tree fail",
  ["pkg/btree/btree.go","pkg/vectorpage/manager.go"],[("traversal and reading of nodes","BTree.traverse, BTree.readNode"),("writing of split nodes","BTree.Insert"),("write-through of graph insertions","VectorPageManager.AddNode")],
  None,["error results", "contents of the files"])
# ---------------------------------------------------------------- client
p("C01","Client queries return exactly the matching records, in order",
  "For an index built from a JSON Lines data file, a client query comparing a field with a value returns exactly the records whose value of the same type satisfies the comparison, each once per value, ordered by that field in the requested direction (ties in any order), at most as many as the limit asks for, and restricted to the selected fields. This holds for every comparison operator, direction, value type, tree size and for values not present in the data. A query on an unknown field is refused.",
  ["inputs"],"every small data set over a value alphabet, trees of 1..3 levels, every operator, direction and probe value including absent ones",
  "client tests query mocked tiny trees; end-to-end comparison with the data for every operator and direction is missing",
  ["src/db/database.ts","src/bptree/bptree.ts","src/bptree/traversal.ts","src/bptree/node.ts","src/db/query-lang.ts"],[("operator dispatch","Database.query"),("scan","TraversalIterator")],None,["rows yielded by the query"])
p("C02","Client results do not depend on timing, concurrency or past failures",
  "Queries running concurrently on one client return the same results as when run alone, for every order in which their network responses arrive. A query stopped early or failing because of a network error never affects other queries, and after a transient failure repeating the query gives the correct result (a query running while a request it shares fails may fail as well; queries started later never do). The client sees a consistent result even when the data file has grown beyond what the index covers.",
  ["schedules","fault_sequences"],"every completion order of the outstanding responses of two concurrent queries within a deviation bound, every single failing response, every early stop",
  "client tests await one call at a time with always-successful mocks",
  ["src/db/database.ts","src/file/index-file.ts","src/file/multi.ts","src/bptree/bptree.ts","src/bptree/node.ts"],[("memoised promises","fields, LinkedMetaPage, BPTree.root, child")],
  [("promise caches","shared pending responses","indexHeadersPromise, metaPageDataPromise, rootNodeCache, childrenCache")],["rows per query"])
p("C03","Range fetching returns exactly the requested bytes or an error",
  "Fetching a list of byte ranges over HTTP returns, in order, one result per requested range holding exactly those bytes of the file (cut at its end) and the file's total length, whichever conforming way the server answers: single part, multipart, or whole file with individual retries. Any other answer, such as a missing or surplus part, a refused range or an error status, results in an error, as does an expected length stated by the caller that differs from what is delivered. It never returns bytes of a different range as if they were the requested ones.",
  ["fault_sequences","inputs","configurations"],"every combination of range lists and server behaviours from an enumerated menu, with multipart enabled and disabled",
  "no test covers range requests",
  ["src/resolver/range-request.ts","src/resolver/multipart.ts"],[("status dispatch","requestRanges"),("fallback","resolveIndividualPromises")],None,["returned chunks"])
p("C04","Multipart responses are decoded identically however they are chunked",
  "Decoding a multipart byte-range response yields exactly its parts with their headers and bytes, independent of how the network splits the stream into chunks and of the content of the parts, including parts containing the boundary text. A truncated or malformed response ends in an error or a clean end, never in a part with wrong bytes and never in an endless wait. Parts of any size, including larger than the internal buffer, are delivered whole.",
  ["inputs","fault_sequences"],"every chunking of small bodies (all cut sets up to a bound), chunk sizes around the buffer size for large bodies, every truncation point",
  "tests decode two bodies with one chunking",
  ["src/resolver/multipart.ts"],[("ring buffer reader","getReader, extend"),("part parser","parseMultipartBody")],
  [("ring buffer","4096-byte window over the stream","parseMultipartBody")],["decoded parts"])
p("C05","Variable-length integers agree between indexer and client",
  "The client decodes every variable-length integer that the indexer writes to the same number, consuming the same number of bytes, and encodes numbers to the same bytes, for all values a file offset or count can take up to the exact integer range of the client. Truncated or overlong encodings are reported as such and never decoded to a number. The indexer's size prediction equals the number of bytes written.",
  ["inputs"],"all values up to 2^16, every power-of-two neighbourhood up to 2^53, all byte strings up to a length over boundary bytes",
  "tests check values below 2^28 only",
  ["src/util/uvarint.ts","pkg/encoding/sizeVarint.go"],[("codec","encodeUvarint, decodeUvarint"),("size","SizeVarint")],None,["value and length"])
p("C06","The client reads index headers exactly as the indexer wrote them",
  "The client reports exactly the fields, value types, format, record count and read position stored by the indexer, for any number of fields including lists that span several header pages, any field names and any mixture of types per field. Locating a field's index finds exactly the header entry of that field and type. Truncated or unknown header data is refused.",
  ["inputs","histories"],"every number of fields 1..31+ around header page boundaries, mixtures of types, name lengths, all truncations of header data",
  "tests parse one hand-made header",
  ["src/file/index-file.ts","src/file/meta.ts","src/file/multi.ts"],[("header walk","LinkedMetaPage.next, IndexFileV1"),("decoding","readFileMeta, readIndexMeta")],None,["fields(), seek(), metadata()"])
p("C07","Query building is side-effect free and validation is exact",
  "Deriving a new query from an existing one never changes the original or any other query derived from it, whatever the order of calls, and the resulting query contains exactly the clauses given, in order. Validation accepts a query exactly when every clause given is a non-empty list, its fields exist, its values have one of the field's stored types, its operators and direction are known, its ordering field is the filtered field and its selected fields exist. Search validation accepts exactly gram lengths 1 to 3 in ascending order on fully searchable fields.",
  ["histories","inputs"],"every tree of builder calls up to a depth; every combination of clause values from a menu of valid and invalid ones",
  "tests check chains along one path and single invalid values",
  ["src/db/query-builder.ts","src/db/query-validation.ts"],[("copy on derive","QueryBuilder.where/orderBy/select/limit"),("validation","validateQuery, validateSearch")],None,["toQuery() of every builder; accept/reject"])
p("C08","Text search returns each matching record once, with the right score",
  "A text search returns exactly the records whose searchable field shares at least one token with the query text, each once, best score first, where the score adds up, for every query token, the inverse-document-frequency weighted saturation of how often the token occurs in that record. Records without a common token are never returned. Records of (nearly) equal score may come in any order; apart from that the result does not depend on the random order in which tokens are processed.",
  ["inputs","schedules"],"every small corpus over a word alphabet, every query, all token processing orders, every gram configuration",
  "tests cover the tokenizer and the table separately, never the search",
  ["src/db/database.ts","src/bptree/bptree.ts","src/ngram/tokenizer.ts","src/ngram/table.ts"],[("term frequency scan","BPTree.termFrequency"),("scoring","Database.query"),("ranking","PriorityTable")],None,["rows and scores yielded"])
p("C09","Client and indexer cut text into the same tokens",
  "For texts of ASCII letters, digits, punctuation and whitespace the client produces exactly the tokens the indexer stores, for each gram length, and its shuffling only permutes them. Other characters never make the client fail or drop tokens of neighbouring words, and each token carries the bytes and index type of its own text and length. Unknown gram lengths are refused.",
  ["inputs"],"every string up to a length over an alphabet of letters, digits, punctuation, whitespace and non-ASCII characters (including astral), every gram range",
  "tests compare a few phrases",
  ["src/ngram/tokenizer.ts",NG],[("tokenizer","NgramTokenizer.tokens, BuildNgram")],None,["token lists"])
p("C10","Caching range requests is transparent",
  "Fetching through the caching layer returns exactly what fetching directly would return, for every sequence and every interleaving of requests, whether ranges repeat, are contained in, overlap or are disjoint from earlier ones. Requests for several ranges at once return all of them. A failed fetch is not remembered as an answer.",
  ["histories","schedules","fault_sequences"],"every sequence of range requests up to a depth over a small file, sequential and concurrent, with each fetch failing in turn",
  "no test covers the cache",
  ["src/resolver/cache.ts"],[("containment lookup","cache")],[("cache","list of ranges with pending responses","cache")],["returned bytes"])
p("C11","Queries transfer only what their answers need",
  "A query that hands out some rows, because its limit says so or because no more are asked for, fetches from the index no more than the list of fields, one page per level of the field's tree and the leaves walked, up to a small constant factor, and from the data no more than the records handed out and, for fields stored by reference, the values of the keys on visited pages. What is transferred does not grow with the records that are not asked for, and nothing is fetched after the caller stops. A search reads index pages in proportion to the places of its tokens and, of the data, only the records handed out.",
  ["inputs","configurations"],"indexes of 1 to tens of thousands of records in several orders and of up to 100 fields; every operator, direction, menu of values, number of rows and way of stopping; every requested byte counted",
  "tests look at rows, never at what was transferred for them; the point of the format is that a browser can query a file far too large to download",
  ["src/db/database.ts","src/bptree/bptree.ts","src/bptree/traversal.ts","src/file/index-file.ts","src/file/multi.ts","src/resolver/cache.ts"],[("lazy row iteration","query"),("descent by page","BPTree, TraversalIterator"),("header list","IndexFileV1.indexHeaders")],None,["requested ranges of index and data"])
p("C12","A client can read an index at any moment while it is being extended",
  "Whenever a client opens an index file while the indexer is extending it, or after the indexer was interrupted, queries and searches on fields that were there before return every matching record that had been indexed before, besides only records of the data that match, each once and in order. Only between adding and describing a new field of the header list may the client report an error instead.",
  ["crash_points","histories","configurations"],"every prefix of the sequence of writes of extending indexes of several kinds and sizes, through splits of leaves and roots up to the third level and growth of the header list over pages; every field queried both ways and searched by a client that opens the file at that moment",
  "no test reads an index that is not complete, and none runs the client on an index in the making; served files are appended to while they are read",
  [JL,BT,LP,PF,"src/db/database.ts","src/file/multi.ts","src/bptree/bptree.ts"],[("write ordering in splits","BPTree.Insert"),("write ordering in the header list","LinkedPage.AddNext, SetMetadata")],
  [("write log","ordered storage writes","io.ReadWriteSeeker under the page file")],["rows handed out by the client"])
# ---------------------------------------------------------------- tools
p("R01","Converting JSON Lines to JSON keeps every record and the input file",
  "Converting a JSON Lines file writes a JSON array holding exactly the records of the file, in order and with unchanged values, next to the input under the corresponding name. The input file is never modified or replaced, whatever its name. If any line is not valid JSON, the tool reports failure and leaves no output file behind that it did not find there.",
  ["inputs"],"every file over a record grammar up to a number of lines, every file and directory naming pattern from a menu",
  "the tool has no tests",
  ["scripts/jsonl2json/src/main.rs"],[("conversion","main")],None,["output and input files"])
p("R02","The command line indexer is incremental, repeatable and read-only on data",
  "Running the command line indexer on a data file creates or updates the index so that it equals the index obtained in one go, for every way the data grew between runs; running it again without new data leaves the index bytes unchanged. The data file is never modified, its declared search fields are honoured (JSON Lines), and invalid invocations, unreadable input or malformed data end with a failing exit status without touching existing index content.",
  ["histories","configurations"],"every sequence of appends and runs up to a depth, each format, with and without search fields, every invalid invocation from a menu",
  "the command has no tests",
  ["cmd/main.go",MM,IX],[("wiring of handler, index and data","main")],None,["exit status, index and data file bytes"])

here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
with open(os.path.join(here, "properties.jsonl"), "w") as f:
    for x in P: f.write(json.dumps(x) + "\n")
print(len(P))
