# Writes /verif/properties.jsonl (one place to edit the property texts).
import json
MAPS=["int_map.go","string_map.go","bytes_map.go","arr_map.go","generic_map.go"]
SETS=["int_set.go","string_set.go","bytes_set.go","arr_set.go","generic_set.go"]
ALL=["amt.go"]+MAPS+SETS
P=[]
def p(id,title,statement,over,qtext,why,files,mech,observe,state=None,hook=None):
    a={"files":files,"mechanism":[{"name":n,"where":w} for n,w in mech],"observe_at":observe,"hook_needed":hook}
    if state: a["state"]=[{"name":n,"meaning":m,"where":w} for n,m,w in state]
    assert len(title)<=80,title
    P.append({"id":id,"title":title,"statement":statement,"quantifier":{"over":over,"text":qtext},"why_tests_cant":why,"anchors":a})

TRIE=("pmap/tmap","which of 16 slots are present / hold an entry rather than a sub-trie","amt.go: type link")
p("C01","Every map behaves as an ideal dictionary",
"For each of the map types (integer, string, byte-slice, fixed-array and custom keys, with any value type), after any sequence of set, modify and delete calls, every lookup returns exactly the value most recently stored for that key, and reports the key missing if it was never stored or was deleted since. Operating on one key never changes, hides or loses the entry of another key, and deleting an absent key changes nothing.",
["inputs","histories","programs"],"all finite operation sequences over all keys, all hash seeds, all value types, all five map types",
"The tests insert keys 0..10^6 in ascending order with int values into two of the five map types; no interleaving of set/modify/delete, no other value types, no adversarial hashes.",
MAPS+["amt.go"],[("insert/grow/split","Set and Mod in each *_map.go"),("delete/shrink/collapse","Del in each *_map.go"),("lookup","Ptr/Get/Val in each *_map.go")],["return values of Get/Val/Ptr/All/Len"],[TRIE])
p("C02","Every set behaves as a mathematical set",
"For each of the set types (integer, string, byte-slice, fixed-array and custom keys), after any sequence of add and delete calls, membership is reported for exactly those keys that were added and not deleted since. Adding a present key and deleting an absent key change nothing, and operating on one key never affects membership of another.",
["inputs","histories","programs"],"all finite operation sequences over all keys, all hash seeds, all five set types",
"The tests cover two of the five set types in one fixed ascending add-all/delete-all pattern; byte-slice, array and custom-key sets are essentially never deleted from.",
SETS+["amt.go"],[("Add","Add in each *_set.go"),("Del","Del in each *_set.go"),("Has","Has in each *_set.go")],["return values of Has/All/Len"],[TRIE])
p("C03","Iteration visits every entry exactly once and stops when told to",
"Ranging over a container that is not being added to or deleted from calls the callback exactly once for every present key, with that key and (for maps) a usable pointer to that key's current value, and for nothing else. When the callback returns false no further call is made; the callback may read the container, update values through its pointer, start another iteration, or panic, without disturbing the container or later iterations. Repeating the iteration on an unmodified container yields the same order.",
["inputs","histories"],"all container contents and histories, every stop position, nested iteration, panicking callbacks, all ten container types",
"The tests only count callbacks on one full container of ascending keys and never stop early, nest, check keys or values, or iterate after deletions.",
ALL,[("recursive scan","intScan, stringScan, bytesScan, arrScan, mapScan and *SetScan")],["sequence of callback invocations of All"],[TRIE])
p("C04","Len is the exact number of distinct keys present",
"At every point of every history the reported length equals the number of distinct keys currently stored: it rises by one exactly when an absent key is inserted, falls by one exactly when a present key is deleted, and is unchanged by every other operation, including overwrites, modification of present keys, deletion of absent keys and reads.",
["inputs","histories"],"all operation sequences, all ten container types, all collision depths",
"The tests read the length at four points of a bulk load; never after overwriting, modifying, missing deletes or deep collisions, and for only four of ten types.",
ALL,[("len accounting","Set/Mod/Add/Del in every container")],["Len()"],[("len","number of entries","amt.go: type root")])
p("C05","Reported depth is the exact mean entry depth and grows as log16 of size",
"The reported depth is 0 for an empty container and otherwise the exact arithmetic mean, over present keys, of the number of 4-bit hash digits (least significant first, continuing with the next rehash when a 64-bit hash is used up) that must be consumed before the key's digit path is separated from every other present key, where keys separated by their first digit have depth 0. It is exact after every operation, including deletions that collapse branches, and for well-distributed hashes stays on the order of log16 of the number of keys.",
["inputs","histories"],"all histories of insertions, overwrites and deletions, all ten container types, all hash assignments",
"The tests check only depth > 1 at 10^6 keys, 0 when empty, and equality of two identically built sets.",
ALL,[("dep accounting","Set/Mod/Add (split) and Del (collapse) in every container")],["Dep()"],[("dep","sum of entry depths","amt.go: type root")])
p("C06","Structure is canonical: contents, not history, determine shape",
"For a given hash seed, two containers of the same type that hold the same keys have the same reported depth and the same iteration order, no matter in which order the keys were inserted or which other keys were inserted and deleted in between.",
["histories","inputs"],"all pairs of histories ending in the same key set under the same seed, all ten container types",
"The one test compares two integer sets built by the same ascending insertions with no deletions.",
ALL,[("split on insert, collapse on delete","Set/Mod/Add and Del in every container"),("bit-ordered slots","popcount indexing")],["Dep()","order of All callbacks"],[TRIE],"a controlled hash seed (the checks replace hash/maphash at build time; no hook in /repo)")
p("C07","Unsafe pointer use stays in bounds, aligned and visible to the GC",
"No operation of any container on legal input reads or writes outside an allocated object, forms a misaligned or wrongly typed pointer, or crashes, and every key and value held by a container stays alive and bit-for-bit intact across garbage collections at any moment.",
["inputs","histories","schedules"],"all operation sequences, all value shapes (zero-size, large, pointer-bearing), garbage collection at any point",
"The tests run without sanitizers, with pointer-free int values, and an out-of-bounds slot access inside a rounded-up allocation or a missed pointer is silent there.",
ALL,[("pointer arithmetic over link arrays","all *_map.go, *_set.go"),("array sizing","newLinkArray in amt.go")],["checkptr, AddressSanitizer and GC instrumentation; value integrity"],[TRIE])
p("C08","Concurrent reads need no locking; locked writes are linearizable",
"Any number of goroutines may call read operations (lookup, membership, iteration, length, depth) on the same container at once without data races and each gets the correct answer, as long as no write runs at the same time. When callers guard a container with a readers-writer lock, every concurrent history of reads and writes is linearizable against a dictionary or set.",
["schedules","histories"],"all interleavings of concurrent readers, and of lock-disciplined readers and writers",
"The tests are single-threaded.",
ALL,[("read paths write no shared state","Ptr/Get/Val/Has/All/Len/Dep in every container")],["Go race detector reports","recorded histories at the client boundary"])
p("C09","Deleted and overwritten data is released",
"Once a key is deleted or its value overwritten, and the caller keeps no reference, the container no longer keeps the removed value or the deleted key reachable, so both can be garbage collected; this holds after any later or earlier operation, including lookups and deletes of absent keys. Entries still present are never released.",
["histories","inputs"],"all operation sequences, all positions of the deleted entry, all pointer-bearing key and value types",
"The tests never observe reachability; a leaked slot or scratch pointer has no functional effect.",
ALL,[("traversal path is not retained","Del in every container"),("vacated slots are cleared","Del in every container")],["weak pointers to keys and values after forced GC"])
p("C10","Value pointers stay valid aliases until their key is deleted",
"A pointer to a value obtained from a lookup, from iteration or inside a modify callback refers to the stored value itself: writes through it are seen by every later lookup and iteration, and later set or modify calls on that key are seen through it. This remains true whatever is inserted, modified or deleted under other keys, until that key itself is deleted. From then on the pointer refers to a detached value: writes through it never affect the map, and nothing done to the map is seen through it.",
["histories","inputs"],"all operation sequences between obtaining the pointer and using it, all map and value types",
"The tests only read through a pointer immediately after obtaining it.",
MAPS,[("values live in their own allocation, updated in place","Ptr, Set, Mod, Del in each *_map.go")],["*V aliasing observed via Get/Ptr/All"])
p("C11","Modify calls its callback once, on the stored value, atomically",
"Modify invokes its callback exactly once, synchronously, with true and a pointer to the current value if the key is present, or false and a pointer to a zero value if it is absent, and whatever the callback leaves there is what the map stores. While the callback runs, reading the map shows every other key unchanged. If the callback panics or exits the goroutine, the map stays fully usable: other keys are unchanged and a key that was absent is still absent.",
["inputs","histories","fault_sequences"],"all map states and key positions (empty slot, full node, collision at any depth, existing key), callbacks that write, read the map or panic",
"The test modifies one present and one absent key of a one-entry string map; it never collides, reads in the callback or panics.",
MAPS,[("callback before structural change","Mod in each *_map.go")],["callback invocations and arguments; map contents during and after"])
p("C12","Uninitialized containers are inert and detectable",
"The zero value of every container type reports itself as nil, has length 0 and depth 0 and, for maps, yields a zero value from the zero-tolerant value lookup; every other operation on it panics recoverably instead of returning a result. A constructed container never reports nil, starts empty, and stays non-nil even after all keys are deleted.",
["inputs","programs"],"all ten container types, all value types, all operations",
"The tests never touch a zero container directly except through one nested value lookup.",
ALL,[("nil root checks","Nil, Len, Dep, Val in every container; root.Len/root.Dep in amt.go")],["results and panics of each method"])
p("C13","Copies share one container; distinct containers are independent",
"Copying a container value (assignment, argument passing, storing inside another container or interface) yields a handle on the same contents, so every change made through one handle is immediately visible through all. Distinct containers never influence each other, even when the same keys are used, when one is nested in another, or when different goroutines operate on different containers at the same time.",
["programs","histories","schedules"],"all interleavings of operations over several handles and several containers, including parallel use of distinct containers",
"The tests copy one container once (nested map) and never compare handles after writes or use several containers in parallel.",
ALL,[("handles hold one root pointer; no package state","type definitions in every file; amt.go: root")],["results through every handle; race detector for parallel distinct containers"])
p("C14","Keys are compared exactly and caller key data is never altered",
"Every value of a key type is usable and distinct from every other: the full 64-bit integer range including negatives and values differing only in high bits, empty strings and slices, embedded NULs, common prefixes, keys longer than any internal buffer, and arrays differing in any one byte. The keys reported by iteration equal the inserted ones exactly, a nil and an empty byte slice are the same key, lookups accept any equal copy of the key, and no operation modifies the caller's key bytes.",
["inputs","histories"],"all keys of each key type, adversarially close pairs",
"The tests use only 0..10^6 and their decimal representations.",
ALL,[("inline 64-bit keys in two 32-bit fields","int_map.go, int_set.go"),("key comparison","string/bytes/arr/generic files")],["lookups and iteration keys; contents of caller slices"])
p("C15","Hash helpers are usable, deterministic and rehash per iteration count",
"The provided integer, string and byte-slice key types can each be used directly as the key type of the generic map and set, and a key type that delegates to the byte-hashing helper works likewise. For a fixed seed and iteration count hashing terminates for every iteration count, depends only on the key's content, gives equal keys equal hashes, and (up to accidental 64-bit collisions) differs for different non-empty keys of the same length, different seeds and different iteration counts. The byte-hashing helper agrees with the byte-slice key type.",
["inputs"],"all keys, seeds and iteration counts",
"No test calls a hash helper directly or uses the integer and string generic keys.",
["generic_map.go","int_map.go","string_map.go","bytes_map.go"],[("HashBytes","generic_map.go"),("Hash/Equal methods of Int, String, Bytes","int_map.go, string_map.go, bytes_map.go")],["return values of Hash/Equal/HashBytes"])
p("C16","Keys with colliding hashes remain separate",
"Distinct keys whose hashes agree in any number of leading 4-bit digits, including complete 64-bit collisions that are only resolved after one or more rehashes, are stored, found, modified, iterated and deleted independently. Every insert, lookup and delete on them terminates with work proportional to the length of the shared prefix.",
["inputs","histories"],"all pairs and groups of keys with shared hash prefixes of 1 to several times 16 digits, all operation orders, all ten container types",
"Well-distributed hashes of 10^6 keys share about five digits; nothing ever reaches a rehash, and custom keys with weak hashes are never tested.",
ALL,[("rehash of both keys when digits run out","Set/Mod/Add split loop; Ptr/Has/Del descent")],["operation results; number of hash computations per operation"],[TRIE],"a controlled hash function (the checks replace hash/maphash at build time and use custom key types; no hook in /repo)")
p("C17","Custom keys are used only through their contract",
"The generic map and set decide identity only by the key type's own equality and hash methods, so keys that are equal by that method but differ in representation are one key. Every hash call made for one container uses that container's single seed, drawn independently for each container, and hashing for an operation's key starts at iteration count zero and only moves to the next count after all 16 digits of the previous hash were shared with another present key.",
["inputs","histories","programs"],"all custom key types satisfying the documented contract, all operation sequences",
"The only custom-key test stores a single byte-slice key.",
["generic_map.go","generic_set.go","amt.go"],[("Key interface","generic_map.go: type Key"),("per-root seed","amt.go: newRoot")],["log of Hash/Equal calls made on instrumented keys"])
p("C18","Memory footprint follows current contents, not history",
"After any history the memory retained by a container is that of a container freshly built with the same contents, up to a small constant: growth, churn, repeated fill and empty cycles and failed operations leave nothing behind, and an emptied container retains only a small constant amount. Overwriting values and reading never increase the footprint.",
["histories","inputs"],"all histories of insertions, overwrites, deletions and reads, all ten container types",
"The tests never measure memory; branches that are never shrunk or collapsed are functionally invisible.",
ALL,[("shrink and collapse on delete","Del in every container"),("array capacity by count","newLinkArray in amt.go")],["live heap bytes after forced GC compared with a fresh container"])
p("C19","Each container is laid out by a random seed of its own",
"Every container, of any type and however it comes to exist next to others, draws its own random hash seed when it is constructed. Two containers holding the same keys, even when built by the same operations in the same order, therefore have unrelated layouts: their iteration orders are independent random permutations, so that nobody who knows the keys, or has observed another container, can foresee which keys collide.",
["programs","inputs","histories"],"all ten container types, all key sets, all pairs of containers and what happened before they were constructed",
"The tests never compare two containers; a shared or constant seed has no functional effect.",
ALL,[("per-root seed","amt.go: newRoot"),("every hash starts from the root's seed","Ptr/Set/Mod/Has/Add/Del in every container")],["iteration orders of equally filled containers"])
p("C20","Cost of an operation follows its depth, not the size",
"A lookup, insertion, modification or deletion of a key does work bounded by the number of leading hash digits which that key shares with other present keys (on the order of log16 of the size), whatever the container holds or has held: no operation ever scans, copies or rebuilds more than the branches on its path. Length, depth and the nil test take constant work. A complete iteration takes work proportional to the number of entries and branches.",
["inputs","histories"],"all container types, sizes, hash functions and histories",
"The tests never measure work; a scan or rebuild gives the same results, only later.",
ALL,[("descent by 4-bit digits","Ptr/Has/Set/Add/Mod/Del in every container"),("counters kept up to date","len and dep in amt.go: root")],["number of blocks of the package's code entered by each operation"],[TRIE],"none in /repo (the checks instrument a copy of the sources at build time)")
p("C21","Containers are compact: slots and cells, and nothing else",
"Whatever keys a container holds and however they were inserted, the memory it retains is that of the documented layout: one 16-byte slot for each entry and each branch, kept in one array of 4, 8, 12 or 16 slots per branch according to its occupancy (16 at the root) without headers, and one cell for each entry that holds just the key and the value. Integer keys are stored in the slots, so an integer map's cells hold only values and an integer set has no cells. Nothing else is kept per entry, per branch or per level, up to a small constant per container.",
["inputs","histories","programs"],"all container types, key and value types, hash functions and histories",
"The tests never measure memory; oversized arrays, headers or duplicated keys have no functional effect.",
ALL,[("array capacity by count","newLinkArray in amt.go"),("key-value cells","strkv, byteskv, intkv, arrkv, kv types"),("inline integer keys","int_map.go, int_set.go: pmap/tmap of a link")],["live heap bytes freed by dropping a container, compared with those of the documented layout built by the check"],[TRIE],"none in /repo (the controlled hash tells which keys share branches)")
open(__import__("os").path.join(__import__("os").path.dirname(__import__("os").path.dirname(__import__("os").path.abspath(__file__))),"properties.jsonl"),"w").write("".join(json.dumps(x,ensure_ascii=False)+"\n" for x in P))
print(len(P))
