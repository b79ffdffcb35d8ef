#!/usr/bin/env python3
# Writes properties.jsonl (kept as a script so that the long texts stay readable).
import json, os
P=[]
def prop(id,title,statement,over,qtext,why,files,mech,state=(),observe=(),hook=None):
    P.append(dict(id=id,title=title,statement=statement,
      quantifier=dict(over=over,text=qtext),why_tests_cant=why,
      anchors=dict(files=files,
        state=[dict(name=n,meaning=m,where=w) for n,m,w in state],
        mechanism=[dict(name=n,where=w) for n,w in mech],
        observe_at=list(observe),hook_needed=hook)))

DAGF=["internal/dag/dag.go","internal/dag/cache.go","internal/dag/mmap.go","internal/dag/generate.go"]
prop("C01","Concurrent hashing on one DAG client equals sequential hashing",
 "Any number of goroutines may use one DAG-based client at once, for any mix of heights: every call returns exactly what it would return if it ran alone. No interleaving of callers, background pre-generation and eviction makes a call deadlock, crash, return another epoch's data, or read epoch data that is not completely generated. Epoch data, once handed to a caller, never changes.",
 ["schedules"],"all interleavings (up to a preemption bound) of 2-3 callers on 1-3 epochs plus the background generators, in memory and on disk",
 "The tests never call a client from two goroutines; a unit test sees one arbitrary schedule out of thousands.",
 DAGF+["ethash/client.go","kawpow/client.go","firopow/client.go","octopus/client.go"],
 [("mutex around the epoch map","internal/dag/dag.go:GetCache"),("once per epoch","internal/dag/cache.go:generate"),("a hasher per lookup function","internal/dag/dag.go:NewLookupFunc*")],
 [("epoch map and pre-generated epoch","verification caches kept by the client","internal/dag/dag.go:DAG")],
 ["Compute of every DAG client","internal/dag GetCache and lookup functions"])
prop("C02","Epochs kept in memory: bounded, least recently used goes, next is prepared",
 "A client keeps in memory at most its configured number of epochs plus one prepared in advance. A request for any of that many most recently used epochs is served without generating or loading it again; what is dropped is the least recently used. The first request for an epoch higher than all earlier ones prepares the following epoch in the background, and the first request for that following epoch then uses what was prepared, unless a still higher epoch was requested in between.",
 ["histories"],"all request histories up to a depth over a small set of epochs, for every retention count 1..3, in memory and on disk",
 "No test requests more than a few increasing heights or looks at what is retained; eviction order depends on the whole history.",
 DAGF[:2],[("least-recently-used scan","internal/dag/dag.go:GetCache"),("future cache hand-over","internal/dag/dag.go:GetCache")],
 [("used","time of last request of an epoch","internal/dag/cache.go:cache")],["file accesses per request","live epoch objects after garbage collection"])
prop("C03","Disk-backed epoch data outlives its users and is then released",
 "A computation on disk-backed epoch data always reads valid memory and returns the right result, even if the epoch is evicted and the garbage collector runs at any moment during the computation. Once an evicted epoch is no longer used by anyone, its memory mappings and open files are released.",
 ["schedules","histories"],"every point of a computation at which eviction plus garbage collection can strike, for every DAG algorithm; every eviction history of a short request sequence",
 "Unmapping happens in a finalizer, so it depends on when the collector runs; the tests never evict an epoch that is in use and never force a collection.",
 DAGF[:3]+["ethash/client.go","kawpow/client.go","firopow/client.go","octopus/client.go"],
 [("finalizer that unmaps","internal/dag/cache.go:finalizer"),("keep-alive after hashing","ethash|kawpow|firopow|octopus/client.go:Compute"),("lookup closures hold the epoch","internal/dag/dag.go:NewLookupFunc*")],
 (),["results of Compute","mappings and descriptors left"])
prop("C04","A crash at any point never corrupts later results",
 "If the process is killed or the machine loses power at any point while epoch data is generated, stored or cleaned up, every later run on the same storage directory still returns correct results. It reuses only files that were stored completely; anything else is generated again.",
 ["crash_points"],"every storage operation and every step inside generation as a kill point; for power loss additionally every prefix of directory operations and every subset of unsynced sectors and sizes",
 "The tests never interrupt a run, and a real power loss cannot be produced by a unit test.",
 DAGF[1:3],[("write to a temporary file, sync, then rename","internal/dag/mmap.go:memoryMapAndGenerate"),("header check on load","internal/dag/mmap.go:memoryMap")],
 (),["results of a new client on the directory left behind"])
prop("C05","Failing storage never changes a result",
 "Whatever storage operations fail (creating, sizing, mapping, syncing, closing, renaming, opening, removing, making the directory), in any combination, every request still returns the correct epoch data, without panicking. No failure leaves a partial file under a name that a later run would load, nor a leftover temporary file or open descriptor when the cleanup itself succeeds.",
 ["fault_sequences"],"every single storage operation of a short history failing, every pair of them, every suffix of them, and each kind of operation failing throughout",
 "The tests run on a healthy disk only; no error path of the storage code is ever executed.",
 DAGF[1:3],[("fall back to memory","internal/dag/cache.go:generate"),("cleanup on error","internal/dag/mmap.go:memoryMapAndGenerate")],
 (),["results","directory contents","open descriptors and mappings"])
prop("C06","Incomplete or foreign cache files are never used",
 "A stored file whose length or header is not that of a complete file for the requested epoch (empty, cut short, too long, wrong header, or not a regular file) is treated as absent: the request neither panics nor returns a wrong result. Afterwards a complete file stands in its place where that is possible.",
 ["inputs"],"every length from zero to beyond the full size, every single-bit header corruption, and non-files, for the epoch file and the second-level file independently",
 "The tests only ever load files that the same run wrote.",
 DAGF[1:3],[("validation on load","internal/dag/mmap.go:memoryMap and internal/dag/cache.go:generate")],
 (),["results","directory contents afterwards"])
prop("C07","Clients sharing one storage directory never disturb each other",
 "Several clients, in one process or several, of the same or different chains, may use one storage directory at the same time, and each still returns correct results. At every moment each file visible under an epoch's name is complete and correct. A client that generates an epoch removes the stored files of its own chain and revision that are older by the retention count or more, and removes, replaces or creates nothing else, inside or outside the directory.",
 ["schedules","histories"],"all interleavings of the storage operations of two or three clients up to a preemption bound, and all short request histories with pre-existing files of other chains, revisions and epochs",
 "Tests run one client at a time (the test script even forces one package at a time); clean-up is never checked.",
 DAGF[1:3],[("unique temporary name and atomic rename","internal/dag/mmap.go:memoryMapAndGenerate"),("clean-up window","internal/dag/cache.go:generate"),("file naming","internal/dag/dag.go:cacheStorageLocation, l1StorageLocation")],
 (),["results","directory contents after every storage operation","paths passed to mutating operations"])
prop("C08","Epoch data depends only on the chain parameters and the epoch",
 "The light cache, the second-level cache and every dataset item of an epoch equal the published light-cache construction for the chain's parameters. They are the same however the epoch is obtained: generated in memory, generated to disk, loaded from disk by a later run, prepared in advance, or partly on disk already.",
 ["configurations","inputs"],"all combinations of storage mode, second-level cache on or off, starting directory contents and request order for a set of small parameter sets and epochs, and every item index of the small datasets at every item width",
 "Tests check a few items of a few epochs obtained in one way.",
 DAGF,[("cache generation","internal/dag/generate.go"),("load or generate","internal/dag/cache.go:generate"),("seed and size selection","internal/dag/dag.go")],
 (),["Cache, L1 and lookup functions"])
prop("C09","Epoch, seed and sizes follow the chain's schedule at every height",
 "For each shipped chain, every height maps to the epoch, seed hash, cache size and dataset size that the chain's schedule defines: sizes are the largest admissible multiple of the item size with a prime count below the linearly growing bound. This holds for tabulated epochs, for those after the end of the table, and at every epoch boundary, without panicking.",
 ["inputs"],"every epoch of the tables of all five chains, every epoch boundary, and the epochs beyond the tables up to a bound",
 "Tests look at ten epochs of one configuration and never at the end of a table.",
 ["internal/dag/dag.go","internal/dag/config.go","ethash/client.go","ethash/ethash_lookup.go","kawpow/client.go","kawpow/kawpow_lookup.go","firopow/client.go","firopow/firopow_lookup.go","octopus/client.go","octopus/octopus_lookup.go"],
 [("lookup tables with computed fallback","internal/dag/dag.go:CacheSize, DatasetSize"),("chain parameters","*/client.go")],
 (),["CalcEpoch, SeedHash, CacheSize, DatasetSize of the shipped clients"])
prop("C10","Ethash and Etchash results equal the specification",
 "For every 32-byte header hash, nonce and height, the mix digest and result of the Ethereum and Ethereum Classic clients are those defined by the Ethash specification for the epoch's light cache.",
 ["inputs"],"header and nonce shapes (every bit position, byte patterns and boundaries) times epochs at small parameters, and selected inputs at the shipped parameters, against an independent reference",
 "Three vectors per chain; every other input is untested.",
 ["ethash/ethash.go","ethash/client.go"],[("hashimoto","ethash/ethash.go"),("chain parameters","ethash/client.go")],(),["Compute"])
prop("C11","KawPow and FiroPow results equal the ProgPow specification",
 "For every 32-byte header hash, nonce and height, the mix digest and result of the Ravencoin and Firo clients are those of ProgPow with that chain's period, seeding and padding. The same core is correct for every admissible choice of period, lanes, registers, rounds and accesses.",
 ["inputs","configurations"],"header, nonce and height shapes times epochs at small parameters, all small core configurations, and selected inputs at the shipped parameters, against an independent reference",
 "A fixed list of vectors; the selectors, rotations and merges taken depend on the input.",
 ["internal/progpow/algorithm.go","internal/progpow/math.go","internal/progpow/mixrng.go","internal/progpow/kiss99.go","kawpow/kawpow.go","kawpow/client.go","firopow/firopow.go","firopow/client.go"],
 [("core","internal/progpow/algorithm.go"),("seeding","kawpow/kawpow.go, firopow/firopow.go")],(),["Compute","internal/progpow Hash"])
prop("C12","Octopus results equal the specification",
 "For every 32-byte header hash, nonce and height, the result of the Conflux client is the one defined by the Octopus algorithm for the epoch's light cache.",
 ["inputs"],"header and nonce shapes (every nonce residue within a warp, every bit position, boundaries) times epochs at small parameters, and selected inputs at the shipped parameters, against an independent reference",
 "Three vectors; the polynomial phase branches on header words and on the nonce's position in its warp.",
 ["octopus/octopus.go","octopus/client.go"],[("hash","octopus/octopus.go")],(),["Compute"])
prop("C13","Equihash accepts exactly the valid solutions",
 "For every parameter set shipped (Flux, Bitcoin Gold, ZClassic, Zcash, Aion) and every untwisted one of 3 or more rounds whose collision length is 8 to 25 bits and for which the collision length times the number of rounds plus one equals the hash width, verification returns true exactly when the solution has the right length, its indices pairwise collide round by round, each left subtree's first index is below the right one's, all indices are distinct, and the final XOR is zero. Everything else is rejected by false or an error.",
 ["inputs"],"all exact and near solutions of a complete search at tiny parameters over many headers, and for each shipped parameter set every single-bit change, subtree swap, duplication, index replacement and length change of known valid solutions",
 "Two positive vectors, no negative one at all.",
 ["equihash/equihash.go","equihash/client.go"],[("index decoding","equihash/equihash.go:indicesFromMinimal, expandArray"),("tree rules","equihash/equihash.go:validateSubtrees, verify")],(),["Verify"])
prop("C14","BeamHash III accepts exactly the valid solutions",
 "Verification of a 40-byte header and 104-byte solution returns true exactly when the 32 decoded indices satisfy BeamHash III's round-by-round collision, ordering, distinctness and zero-result rules for that header and the solution's extra nonce. Everything else is rejected by false or an error.",
 ["inputs"],"every single-bit change, subtree swap, duplication, transplantation and index replacement of known valid solutions, and header changes, against an independent reference",
 "Three positive vectors, no negative one.",
 ["beamhashiii/beamhashiii.go","beamhashiii/client.go"],[("tree rules","beamhashiii/beamhashiii.go:validateSubtrees, verify"),("mixing","beamhashiii/beamhashiii.go:applyMix")],(),["Verify"])
prop("C15","Cuckoo Cycle accepts exactly single cycles of ascending edges",
 "Verification (Cuckoo as used by Aeternity, Cuckaroo as used by Cortex, and any edge function, mask and even proof size) returns true exactly when the edges are in range, strictly ascending, and together form one single cycle whose length is the proof size. Every other edge list is rejected by false or an error, and verification always terminates.",
 ["inputs"],"all edge lists over all small graphs (injected edge functions) for proof sizes 2 to 8, and every replacement, permutation, duplication and out-of-range change of known valid 42-cycles",
 "Six positive vectors, no negative one: order, branches, dead ends, short cycles and range are untested.",
 ["cuckoo/cuckoo.go","cuckoo/cuckaroo.go","cuckoo/client.go","internal/crypto/siphash.go"],[("edge checks and cycle walk","cuckoo/cuckoo.go, cuckoo/cuckaroo.go")],(),["Verify"])
prop("C16","Eaglesong equals the specification for every input length",
 "For an input of any length and content, the Nervos client returns the 32-byte Eaglesong sponge digest, with the delimiter placed directly after the input and as many 32-byte blocks absorbed as that requires.",
 ["inputs"],"every length from 0 up to several blocks times content patterns including every bit position of a block, against an independent reference",
 "One vector of 14 bytes: multi-block input, exact block multiples and the empty input are untested.",
 ["eaglesong/eaglesong.go","eaglesong/eaglesong_constants.go","eaglesong/client.go"],[("sponge","eaglesong/eaglesong.go")],(),["Compute"])
prop("C17","HeavyHash equals the specification and always terminates",
 "For every 32-byte header hash, every timestamp and every nonce, the Kaspa client returns the kHeavyHash digest: matrix drawn from the header until it has full rank, then nibble multiplication, then the two cSHAKE stages. The one header for which no such matrix exists (all zero) is reported as an error; the call always returns.",
 ["inputs"],"every bit position and boundary value of header, timestamp and nonce, headers whose first matrices are rank-deficient, and the degenerate header, against an independent reference",
 "Three vectors with positive timestamps; the rank retry loop and its non-termination are untested through the client.",
 ["heavyhash/heavyhash.go","heavyhash/matrix.go","heavyhash/client.go"],[("matrix generation and rank","heavyhash/matrix.go"),("hash","heavyhash/heavyhash.go")],(),["Compute"])
prop("C18","Autolykos2 equals the specification at every height",
 "For every 32-byte message, height below 2^32 and nonce, the Ergo client returns the Autolykos v2 digest, where the table size follows the growth schedule: constant until height 614400, then 5% larger every 51200 blocks in hundreds, and constant from height 4198400 on. The same schedule and digest hold for clients with another element count (1 to 32) and table-size exponent (10 to 26).",
 ["inputs","configurations"],"every step boundary of the growth schedule for several table sizes and element counts, and every bit position and boundary of message, nonce and height, against an independent reference",
 "Three digests and nine heights of one parameter set.",
 ["autolykos2/autolykos2.go","autolykos2/client.go"],[("growth schedule","autolykos2/autolykos2.go:calcN"),("digest","autolykos2/autolykos2.go:compute")],(),["Compute"])
prop("C19","Every operation is a pure function of its arguments",
 "For every algorithm, the result of a call depends only on the client's parameters and the arguments: not on earlier calls, on other clients, or on calls running at the same time in other goroutines. Calls never modify their argument slices, and later calls or changes to arguments never modify a slice returned earlier.",
 ["histories","schedules"],"all sequences of up to three calls over inputs chosen to collide, all ordered pairs of calls as two unsynchronised goroutines, and preempted pairs, for all ten algorithms",
 "Each test calls a fresh or single client once per vector in one goroutine.",
 ["ethash","kawpow","firopow","octopus","equihash","beamhashiii","cuckoo","eaglesong","heavyhash","autolykos2","internal/crypto","internal/progpow","internal/common"],
 [("no package-level mutable state","all algorithm packages"),("local buffers","all algorithm packages")],(),["Compute and Verify of all clients"])
prop("C20","Malformed input is rejected, never panics",
 "For every algorithm with a fixed input size, an input of any other size (including nil and empty) yields an error and no result. For inputs of the right size, any content whatsoever, and headers of any length where they are free, yields a result or an error; no call panics or fails to return.",
 ["inputs"],"every length from 0 to beyond the right size for every slice argument of every client, times content patterns, and every content pattern at the right size",
 "No test passes a malformed input.",
 ["ethash/client.go","kawpow/client.go","firopow/client.go","octopus/client.go","equihash/equihash.go","beamhashiii/client.go","cuckoo/client.go","eaglesong/client.go","heavyhash/client.go","autolykos2/client.go"],
 [("length checks","*/client.go, equihash/equihash.go:indicesFromMinimal")],(),["Compute and Verify of all clients"])
prop("C21","The table generator emits every requested epoch, and what is committed",
 "For every requested number of epochs and size parameters, the generated source file is valid Go in the requested package and contains exactly one correct cache size and one correct dataset size per epoch, in order. Run with the parameters recorded in each algorithm package it reproduces exactly the committed tables.",
 ["inputs","configurations"],"every epoch count from 0 to 60 and around multiples of the row width and the default, several parameter sets, and the four recorded invocations",
 "The generator has no tests.",
 ["cmd/gen-lookup/main.go","ethash/ethash_lookup.go","kawpow/kawpow_lookup.go","firopow/firopow_lookup.go","octopus/octopus_lookup.go"],
 [("table formatting","cmd/gen-lookup/main.go:formatLookupTable"),("sizes","internal/dag/dag.go")],(),["the generated file"])
prop("C22","Hash building blocks equal their definitions on every input shape",
 "The 800-bit Keccak permutation, SipHash-2-4 and 4-8 node and block functions, xoshiro256++, the FNV variants, the reusable Keccak hashers (also in place), the personalised BLAKE2b and cSHAKE wrappers, and bulk XOR (any lengths, alignments and exact overlap) return what their definitions say and touch no memory outside the destination.",
 ["inputs"],"every single-bit and boundary state or operand, every length and alignment up to a bound, against independent definitions",
 "Tests fix a handful of vectors; shifted, overlapping, odd-length and boundary operands are mostly not reached.",
 ["internal/crypto","internal/common/bitutil","internal/common/convutil"],[("primitives","internal/crypto, internal/common")],(),["the primitives' functions"])
out=os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))),"properties.jsonl")
with open(out,"w") as f:
    for p in P: f.write(json.dumps(p)+"\n")
for p in P: assert len(p["title"])<=80,(p["id"],len(p["title"]))
print(len(P))
