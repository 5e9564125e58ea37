import json
P=[]
def p(id,title,st,over,text,why,files,mech,state=None,obs=None,hook=None):
    d=dict(id=id,title=title,statement=st,quantifier=dict(over=over,text=text),why_tests_cant=why,
      anchors=dict(files=files,mechanism=[dict(name=a,where=b) for a,b in mech]))
    if state: d['anchors']['state']=[dict(name=a,meaning=b,where=c) for a,b,c in state]
    if obs: d['anchors']['observe_at']=obs
    d['anchors']['hook_needed']=hook
    assert len(title)<=80,(id,len(title))
    P.append(d)
D='internal/dag/'
p('C01','A request always yields the data of its own epoch',
 "Whatever requests a DAG manager has served before, and whether the data of an epoch is still in memory, prepared ahead, loaded from storage or generated afresh, a request for an epoch yields exactly the verification cache and L1 cache that the chain's parameters define for that epoch. The answer to a request never depends on the history of the manager or of its storage directory.",
 ['histories','configurations'],"every sequence of epoch requests, manager restarts and storage contents left by earlier runs; memory-only and disk-backed; with and without L1",
 "Tests build each client once and ask for a handful of epochs of one fixed history; eviction, look-ahead reuse, reload after restart and out-of-order epochs are never combined.",
 [D+'dag.go',D+'cache.go',D+'mmap.go'],[('per-epoch map with one object per epoch','internal/dag/dag.go GetCache'),('generate-or-load once','internal/dag/cache.go generate')],
 [('caches','epoch -> cache object currently retained','DAG.caches'),('future','object of the look-ahead epoch','DAG.future'),('files','epoch -> stored dump','StorageDir')],
 ['return value of GetCache, Cache(), L1()'])
p('C02','Concurrent use of one client gives the answers of sequential use',
 "When several goroutines use the same client at once, for the same or for different epochs, every call returns exactly what it would have returned had it run alone. No interleaving produces a data race, a deadlock, a panic or a partially generated result.",
 ['schedules'],"every interleaving of concurrent requests, look-ahead generation and hashing on one client, for all algorithms",
 "All tests are single-goroutine; the background look-ahead generation is the only concurrency they ever run and its timing is never varied.",
 [D+'dag.go',D+'cache.go','ethash/client.go','kawpow/client.go','firopow/client.go','octopus/client.go','internal/crypto/hasher.go'],
 [('mutex around the epoch map','internal/dag/dag.go GetCache'),('sync.Once per cache object','internal/dag/cache.go generate'),('one hasher per lookup function','internal/dag/dag.go NewLookupFunc*')],
 [('pc','progress of each caller','call stacks')],['results of concurrent GetCache/Compute/Verify calls','race detector'])
p('C03','Retained epochs are bounded, shared, and evicted least recently used',
 "A DAG manager retains the data of at most the configured number of epochs, apart from one look-ahead epoch, and when it is full it drops the epoch whose last request is oldest. All requests for a retained epoch, simultaneous ones included, share one object, whose data is generated or loaded exactly once.",
 ['histories','schedules','configurations'],"every sequence and interleaving of requests for any configured limit of one or more",
 "Tests never exceed the cache limit with a defined reuse pattern and never look at which epoch was dropped.",
 [D+'dag.go',D+'cache.go'],[('eviction of the oldest used entry when the map is full','internal/dag/dag.go GetCache'),('use time refreshed on every request','internal/dag/dag.go GetCache'),('sync.Once','internal/dag/cache.go generate')],
 [('caches','retained epochs','DAG.caches'),('used','last request time per epoch','cache.used')],['identity of the object returned by successive requests','number of generation runs per epoch'])
p('C04','The next epoch is prepared ahead exactly once and then reused',
 "Whenever a request raises the highest epoch requested so far, the epoch after it is prepared in the background, and a later request for that epoch uses this preparation instead of starting another one. Nothing is prepared beyond the epoch following the highest one requested, and requests at or below that highest epoch start no further look-ahead.",
 ['histories','schedules'],"every sequence and interleaving of requests",
 "No test observes the look-ahead at all; removing, duplicating or misdirecting it leaves all digests unchanged.",
 [D+'dag.go',D+'cache.go'],[('future slot, replaced only when it is behind the requested epoch','internal/dag/dag.go GetCache')],
 [('future','prepared or preparing look-ahead object','DAG.future')],['files created in the storage directory','number of generation runs per epoch','object identity'])
p('C05','An interrupted preparation never leaves unusable data behind',
 "At whatever point a process dies while preparing epoch data, every final file in the storage directory is either absent or complete and correct, and the next process returns correct data. Processes or clients that share a storage directory and prepare the same epoch at the same time never corrupt each other's files or results.",
 ['crash_points','schedules'],"process death before or after every storage operation and in the middle of filling the data, repeated deaths, and any interleaving of two managers on one directory",
 "Tests never stop a generation half-way and never start two managers on one directory at the same time.",
 [D+'mmap.go',D+'cache.go'],[('write to a private temporary file, fill completely, unmap, close, then rename','internal/dag/mmap.go memoryMapAndGenerate'),('header checked on load','internal/dag/mmap.go memoryMap')],
 [('temp','private unfinished file','path.<random>'),('final','published file','cache-*/l1-*')],['directory contents after the crash','data returned by the next process'])
p('C06','Storage failures never change or prevent a result',
 "If any storage operation fails while epoch data is loaded, prepared or published (creating the directory or file, sizing, mapping, locking, unmapping, closing, renaming, re-opening or removing), the request still returns the correct data without error or panic. No incomplete data is left under a final name and no temporary file or file descriptor of a failed preparation remains.",
 ['fault_sequences'],"every single failing storage operation and combinations of several, for both the verification cache and the L1 cache",
 "Tests run on a healthy writable home directory; none of the error branches is ever executed.",
 [D+'mmap.go',D+'cache.go'],[('fallback to a memory buffer on error','internal/dag/cache.go generate'),('clean-up of the temporary file on error','internal/dag/mmap.go memoryMapAndGenerate')],
 None,['data returned','files left in the directory','open descriptors'],'storage operations are intercepted by a source overlay made at check time')
p('C07','Damaged or foreign stored files are never trusted',
 "A stored file whose header or length is not what the requested epoch calls for (empty, shorter, longer, wrong header, not a regular file, unreadable) is never used and never crashes the caller. The data is prepared afresh and the result is correct, for the verification cache and the L1 cache independently.",
 ['histories','fault_sequences'],"every length from zero to beyond the expected one, every header corruption, any file type, independently for both files of an epoch",
 "Tests only ever load files that the same code has just written.",
 [D+'mmap.go',D+'cache.go'],[('header and size check on load','internal/dag/mmap.go memoryMap'),('regeneration when loading fails','internal/dag/cache.go generate')],
 None,['data returned','panics','file content afterwards'])
p('C08','Stored data is isolated per chain and epoch and expires correctly',
 "Data of different chains, revisions, kinds (verification cache or L1) and epochs never shares a file name, and nothing is written outside the configured directory. After epoch data has been prepared, exactly the files of the same chain and revision for epochs that lie at least the configured cache count before it are removed, and no other file ever is.",
 ['histories','configurations'],"every pair of chains, revisions, kinds and epochs, and every history of preparations with arbitrary other files present",
 "Tests look at digests only; a clean-up that removes too much or too little, or a name that two epochs share, is invisible to them unless they hit exactly that pair.",
 [D+'dag.go',D+'cache.go','internal/common/filesystem.go'],[('name built from kind, chain, revision and seed','internal/dag/dag.go cacheStorageLocation, l1StorageLocation'),('clean-up loop','internal/dag/cache.go generate')],
 None,['directory listing before and after each request'])
p('C09','Mapped epoch data outlives its users and is then released',
 "While a call, a lookup function or a caller holding the epoch's data object still uses it, the data stays valid, even if the epoch has been evicted in the meantime and garbage collection runs at any moment. Once an evicted epoch is no longer used by anyone, its memory mapping and file descriptor are released.",
 ['schedules','histories'],"garbage collection at every point of every call, after any eviction history",
 "Whether a collection happens inside a call is up to the runtime; tests never evict an epoch during a computation and never force a collection.",
 [D+'cache.go',D+'dag.go','ethash/client.go','kawpow/client.go','firopow/client.go','octopus/client.go'],
 [('finalizer that unmaps','internal/dag/cache.go finalizer'),('lookup functions keep the object','internal/dag/dag.go NewLookupFunc*'),('explicit keep-alive until the digest is computed','*/client.go Compute')],
 [('mapping','mapped / unmapped','dataFile.mmap')],['map and unmap calls','validity of reads during forced collections'],'mapping operations are intercepted and collection points inserted by a source overlay made at check time')
p('C10','Cache and dataset sizes follow the chain formula for every epoch',
 "For every supported chain and every epoch, the verification cache size and the dataset size are the largest sizes not above the chain's linear growth bound whose number of rows is prime (lowered in double-row steps), whether the epoch is covered by a precomputed table or lies beyond it. Requesting a size never fails for any epoch of the chain.",
 ['inputs','configurations'],"all epochs of all shipped chains: every tabulated epoch and those beyond the tables",
 "Tests check about two dozen epochs of one configuration without tables; about 16,000 table entries and the transition from table to formula are never compared.",
 [D+'dag.go',D+'config.go','ethash/ethash_lookup.go','kawpow/kawpow_lookup.go','firopow/firopow_lookup.go','octopus/octopus_lookup.go','ethash/client.go'],
 [('tables with an epoch limit','internal/dag/config.go LookupTable'),('prime search','internal/dag/dag.go calcCacheSize, calcDatasetSize')],None,['CacheSize and DatasetSize of each shipped client'])
p('C11','Epoch numbers and seeds follow the block height',
 "The epoch of a block is its height divided by the chain's epoch length, rounded down, so that all blocks of an epoch share the same data and neighbouring epochs do not. The seed of a height is Keccak-256 applied to 32 zero bytes once per completed seed epoch, where Etchash advances its seed twice per epoch, and different epochs of a chain always have different seeds.",
 ['inputs','configurations'],"all heights including epoch boundaries, for all shipped chains",
 "Tests check a few heights of one configuration; the chain with different epoch and seed-epoch lengths is not covered.",
 [D+'dag.go',D+'cache.go'],[('CalcEpoch','internal/dag/dag.go'),('SeedHash','internal/dag/dag.go')],None,['CalcEpoch, SeedHash','contents returned for heights around an epoch boundary'])
p('C12','Verification cache, dataset items and L1 cache follow the definition',
 "For every size, round count, parent count, seed and index, the verification cache is the RandMemoHash table of the seed, each dataset item is the FNV and Keccak-512 combination of its pseudo-randomly chosen cache rows, wide items are consecutive 64-byte items, and the L1 cache is the beginning of the dataset. In-memory and stored preparation produce the same words.",
 ['inputs','configurations'],"all seeds, cache sizes, indices up to the 32-bit limit, parent counts and item widths",
 "Tests compare two cache sizes and one dataset; indices beyond the number of rows, other parent counts and the L1 layout are not varied.",
 [D+'generate.go',D+'dag.go','internal/crypto/hasher.go','internal/crypto/fnv.go','internal/common/bitutil/xor_amd64.go'],[('generateCache','internal/dag/generate.go'),('generateDatasetItem','internal/dag/generate.go'),('generateL1Cache','internal/dag/generate.go')],None,['Cache(), L1(), lookup functions'])
p('C13','Ethash and Etchash results follow the Hashimoto definition',
 "For every header hash, height and nonce, the mix digest and the result are those of light Hashimoto over the dataset of the block's epoch. They depend on all 32 bytes of the hash and all 64 bits of the nonce, and on the height only through its epoch.",
 ['inputs'],"all header hashes, heights and nonces, over datasets of any size",
 "Tests compare a few mainnet blocks, which have uniformly random-looking inputs and three or four epochs.",
 ['ethash/ethash.go','ethash/client.go'],[('hashimoto','ethash/ethash.go')],None,['Compute'])
p('C14','KawPow, FiroPow and ProgPow results follow the ProgPow definition',
 "For every header hash, height and nonce, the mix hash and digest are those of the ProgPow variant: a random program fixed by the period of the height, executed for 64 rounds on 16 lanes of 32 registers over the dataset and the L1 cache, seeded and finalised with Keccak-f800 and the chain's padding. Blocks of the same period and epoch run the same program, different periods run different ones.",
 ['inputs'],"all header hashes, heights, nonces and every random-program operation and merge kind, over datasets of any size",
 "Tests compare tens of mainnet blocks; rarely selected operand cases (rotation by zero, multiples of the operation count, extreme operands) and period boundaries are only met by accident.",
 ['internal/progpow/algorithm.go','internal/progpow/math.go','internal/progpow/mixrng.go','internal/progpow/kiss99.go','kawpow/kawpow.go','firopow/firopow.go','internal/crypto/keccak.go'],[('round','internal/progpow/algorithm.go'),('randomMath, randomMerge','internal/progpow/math.go'),('initialize, finalize','kawpow/kawpow.go, firopow/firopow.go')],None,['Compute of kawpow and firopow','progpow.Hash'])
p('C15','Octopus results follow the definition',
 "For every header hash, height and nonce, the digest is that of Conflux's Octopus: quadratic polynomial parameters drawn from the hash modulo 1032193, the 1024 coefficients of the nonce's warp, the evaluations at the nonce's points, and 32 dataset accesses. Nonces at any position of their warp, and values at the modulus boundaries, are treated alike.",
 ['inputs'],"all hashes, heights and nonces, over datasets of any size",
 "Tests compare a few blocks; positions within the warp, degenerate polynomial parameters and large nonces are not varied.",
 ['octopus/octopus.go','octopus/client.go'],[('remap, computeC, octopus','octopus/octopus.go')],None,['Compute'])
p('C16','Equihash accepts exactly the valid solutions',
 "For every supported parameter set, including the twisted Flux variant, every header and every byte string, verification succeeds if and only if the string encodes distinct indices in canonical tree order whose hashes collide on the next collision-width bits at every level and cancel out completely at the root. Everything else, of whatever length, is rejected without a panic.",
 ['inputs','configurations'],"all headers, all byte strings of any length, all shipped parameter sets and small ones",
 "Tests verify about five valid solutions and not a single invalid one; three of the five shipped chains have no test at all.",
 ['equihash/equihash.go','equihash/client.go','internal/crypto/blake.go'],[('validateSubtrees','equihash/equihash.go'),('verify','equihash/equihash.go'),('expandArray, indicesFromMinimal','equihash/equihash.go')],None,['Verify'])
p('C17','BeamHash III accepts exactly the valid solutions',
 "For every 40-byte header and every 104-byte solution, verification succeeds if and only if the 32 encoded indices form a canonical tree of distinct indices whose mixed work bits collide on 24 bits at each of the five levels and vanish at the root, for the seed derived from the header and the extra nonce in the solution. Everything else is rejected without a panic.",
 ['inputs'],"all headers and all byte strings",
 "Tests verify three valid solutions and no invalid one.",
 ['beamhashiii/beamhashiii.go','beamhashiii/client.go'],[('validateSubtrees, applyMix, verify','beamhashiii/beamhashiii.go')],None,['Verify'])
p('C18','Cuckoo and Cuckaroo accept exactly simple cycles of the required length',
 "Verification succeeds if and only if the proof consists of the required number of edges in strictly ascending order, all within the graph, that form one single simple cycle of exactly that length in the graph the header defines. Any other list of numbers is rejected with an error, and the check terminates on every input.",
 ['inputs'],"all headers and edge lists; all small graphs, including multi-edges, branches, several cycles and dead ends",
 "Tests verify four valid proofs and no invalid one: every rejection branch is unexecuted.",
 ['cuckoo/cuckoo.go','cuckoo/cuckaroo.go','cuckoo/client.go','internal/crypto/siphash.go'],[('edge range and order checks','cuckoo/cuckoo.go, cuckoo/cuckaroo.go'),('cycle walk','cuckoo/cuckoo.go, cuckoo/cuckaroo.go')],None,['Verify'])
p('C19','HeavyHash results follow the definition and always terminate',
 "For every 32-byte hash, timestamp and nonce, the digest is that of kHeavyHash: a 64 by 64 matrix of 4-bit entries drawn from the xoshiro256++ stream of the hash, redrawn from the same stream until it has full rank, multiplied with the nibbles of the cSHAKE digest. A hash for which no such matrix exists (all zero) is refused with an error instead of never returning.",
 ['inputs'],"all hashes, timestamps (also negative) and nonces; hashes whose first matrices are singular",
 "Tests use a few random-looking hashes, for which the first matrix is always regular.",
 ['heavyhash/heavyhash.go','heavyhash/matrix.go','heavyhash/client.go','internal/crypto/xoshiro256plusplus.go','internal/crypto/shakehash.go'],[('newMatrix, calculateRank','heavyhash/matrix.go'),('heavyHash','heavyhash/heavyhash.go')],None,['Compute'])
p('C20','Autolykos2 results follow the definition at every height',
 "For every message, height and nonce, the digest is that of Autolykos v2: the table size grows by 5% at each 51,200-block step from height 614,400 until it stays constant after height 4,198,400, and the index derivation, element hashes, and their sum encoded in 32 bytes follow the Ergo definition. This holds for every admissible element count and base table size.",
 ['inputs','configurations'],"all messages, heights around every growth step, nonces, element counts and base sizes",
 "Tests compare a few blocks with the mainnet parameters and about ten heights of the growth schedule.",
 ['autolykos2/autolykos2.go','autolykos2/client.go'],[('calcN','autolykos2/autolykos2.go'),('genIndexes, compute','autolykos2/autolykos2.go')],None,['Compute'])
p('C21','Eaglesong hashes inputs of every length correctly',
 "For every input of every length, including the empty one and lengths around and beyond multiples of the 32-byte block, the digest is the Eaglesong sponge hash with 43 rounds and delimiter 6. The result depends on every input byte and on the length.",
 ['inputs'],"all byte strings",
 "The only test hashes one 14-byte string, so multi-block absorption, word boundaries and padding blocks are never executed.",
 ['eaglesong/eaglesong.go','eaglesong/eaglesong_constants.go','eaglesong/client.go'],[('permute','eaglesong/eaglesong.go'),('absorbing and squeezing','eaglesong/eaglesong.go')],None,['Compute'])
p('C22','Calls reject malformed input, leave arguments alone and are repeatable',
 "A hash, message, header or proof of a length the algorithm does not allow is refused with an error and without a digest, whatever the other arguments, and no hash, message, header, proof, nonce or timestamp makes a call panic. No call modifies the slices it is given or keeps referring to them, and the same call on the same or another client of that kind gives the same answer every time.",
 ['inputs','histories'],"all argument lengths (also nil), all call sequences, with arguments and results modified by the caller between calls",
 "Tests pass only well-formed arguments, each once, and never look at their arguments or at earlier results again.",
 ['ethash/client.go','kawpow/client.go','firopow/client.go','octopus/client.go','equihash/client.go','beamhashiii/client.go','cuckoo/client.go','heavyhash/client.go','autolykos2/client.go','eaglesong/client.go'],[('length checks at the entry points','*/client.go')],None,['Compute and Verify'])
p('C23','Shared primitives follow their published definitions',
 "The shared building blocks (Keccak-256, Keccak-512, Keccak-f800, cSHAKE256, personalised BLAKE2b, SipHash-2-4 and 4-8 with the Cuckoo node and block functions, xoshiro256++, FNV-1 and FNV-1a, byte-order conversions and the XOR of byte strings) give the values of their published definitions for every argument. The reusable hashers and stateful generators give the same values however they were used before.",
 ['inputs','histories'],"all arguments, lengths and alignments; every sequence of uses of one hasher or generator",
 "Tests cover SipHash, xoshiro and FNV with a few values each and never reuse a hasher with different data.",
 ['internal/crypto/hasher.go','internal/crypto/keccak.go','internal/crypto/siphash.go','internal/crypto/blake.go','internal/crypto/fnv.go','internal/crypto/xoshiro256plusplus.go','internal/crypto/shakehash.go','internal/common/convutil/convutil.go','internal/common/bitutil/xor_amd64.go'],[('primitive implementations','internal/crypto, internal/common')],None,['exported functions of internal/crypto and internal/common'])
p('C24','The table generator emits complete and exact tables',
 "For any parameters, the lookup table generator writes one cache size and one dataset size per requested epoch, in order and with none missing, each equal to the size formula. Run with the parameters recorded next to each chain, it reproduces the committed tables.",
 ['inputs','configurations'],"any number of epochs (also not a multiple of the line width) and any size parameters",
 "The generator has no tests.",
 ['cmd/gen-lookup/main.go','ethash/ethash_lookup.go','kawpow/kawpow_lookup.go','firopow/firopow_lookup.go','octopus/octopus_lookup.go'],[('formatLookupTable','cmd/gen-lookup/main.go'),('genCacheLookupTable, genDatasetLookupTable','cmd/gen-lookup/main.go')],None,['generated Go file'])
p('C25','Named clients carry the published parameters of their chains',
 "Every named constructor (Ethereum, Ethereum Classic, Ravencoin, Firo, Conflux, Zcash, ZClassic, Bitcoin Gold, Aion, Flux, Beam, Aeternity, Cortex, Kaspa, Ergo, Nervos) yields a client that uses exactly the published parameters of that chain: epoch and seed-epoch lengths, sizes and growth, parent counts, L1 size, program period, Equihash sizes and personalisation, graph size and proof length. Different clients never influence one another.",
 ['configurations','inputs'],"all named constructors, and all inputs given to clients created in any order",
 "Several constructors have no test at all, and for the others only the parameters that the few tested blocks happen to exercise are checked.",
 ['ethash/client.go','kawpow/client.go','firopow/client.go','octopus/client.go','equihash/client.go','beamhashiii/client.go','cuckoo/client.go','heavyhash/client.go','autolykos2/client.go','eaglesong/client.go'],[('parameter literals','*/client.go New*')],None,['behaviour and configuration of the clients'])
with open('/verif/properties.jsonl','w') as f:
    for d in P: f.write(json.dumps(d)+'\n')
print(len(P))
