From a0c8283cc31705a7332ed1edc6398a72789db1a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:52:31 +0000
Subject: [PATCH 01/10] fix: enforce ascending edge order in cuckoo and
 cuckaroo proofs

---
 cuckoo/cuckaroo.go | 2 +-
 cuckoo/cuckoo.go   | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/cuckoo/cuckaroo.go b/cuckoo/cuckaroo.go
index 4970acf..43bfa9a 100644
--- a/cuckoo/cuckaroo.go
+++ b/cuckoo/cuckaroo.go
@@ -9,7 +9,7 @@ func (c *Client) cuckaroo(siphashKeys [4]uint64, edges []uint64) (bool, error) {
 	for n := 0; n < c.proofSize; n++ {
 		if edges[n] > c.edgeMask {
 			return false, ErrPowTooBig
-		} else if n < 0 && edges[n] <= edges[n-1] {
+		} else if n > 0 && edges[n] <= edges[n-1] {
 			return false, ErrPowTooSmall
 		}
 
diff --git a/cuckoo/cuckoo.go b/cuckoo/cuckoo.go
index d11846a..65fb54f 100644
--- a/cuckoo/cuckoo.go
+++ b/cuckoo/cuckoo.go
@@ -9,7 +9,7 @@ func (c *Client) cuckoo(siphashKeys [4]uint64, edges []uint64) (bool, error) {
 	for n := 0; n < c.proofSize; n++ {
 		if edges[n] > c.edgeMask {
 			return false, ErrPowTooBig
-		} else if n < 0 && edges[n] <= edges[n-1] {
+		} else if n > 0 && edges[n] <= edges[n-1] {
 			return false, ErrPowTooSmall
 		}
 
-- 
2.43.0


From 509c7f3e412ba1103405a2228f431fb7872840f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:52:31 +0000
Subject: [PATCH 02/10] fix: set MixBytes for Ethereum Classic so sizes beyond
 the lookup table can be computed

---
 ethash/client.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/ethash/client.go b/ethash/client.go
index 4a64672..2ff63d8 100644
--- a/ethash/client.go
+++ b/ethash/client.go
@@ -65,6 +65,7 @@ func NewEthereumClassic() *Client {
 		CacheSizes:   dag.NewLookupTable(cacheSizes, 2048),
 		DatasetSizes: dag.NewLookupTable(datasetSizes, 2048),
 
+		MixBytes:        128,
 		DatasetParents:  256,
 		EpochLength:     60000,
 		SeedEpochLength: 30000,
-- 
2.43.0


From 0462cadfe575fca2ee5a4dc774a4e92d17a3fbdd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:52:46 +0000
Subject: [PATCH 03/10] fix: emit every lookup table entry; epochs 2045-2047
 indexed past the tables

---
 cmd/gen-lookup/main.go    | 4 ++--
 ethash/ethash_lookup.go   | 2 ++
 firopow/firopow_lookup.go | 2 ++
 kawpow/kawpow_lookup.go   | 2 ++
 octopus/octopus_lookup.go | 2 ++
 5 files changed, 10 insertions(+), 2 deletions(-)

diff --git a/cmd/gen-lookup/main.go b/cmd/gen-lookup/main.go
index 39035a5..b7f873e 100644
--- a/cmd/gen-lookup/main.go
+++ b/cmd/gen-lookup/main.go
@@ -47,7 +47,7 @@ func genDatasetLookupTable(mixBytes, initBytes, growthBytes uint64, epochs int)
 }
 
 func formatLookupTable(lookupTable []uint64, rowSize int) string {
-	rows := len(lookupTable) / rowSize
+	rows := (len(lookupTable) + rowSize - 1) / rowSize
 
 	var formatted string
 	for i := 0; i < rows; i++ {
@@ -59,7 +59,7 @@ func formatLookupTable(lookupTable []uint64, rowSize int) string {
 			}
 
 			row += fmt.Sprintf("%d,", lookupTable[index])
-			if j < rowSize-1 {
+			if j < rowSize-1 && index < len(lookupTable)-1 {
 				row += " "
 			}
 		}
diff --git a/ethash/ethash_lookup.go b/ethash/ethash_lookup.go
index 30722e3..5adcf20 100644
--- a/ethash/ethash_lookup.go
+++ b/ethash/ethash_lookup.go
@@ -410,6 +410,7 @@ var cacheSizes = []uint64{
 	282853184, 282983744, 283115072, 283246144, 283377344,
 	283508416, 283639744, 283770304, 283901504, 284032576,
 	284163136, 284294848, 284426176, 284556992, 284687296,
+	284819264, 284950208, 285081536,
 }
 
 var datasetSizes = []uint64{
@@ -822,4 +823,5 @@ var datasetSizes = []uint64{
 	18102613376, 18111004544, 18119388544, 18127781248, 18136170368,
 	18144558976, 18152947328, 18161336192, 18169724288, 18178108544,
 	18186498944, 18194886784, 18203275648, 18211666048, 18220048768,
+	18228444544, 18236833408, 18245220736,
 }
diff --git a/firopow/firopow_lookup.go b/firopow/firopow_lookup.go
index 90af954..bcad4f7 100644
--- a/firopow/firopow_lookup.go
+++ b/firopow/firopow_lookup.go
@@ -410,6 +410,7 @@ var cacheSizes = []uint64{
 	282853184, 282983744, 283115072, 283246144, 283377344,
 	283508416, 283639744, 283770304, 283901504, 284032576,
 	284163136, 284294848, 284426176, 284556992, 284687296,
+	284819264, 284950208, 285081536,
 }
 
 var datasetSizes = []uint64{
@@ -822,4 +823,5 @@ var datasetSizes = []uint64{
 	18639486848, 18647874688, 18656262784, 18664651648, 18673037696,
 	18681429376, 18689814656, 18698201728, 18706594688, 18714980224,
 	18723370112, 18731761024, 18740150144, 18748538752, 18756927104,
+	18765314944, 18773701504, 18782091392,
 }
diff --git a/kawpow/kawpow_lookup.go b/kawpow/kawpow_lookup.go
index 00e4e58..ec90e03 100644
--- a/kawpow/kawpow_lookup.go
+++ b/kawpow/kawpow_lookup.go
@@ -410,6 +410,7 @@ var cacheSizes = []uint64{
 	282853184, 282983744, 283115072, 283246144, 283377344,
 	283508416, 283639744, 283770304, 283901504, 284032576,
 	284163136, 284294848, 284426176, 284556992, 284687296,
+	284819264, 284950208, 285081536,
 }
 
 var datasetSizes = []uint64{
@@ -822,4 +823,5 @@ var datasetSizes = []uint64{
 	18102613376, 18111004544, 18119388544, 18127781248, 18136170368,
 	18144558976, 18152947328, 18161336192, 18169724288, 18178108544,
 	18186498944, 18194886784, 18203275648, 18211666048, 18220048768,
+	18228444544, 18236833408, 18245220736,
 }
diff --git a/octopus/octopus_lookup.go b/octopus/octopus_lookup.go
index ea6d295..38f6bfa 100644
--- a/octopus/octopus_lookup.go
+++ b/octopus/octopus_lookup.go
@@ -410,6 +410,7 @@ var cacheSizes = []uint64{
 	149814976, 149880128, 149943616, 150010688, 150076352,
 	150142144, 150208064, 150272704, 150338624, 150404416,
 	150470464, 150535232, 150600256, 150666688, 150732224,
+	150798016, 150862784, 150927808,
 }
 
 var datasetSizes = []uint64{
@@ -822,4 +823,5 @@ var datasetSizes = []uint64{
 	38352710912, 38369479424, 38386267904, 38403044096, 38419820288,
 	38436601088, 38453377792, 38470155008, 38486933248, 38503693568,
 	38520487168, 38537264384, 38554037504, 38570818304, 38587595008,
+	38604372736, 38621145344, 38637924608,
 }
-- 
2.43.0


From 346877e78e75d7de4c61b254b23a5410dcda8d31 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:52:46 +0000
Subject: [PATCH 04/10] fix: derive the final Autolykos2 table size from the
 configured base size

---
 autolykos2/autolykos2.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/autolykos2/autolykos2.go b/autolykos2/autolykos2.go
index 89d284e..ac3bcca 100644
--- a/autolykos2/autolykos2.go
+++ b/autolykos2/autolykos2.go
@@ -33,7 +33,7 @@ func generateM(size uint64) []byte {
 
 func calcN(nBase uint32, height uint64) uint32 {
 	if height > nIncreasementHeightMax {
-		return 2143944600
+		height = nIncreasementHeightMax
 	}
 
 	var n uint32 = nBase
-- 
2.43.0


From 90a27c68cdac620ad10c330b3f569bf4f02360e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:52:46 +0000
Subject: [PATCH 05/10] fix: hash the Autolykos2 element sum as 32 bytes,
 keeping leading zeros

---
 autolykos2/autolykos2.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/autolykos2/autolykos2.go b/autolykos2/autolykos2.go
index ac3bcca..dbd30c3 100644
--- a/autolykos2/autolykos2.go
+++ b/autolykos2/autolykos2.go
@@ -84,7 +84,7 @@ func compute(k, nBase uint32, msg []byte, nonce, height uint64) []byte {
 		f2.Add(f2, new(big.Int).SetBytes(elemHash))
 	}
 
-	ha := crypto.Blake2b256(f2.Bytes())
+	ha := crypto.Blake2b256(f2.FillBytes(make([]byte, 32)))
 
 	return ha
 }
-- 
2.43.0


From 421cdf20067764624dd6a324d410acdfd38f59fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:53:23 +0000
Subject: [PATCH 06/10] fix: reject stored dumps whose length does not match
 instead of crashing or using them

---
 internal/dag/cache.go |  4 ++--
 internal/dag/mmap.go  | 13 ++++++++++---
 2 files changed, 12 insertions(+), 5 deletions(-)

diff --git a/internal/dag/cache.go b/internal/dag/cache.go
index 416e00c..0d785c0 100644
--- a/internal/dag/cache.go
+++ b/internal/dag/cache.go
@@ -67,12 +67,12 @@ func (c *cache) generate(cfg *DAG) {
 
 		// Try to load the file from disk and memory map it
 		var err error
-		c.cache, err = memoryMap(cachePath, cfg.CachesLockMmap)
+		c.cache, err = memoryMap(cachePath, size, cfg.CachesLockMmap)
 		needsCache := err != nil
 
 		needsL1 := cfg.L1Enabled
 		if cfg.L1Enabled {
-			c.l1, err = memoryMap(l1Path, cfg.CachesLockMmap)
+			c.l1, err = memoryMap(l1Path, cfg.L1CacheSize, cfg.CachesLockMmap)
 			needsL1 = err != nil
 		}
 
diff --git a/internal/dag/mmap.go b/internal/dag/mmap.go
index c97b07f..b3c5615 100644
--- a/internal/dag/mmap.go
+++ b/internal/dag/mmap.go
@@ -38,8 +38,9 @@ type dataFile struct {
 	data []uint32
 }
 
-// memoryMap tries to memory map a file of uint32s for read only access.
-func memoryMap(path string, lock bool) (dataFile, error) {
+// memoryMap tries to memory map a file of uint32s for read only access. The file
+// has to hold the dump magic followed by exactly size bytes of data.
+func memoryMap(path string, size uint64, lock bool) (dataFile, error) {
 	var df dataFile
 
 	file, err := os.OpenFile(path, os.O_RDONLY, 0644)
@@ -53,6 +54,12 @@ func memoryMap(path string, lock bool) (dataFile, error) {
 		return df, err
 	}
 
+	if uint64(len(mem)) != uint64(len(dumpMagic))*4+size {
+		mem.Unmap()
+		file.Close()
+		return df, errors.New("invalid dump size")
+	}
+
 	for i, magic := range dumpMagic {
 		if buffer[i] != magic {
 			mem.Unmap()
@@ -160,5 +167,5 @@ func memoryMapAndGenerate(path string, size uint64, lock bool, generator func(bu
 		return df, err
 	}
 
-	return memoryMap(path, lock)
+	return memoryMap(path, size, lock)
 }
-- 
2.43.0


From 587eb384916171c612a70c87567dd1be729b18fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:53:23 +0000
Subject: [PATCH 07/10] fix: remove the temporary dump when publishing it fails

---
 internal/dag/mmap.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/internal/dag/mmap.go b/internal/dag/mmap.go
index b3c5615..320a674 100644
--- a/internal/dag/mmap.go
+++ b/internal/dag/mmap.go
@@ -156,14 +156,18 @@ func memoryMapAndGenerate(path string, size uint64, lock bool, generator func(bu
 	generator(data)
 
 	if err := mem.Unmap(); err != nil {
+		dump.Close()
+		os.Remove(temp)
 		return df, err
 	}
 
 	if err := dump.Close(); err != nil {
+		os.Remove(temp)
 		return df, err
 	}
 
 	if err := os.Rename(temp, path); err != nil {
+		os.Remove(temp)
 		return df, err
 	}
 
-- 
2.43.0


From 891a4cb103284546340dc582de6b21fe3514a175 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:53:36 +0000
Subject: [PATCH 08/10] fix: refuse the all-zero hash in heavyhash instead of
 looping forever

---
 heavyhash/client.go | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/heavyhash/client.go b/heavyhash/client.go
index d9643b9..9ae9cdd 100644
--- a/heavyhash/client.go
+++ b/heavyhash/client.go
@@ -1,6 +1,7 @@
 package heavyhash
 
 import (
+	"bytes"
 	"fmt"
 )
 
@@ -21,6 +22,12 @@ func (c *Client) Compute(hash []byte, timestamp int64, nonce uint64) ([]byte, er
 		return nil, fmt.Errorf("hash must be 32 bytes")
 	}
 
+	// xoshiro256++ only yields zeros for the all-zero state, so there is no
+	// full rank matrix to draw and the search for one would never end
+	if bytes.Equal(hash, make([]byte, 32)) {
+		return nil, fmt.Errorf("hash must not be all zero")
+	}
+
 	digest := heavyHash(hash, timestamp, nonce)
 
 	return digest, nil
-- 
2.43.0


From 2f00ef82401108e0d268745577d02c3a0c5f7cdf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:09:43 +0000
Subject: [PATCH 09/10] fix: do not block on a named pipe in place of a stored
 dump

---
 internal/dag/mmap.go | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/internal/dag/mmap.go b/internal/dag/mmap.go
index 320a674..0eb889b 100644
--- a/internal/dag/mmap.go
+++ b/internal/dag/mmap.go
@@ -43,6 +43,15 @@ type dataFile struct {
 func memoryMap(path string, size uint64, lock bool) (dataFile, error) {
 	var df dataFile
 
+	// Opening a named pipe would block until somebody writes to it
+	info, err := os.Stat(path)
+	if err != nil {
+		return df, err
+	}
+	if !info.Mode().IsRegular() {
+		return df, errors.New("dump is not a regular file")
+	}
+
 	file, err := os.OpenFile(path, os.O_RDONLY, 0644)
 	if err != nil {
 		return df, err
-- 
2.43.0


From 6f673adcd1deae050ab99dff19cfb9fcfe1d6962 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:09:43 +0000
Subject: [PATCH 10/10] fix: keep a stored epoch mapped until a lookup function
 has returned

---
 internal/dag/dag.go | 13 ++++++++++---
 1 file changed, 10 insertions(+), 3 deletions(-)

diff --git a/internal/dag/dag.go b/internal/dag/dag.go
index 3a536ce..a52129f 100644
--- a/internal/dag/dag.go
+++ b/internal/dag/dag.go
@@ -20,6 +20,7 @@ import (
 	"fmt"
 	"math/big"
 	"path/filepath"
+	"runtime"
 	"sync"
 	"time"
 
@@ -171,7 +172,9 @@ type LookupFunc func(index uint32) []uint32
 func (dag *DAG) NewLookupFunc512(c *cache, epoch uint64) LookupFunc {
 	keccak512Hasher := crypto.NewKeccak512Hasher()
 	lookup := func(index uint32) []uint32 {
-		return dag.generateDatasetItemUint(c.Cache(), index, 1, keccak512Hasher)
+		item := dag.generateDatasetItemUint(c.Cache(), index, 1, keccak512Hasher)
+		runtime.KeepAlive(c) // the mapping has to outlive the last access
+		return item
 	}
 
 	return lookup
@@ -180,7 +183,9 @@ func (dag *DAG) NewLookupFunc512(c *cache, epoch uint64) LookupFunc {
 func (dag *DAG) NewLookupFunc1024(c *cache, epoch uint64) LookupFunc {
 	keccak512Hasher := crypto.NewKeccak512Hasher()
 	lookup := func(index uint32) []uint32 {
-		return dag.generateDatasetItemUint(c.Cache(), index, 2, keccak512Hasher)
+		item := dag.generateDatasetItemUint(c.Cache(), index, 2, keccak512Hasher)
+		runtime.KeepAlive(c) // the mapping has to outlive the last access
+		return item
 	}
 
 	return lookup
@@ -189,7 +194,9 @@ func (dag *DAG) NewLookupFunc1024(c *cache, epoch uint64) LookupFunc {
 func (dag *DAG) NewLookupFunc2048(c *cache, epoch uint64) LookupFunc {
 	keccak512Hasher := crypto.NewKeccak512Hasher()
 	lookup := func(index uint32) []uint32 {
-		return dag.generateDatasetItemUint(c.Cache(), index, 4, keccak512Hasher)
+		item := dag.generateDatasetItemUint(c.Cache(), index, 4, keccak512Hasher)
+		runtime.KeepAlive(c) // the mapping has to outlive the last access
+		return item
 	}
 
 	return lookup
-- 
2.43.0

