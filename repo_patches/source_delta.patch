From f92aa56021709869d1d156191ff964fc6a2c767d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:59:14 +0000
Subject: [PATCH 01/12] fix: give the Ethereum Classic client its mix width
 (sizes past the lookup table divided by zero)

---
 ethash/client.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/ethash/client.go b/ethash/client.go
index 4a64672..2ff63d8 100644
--- a/ethash/client.go
+++ b/ethash/client.go
@@ -65,6 +65,7 @@ func NewEthereumClassic() *Client {
 		CacheSizes:   dag.NewLookupTable(cacheSizes, 2048),
 		DatasetSizes: dag.NewLookupTable(datasetSizes, 2048),
 
+		MixBytes:        128,
 		DatasetParents:  256,
 		EpochLength:     60000,
 		SeedEpochLength: 30000,
-- 
2.43.0


From b8dfd6fdcc6b2c616aacc59bcad7bf57c0b449ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:59:14 +0000
Subject: [PATCH 02/12] fix: reject cuckoo proofs whose edges are not strictly
 ascending

---
 cuckoo/cuckaroo.go | 2 +-
 cuckoo/cuckoo.go   | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/cuckoo/cuckaroo.go b/cuckoo/cuckaroo.go
index 4970acf..43bfa9a 100644
--- a/cuckoo/cuckaroo.go
+++ b/cuckoo/cuckaroo.go
@@ -9,7 +9,7 @@ func (c *Client) cuckaroo(siphashKeys [4]uint64, edges []uint64) (bool, error) {
 	for n := 0; n < c.proofSize; n++ {
 		if edges[n] > c.edgeMask {
 			return false, ErrPowTooBig
-		} else if n < 0 && edges[n] <= edges[n-1] {
+		} else if n > 0 && edges[n] <= edges[n-1] {
 			return false, ErrPowTooSmall
 		}
 
diff --git a/cuckoo/cuckoo.go b/cuckoo/cuckoo.go
index d11846a..65fb54f 100644
--- a/cuckoo/cuckoo.go
+++ b/cuckoo/cuckoo.go
@@ -9,7 +9,7 @@ func (c *Client) cuckoo(siphashKeys [4]uint64, edges []uint64) (bool, error) {
 	for n := 0; n < c.proofSize; n++ {
 		if edges[n] > c.edgeMask {
 			return false, ErrPowTooBig
-		} else if n < 0 && edges[n] <= edges[n-1] {
+		} else if n > 0 && edges[n] <= edges[n-1] {
 			return false, ErrPowTooSmall
 		}
 
-- 
2.43.0


From 2a302b4226d597e95bbebd3625f36ebf9833726a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:59:15 +0000
Subject: [PATCH 03/12] fix: report an error for the all-zero heavyhash header
 instead of looping forever

---
 heavyhash/client.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/heavyhash/client.go b/heavyhash/client.go
index d9643b9..cf6bcc1 100644
--- a/heavyhash/client.go
+++ b/heavyhash/client.go
@@ -1,6 +1,7 @@
 package heavyhash
 
 import (
+	"bytes"
 	"fmt"
 )
 
@@ -19,6 +20,8 @@ func NewKaspa() *Client {
 func (c *Client) Compute(hash []byte, timestamp int64, nonce uint64) ([]byte, error) {
 	if len(hash) != 32 {
 		return nil, fmt.Errorf("hash must be 32 bytes")
+	} else if bytes.Equal(hash, make([]byte, 32)) {
+		return nil, fmt.Errorf("hash must not be zero: no full rank matrix exists for it")
 	}
 
 	digest := heavyHash(hash, timestamp, nonce)
-- 
2.43.0


From f3df9f77432139edfc134f1709a9b8821ba5fc8f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:59:15 +0000
Subject: [PATCH 04/12] fix: hash the autolykos2 sum as 32 bytes, keeping
 leading zeros

---
 autolykos2/autolykos2.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/autolykos2/autolykos2.go b/autolykos2/autolykos2.go
index 89d284e..8c0e8d4 100644
--- a/autolykos2/autolykos2.go
+++ b/autolykos2/autolykos2.go
@@ -84,7 +84,7 @@ func compute(k, nBase uint32, msg []byte, nonce, height uint64) []byte {
 		f2.Add(f2, new(big.Int).SetBytes(elemHash))
 	}
 
-	ha := crypto.Blake2b256(f2.Bytes())
+	ha := crypto.Blake2b256(f2.FillBytes(make([]byte, 32)))
 
 	return ha
 }
-- 
2.43.0


From c522cd39143e4665ee46b5095bd7f2676b86b847 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:59:16 +0000
Subject: [PATCH 05/12] fix: keep the autolykos2 table size of any base
 constant past the last growth height

---
 autolykos2/autolykos2.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/autolykos2/autolykos2.go b/autolykos2/autolykos2.go
index 8c0e8d4..dbd30c3 100644
--- a/autolykos2/autolykos2.go
+++ b/autolykos2/autolykos2.go
@@ -33,7 +33,7 @@ func generateM(size uint64) []byte {
 
 func calcN(nBase uint32, height uint64) uint32 {
 	if height > nIncreasementHeightMax {
-		return 2143944600
+		height = nIncreasementHeightMax
 	}
 
 	var n uint32 = nBase
-- 
2.43.0


From f6dfe79655666ad68e702d494f6ccbac7fd52a17 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:59:16 +0000
Subject: [PATCH 06/12] fix: only skip the equihash expansion when every
 element already fills its bytes

---
 equihash/equihash.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/equihash/equihash.go b/equihash/equihash.go
index 656a1db..8d2ba4c 100644
--- a/equihash/equihash.go
+++ b/equihash/equihash.go
@@ -47,7 +47,7 @@ func expandArray(input []byte, bitLen, bytePad uint32) ([]byte, error) {
 	outputWidth := (bitLen+7)/8 + bytePad
 	outputLen := 8 * outputWidth * inputLen / bitLen
 
-	if outputLen == inputLen {
+	if bitLen == 8*outputWidth {
 		return input, nil
 	}
 
-- 
2.43.0


From f8896d0c6c41703da3effd534f4e76bcead3fc1c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:59:18 +0000
Subject: [PATCH 07/12] fix: emit the last partial row of the size lookup
 tables, and add it to the committed ones

---
 cmd/gen-lookup/main.go    | 4 ++--
 ethash/ethash_lookup.go   | 2 ++
 firopow/firopow_lookup.go | 2 ++
 kawpow/kawpow_lookup.go   | 2 ++
 octopus/octopus_lookup.go | 2 ++
 5 files changed, 10 insertions(+), 2 deletions(-)

diff --git a/cmd/gen-lookup/main.go b/cmd/gen-lookup/main.go
index 39035a5..b7f873e 100644
--- a/cmd/gen-lookup/main.go
+++ b/cmd/gen-lookup/main.go
@@ -47,7 +47,7 @@ func genDatasetLookupTable(mixBytes, initBytes, growthBytes uint64, epochs int)
 }
 
 func formatLookupTable(lookupTable []uint64, rowSize int) string {
-	rows := len(lookupTable) / rowSize
+	rows := (len(lookupTable) + rowSize - 1) / rowSize
 
 	var formatted string
 	for i := 0; i < rows; i++ {
@@ -59,7 +59,7 @@ func formatLookupTable(lookupTable []uint64, rowSize int) string {
 			}
 
 			row += fmt.Sprintf("%d,", lookupTable[index])
-			if j < rowSize-1 {
+			if j < rowSize-1 && index < len(lookupTable)-1 {
 				row += " "
 			}
 		}
diff --git a/ethash/ethash_lookup.go b/ethash/ethash_lookup.go
index 30722e3..5adcf20 100644
--- a/ethash/ethash_lookup.go
+++ b/ethash/ethash_lookup.go
@@ -410,6 +410,7 @@ var cacheSizes = []uint64{
 	282853184, 282983744, 283115072, 283246144, 283377344,
 	283508416, 283639744, 283770304, 283901504, 284032576,
 	284163136, 284294848, 284426176, 284556992, 284687296,
+	284819264, 284950208, 285081536,
 }
 
 var datasetSizes = []uint64{
@@ -822,4 +823,5 @@ var datasetSizes = []uint64{
 	18102613376, 18111004544, 18119388544, 18127781248, 18136170368,
 	18144558976, 18152947328, 18161336192, 18169724288, 18178108544,
 	18186498944, 18194886784, 18203275648, 18211666048, 18220048768,
+	18228444544, 18236833408, 18245220736,
 }
diff --git a/firopow/firopow_lookup.go b/firopow/firopow_lookup.go
index 90af954..bcad4f7 100644
--- a/firopow/firopow_lookup.go
+++ b/firopow/firopow_lookup.go
@@ -410,6 +410,7 @@ var cacheSizes = []uint64{
 	282853184, 282983744, 283115072, 283246144, 283377344,
 	283508416, 283639744, 283770304, 283901504, 284032576,
 	284163136, 284294848, 284426176, 284556992, 284687296,
+	284819264, 284950208, 285081536,
 }
 
 var datasetSizes = []uint64{
@@ -822,4 +823,5 @@ var datasetSizes = []uint64{
 	18639486848, 18647874688, 18656262784, 18664651648, 18673037696,
 	18681429376, 18689814656, 18698201728, 18706594688, 18714980224,
 	18723370112, 18731761024, 18740150144, 18748538752, 18756927104,
+	18765314944, 18773701504, 18782091392,
 }
diff --git a/kawpow/kawpow_lookup.go b/kawpow/kawpow_lookup.go
index 00e4e58..ec90e03 100644
--- a/kawpow/kawpow_lookup.go
+++ b/kawpow/kawpow_lookup.go
@@ -410,6 +410,7 @@ var cacheSizes = []uint64{
 	282853184, 282983744, 283115072, 283246144, 283377344,
 	283508416, 283639744, 283770304, 283901504, 284032576,
 	284163136, 284294848, 284426176, 284556992, 284687296,
+	284819264, 284950208, 285081536,
 }
 
 var datasetSizes = []uint64{
@@ -822,4 +823,5 @@ var datasetSizes = []uint64{
 	18102613376, 18111004544, 18119388544, 18127781248, 18136170368,
 	18144558976, 18152947328, 18161336192, 18169724288, 18178108544,
 	18186498944, 18194886784, 18203275648, 18211666048, 18220048768,
+	18228444544, 18236833408, 18245220736,
 }
diff --git a/octopus/octopus_lookup.go b/octopus/octopus_lookup.go
index ea6d295..38f6bfa 100644
--- a/octopus/octopus_lookup.go
+++ b/octopus/octopus_lookup.go
@@ -410,6 +410,7 @@ var cacheSizes = []uint64{
 	149814976, 149880128, 149943616, 150010688, 150076352,
 	150142144, 150208064, 150272704, 150338624, 150404416,
 	150470464, 150535232, 150600256, 150666688, 150732224,
+	150798016, 150862784, 150927808,
 }
 
 var datasetSizes = []uint64{
@@ -822,4 +823,5 @@ var datasetSizes = []uint64{
 	38352710912, 38369479424, 38386267904, 38403044096, 38419820288,
 	38436601088, 38453377792, 38470155008, 38486933248, 38503693568,
 	38520487168, 38537264384, 38554037504, 38570818304, 38587595008,
+	38604372736, 38621145344, 38637924608,
 }
-- 
2.43.0


From 72024e7cc2e6bacd48cdac700cbdfefcdb9f0c1f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:59:18 +0000
Subject: [PATCH 08/12] fix: reject stored cache files too short for their
 header, or of uneven length

---
 internal/dag/mmap.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/internal/dag/mmap.go b/internal/dag/mmap.go
index c97b07f..6a5b934 100644
--- a/internal/dag/mmap.go
+++ b/internal/dag/mmap.go
@@ -53,6 +53,12 @@ func memoryMap(path string, lock bool) (dataFile, error) {
 		return df, err
 	}
 
+	if len(mem)%4 != 0 || len(buffer) < len(dumpMagic) {
+		mem.Unmap()
+		file.Close()
+		return df, errors.New("invalid dump size")
+	}
+
 	for i, magic := range dumpMagic {
 		if buffer[i] != magic {
 			mem.Unmap()
-- 
2.43.0


From 30ab79e3c0ee73d62cc8ff5b266235515c8814a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:59:19 +0000
Subject: [PATCH 09/12] fix: do not use a stored cache file whose length is not
 that of its epoch

---
 internal/dag/cache.go |  6 ++++++
 internal/dag/mmap.go  | 21 +++++++++++++++++++++
 2 files changed, 27 insertions(+)

diff --git a/internal/dag/cache.go b/internal/dag/cache.go
index 416e00c..8143453 100644
--- a/internal/dag/cache.go
+++ b/internal/dag/cache.go
@@ -68,11 +68,17 @@ func (c *cache) generate(cfg *DAG) {
 		// Try to load the file from disk and memory map it
 		var err error
 		c.cache, err = memoryMap(cachePath, cfg.CachesLockMmap)
+		if err == nil {
+			err = c.cache.expectSize(size)
+		}
 		needsCache := err != nil
 
 		needsL1 := cfg.L1Enabled
 		if cfg.L1Enabled {
 			c.l1, err = memoryMap(l1Path, cfg.CachesLockMmap)
+			if err == nil {
+				err = c.l1.expectSize(cfg.L1CacheSize)
+			}
 			needsL1 = err != nil
 		}
 
diff --git a/internal/dag/mmap.go b/internal/dag/mmap.go
index 6a5b934..04ab1b2 100644
--- a/internal/dag/mmap.go
+++ b/internal/dag/mmap.go
@@ -38,6 +38,27 @@ type dataFile struct {
 	data []uint32
 }
 
+// release unmaps the memory and closes the file, if there are any.
+func (df *dataFile) release() {
+	if df.mmap != nil {
+		df.mmap.Unmap()
+		df.dump.Close()
+	}
+
+	*df = dataFile{}
+}
+
+// expectSize releases the file and returns an error unless it holds size bytes of data.
+func (df *dataFile) expectSize(size uint64) error {
+	if uint64(len(df.data))*4 == size {
+		return nil
+	}
+
+	df.release()
+
+	return errors.New("invalid dump size")
+}
+
 // memoryMap tries to memory map a file of uint32s for read only access.
 func memoryMap(path string, lock bool) (dataFile, error) {
 	var df dataFile
-- 
2.43.0


From 7354ebb8f802c0208f68de305b0b5735a5b59e7d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:59:19 +0000
Subject: [PATCH 10/12] fix: sync a generated cache file before renaming it
 into place

---
 internal/dag/mmap.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/internal/dag/mmap.go b/internal/dag/mmap.go
index 04ab1b2..65cd0eb 100644
--- a/internal/dag/mmap.go
+++ b/internal/dag/mmap.go
@@ -179,6 +179,11 @@ func memoryMapAndGenerate(path string, size uint64, lock bool, generator func(bu
 		return df, err
 	}
 
+	// Make sure the data is on disk before the file becomes visible under its final name
+	if err := dump.Sync(); err != nil {
+		return df, err
+	}
+
 	if err := dump.Close(); err != nil {
 		return df, err
 	}
-- 
2.43.0


From 6763f9a9fe5e706ae733218bd671034316da5381 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:59:20 +0000
Subject: [PATCH 11/12] fix: do not leave the temporary cache file or its
 descriptor behind when storing fails

---
 internal/dag/mmap.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/internal/dag/mmap.go b/internal/dag/mmap.go
index 65cd0eb..b177311 100644
--- a/internal/dag/mmap.go
+++ b/internal/dag/mmap.go
@@ -176,19 +176,25 @@ func memoryMapAndGenerate(path string, size uint64, lock bool, generator func(bu
 	generator(data)
 
 	if err := mem.Unmap(); err != nil {
+		dump.Close()
+		os.Remove(temp)
 		return df, err
 	}
 
 	// Make sure the data is on disk before the file becomes visible under its final name
 	if err := dump.Sync(); err != nil {
+		dump.Close()
+		os.Remove(temp)
 		return df, err
 	}
 
 	if err := dump.Close(); err != nil {
+		os.Remove(temp)
 		return df, err
 	}
 
 	if err := os.Rename(temp, path); err != nil {
+		os.Remove(temp)
 		return df, err
 	}
 
-- 
2.43.0


From 9139afc83465f8e85e00fd41c263668c4b8425b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:00:33 +0000
Subject: [PATCH 12/12] fix: do not open stored cache files that are not
 regular files

---
 internal/dag/mmap.go | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/internal/dag/mmap.go b/internal/dag/mmap.go
index b177311..2f22286 100644
--- a/internal/dag/mmap.go
+++ b/internal/dag/mmap.go
@@ -63,6 +63,13 @@ func (df *dataFile) expectSize(size uint64) error {
 func memoryMap(path string, lock bool) (dataFile, error) {
 	var df dataFile
 
+	// Opening anything else, like a named pipe, could block
+	if info, err := os.Stat(path); err != nil {
+		return df, err
+	} else if !info.Mode().IsRegular() {
+		return df, errors.New("not a regular file")
+	}
+
 	file, err := os.OpenFile(path, os.O_RDONLY, 0644)
 	if err != nil {
 		return df, err
-- 
2.43.0

