From 0b97dc267cddb9ec770b01676bc3c7fd20c143fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:25:50 +0000
Subject: [PATCH 01/13] fix: read tiles at the width of the published tree

The monitor preferred full tiles, which after an interrupted publication can
hold entries no tree head covers, and asked for widths that never existed
(get-entry-and-proof, proofs for tree sizes in between tree heads).
---
 internal/ctmonitor/fetch.go | 24 +++++++++++++++---------
 internal/ctmonitor/logic.go | 24 ++++++++++--------------
 2 files changed, 25 insertions(+), 23 deletions(-)

diff --git a/internal/ctmonitor/fetch.go b/internal/ctmonitor/fetch.go
index 7829100..ae4181f 100644
--- a/internal/ctmonitor/fetch.go
+++ b/internal/ctmonitor/fetch.go
@@ -44,19 +44,25 @@ func (f *Fetch) getSth(ctx context.Context) (ct.SignedTreeHead, error) {
 	return sth, nil
 }
 
+// storedTile returns the tile with the coordinates of tile as it is stored for a tree of
+// treeSize: full width, or as wide as the right edge of the tree at that level.
+func storedTile(tile tlog.Tile, treeSize int64) tlog.Tile {
+	level := max(tile.L, 0) // data tiles have level -1 and the geometry of level 0
+	width := treeSize>>(level*sunlight.TileHeight) - tile.N*sunlight.TileWidth
+	tile.W = int(min(width, sunlight.TileWidth))
+	return tile
+}
+
+// getTile fetches the tile of exactly the given width. A wider tile can hold leftovers of an
+// interrupted publication that no tree head covers, so the full tile is only used if the
+// partial one is gone.
 func (f *Fetch) getTile(ctx context.Context, tile tlog.Tile) ([]byte, error) {
-	fallbackWidth := tile.W
-	tile.W = sunlight.TileWidth
 	resp, notfound, err := f.s.Get(ctx, sunlight.Path(tile))
-	// In case the tile is not found, try to fetch the partial tile
-	if notfound {
-		if fallbackWidth != sunlight.TileWidth {
-			tile.W = fallbackWidth
-			return f.get(ctx, sunlight.Path(tile))
-		}
+	if notfound && tile.W != sunlight.TileWidth {
+		tile.W = sunlight.TileWidth
+		return f.get(ctx, sunlight.Path(tile))
 	}
 	return resp, err
-
 }
 
 // TODO: refactor the duplicate definitions of this stanza in this file and bucket.go
diff --git a/internal/ctmonitor/logic.go b/internal/ctmonitor/logic.go
index b2eccfc..1bbd1b7 100644
--- a/internal/ctmonitor/logic.go
+++ b/internal/ctmonitor/logic.go
@@ -74,23 +74,17 @@ func wrapper(wrapped func(ctx context.Context, reqBody io.ReadCloser, query url.
 	}
 }
 
-func hashreader(ctx context.Context, f Fetch, fallbackTreeSize int64) tlog.HashReaderFunc {
-	// Tree size is 1 greater than the index of the last entry
-	finalTile := tlog.TileForIndex(sunlight.TileHeight, tlog.StoredHashIndex(0, fallbackTreeSize-1))
+// hashreader reads hashes of the tree with the current, published treeSize.
+func hashreader(ctx context.Context, f Fetch, treeSize int64) tlog.HashReaderFunc {
 	// TODO: add some sort of cache here, this function is bound to be called a few times for the same tiles
 	return func(indexes []int64) ([]tlog.Hash, error) {
 		hashes := make([]tlog.Hash, 0, len(indexes))
 		for _, index := range indexes {
-			tile := tlog.TileForIndex(sunlight.TileHeight, index)
-			// Special case the final tile to get the correct width
-			if tile.N == finalTile.N {
-				tile.W = finalTile.W
-			}
-			// This function will always first try and get the full width tile,
-			// and then fall back to the width actually specified in the tile.
+			// Only the widths of the published tree are sure to exist and to be part of it
+			tile := storedTile(tlog.TileForIndex(sunlight.TileHeight, index), treeSize)
 			data, err := f.getTile(ctx, tile)
 			if err != nil {
-				return nil, fmt.Errorf("failed to fetch tile %s: %w (fallback %s)", sunlight.Path(tile), err, sunlight.Path(finalTile))
+				return nil, fmt.Errorf("failed to fetch tile %s: %w", sunlight.Path(tile), err)
 			}
 			hash, err := tlog.HashFromTile(tile, data, index)
 			if err != nil {
@@ -161,7 +155,7 @@ func (f Fetch) get_sth_consistency(ctx context.Context, reqBody io.ReadCloser, q
 	// However, as per the spec, in this case, an empty proof should be returned
 	// TODO: this fails if the size of the first tree is greater than the actual number of records in the tree
 	if first >= 1 {
-		proof, err = tlog.ProveTree(second, first, hashreader(ctx, f, second))
+		proof, err = tlog.ProveTree(second, first, hashreader(ctx, f, int64(sth.TreeSize)))
 		if err != nil {
 			return nil, 523, err
 		}
@@ -229,7 +223,7 @@ func (f Fetch) get_proof_by_hash(ctx context.Context, reqBody io.ReadCloser, que
 	}
 
 	// Get the proof
-	proof, err := tlog.ProveRecord(treeSize, index, hashreader(ctx, f, treeSize))
+	proof, err := tlog.ProveRecord(treeSize, index, hashreader(ctx, f, int64(sth.TreeSize)))
 	if err != nil {
 		log.Println(err)
 		return nil, 511, err
@@ -306,6 +300,7 @@ func (f Fetch) get_entries(ctx context.Context, reqBody io.ReadCloser, query url
 
 	sthFinalTile := tlog.TileForIndex(sunlight.TileHeight, tlog.StoredHashIndex(0, int64(sth.TreeSize)-1))
 	// Special case the final tile to ensure we always fetch a tile that exists
+	lastTile.W = sunlight.TileWidth
 	if lastTile.N == sthFinalTile.N {
 		lastTile.W = sthFinalTile.W
 	}
@@ -473,6 +468,7 @@ func (f Fetch) get_entry_and_proof(ctx context.Context, reqBody io.ReadCloser, q
 	// Get the entry
 	tile := tlog.TileForIndex(sunlight.TileHeight, tlog.StoredHashIndex(0, leafIndex))
 	tile.L = -1
+	tile = storedTile(tile, int64(sth.TreeSize))
 
 	// TODO: add a cache
 	data, err := f.getTile(ctx, tile)
@@ -527,7 +523,7 @@ func (f Fetch) get_entry_and_proof(ctx context.Context, reqBody io.ReadCloser, q
 	}
 
 	// Get the proof
-	proof, err := tlog.ProveRecord(treeSize, leafIndex, hashreader(ctx, f, treeSize))
+	proof, err := tlog.ProveRecord(treeSize, leafIndex, hashreader(ctx, f, int64(sth.TreeSize)))
 	if err != nil {
 		return nil, 500, err
 	}
-- 
2.43.0


From 7447af6fdab3f7406c3015565bc0c4a5afcd8887 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:25:51 +0000
Subject: [PATCH 02/13] fix: get-proof-by-hash only proves the requested hash

The lookup compares 16 bytes and trusts records of interrupted publications;
compare with the leaf hash stored at the index.
---
 internal/ctmonitor/logic.go | 13 ++++++++++++-
 1 file changed, 12 insertions(+), 1 deletion(-)

diff --git a/internal/ctmonitor/logic.go b/internal/ctmonitor/logic.go
index 1bbd1b7..104176b 100644
--- a/internal/ctmonitor/logic.go
+++ b/internal/ctmonitor/logic.go
@@ -222,8 +222,19 @@ func (f Fetch) get_proof_by_hash(ctx context.Context, reqBody io.ReadCloser, que
 		return nil, 400, fmt.Errorf("index out of range")
 	}
 
+	// The records only hold a prefix of the hash, and can be left over from a publication
+	// that was interrupted, so check that this really is the leaf at that index
+	reader := hashreader(ctx, f, int64(sth.TreeSize))
+	leafHashes, err := reader([]int64{tlog.StoredHashIndex(0, index)})
+	if err != nil {
+		return nil, 511, err
+	}
+	if leafHashes[0] != tlog.Hash(hash) {
+		return nil, 404, fmt.Errorf("hash not found")
+	}
+
 	// Get the proof
-	proof, err := tlog.ProveRecord(treeSize, index, hashreader(ctx, f, int64(sth.TreeSize)))
+	proof, err := tlog.ProveRecord(treeSize, index, reader)
 	if err != nil {
 		log.Println(err)
 		return nil, 511, err
-- 
2.43.0


From 662b168bf520bc304a87ea0ab1c84705b9211c8e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:25:52 +0000
Subject: [PATCH 03/13] fix: refuse get-entries ranges beyond the tree head

With an empty tree the range wrapped around and could serve entries of an
interrupted publication.
---
 internal/ctmonitor/logic.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/internal/ctmonitor/logic.go b/internal/ctmonitor/logic.go
index 104176b..327c75d 100644
--- a/internal/ctmonitor/logic.go
+++ b/internal/ctmonitor/logic.go
@@ -297,6 +297,9 @@ func (f Fetch) get_entries(ctx context.Context, reqBody io.ReadCloser, query url
 	if err != nil {
 		return nil, 521, err
 	}
+	if start >= int64(sth.TreeSize) {
+		return nil, 400, fmt.Errorf("start is beyond the current sth")
+	}
 	if end >= int64(sth.TreeSize) {
 		end = int64(sth.TreeSize) - 1
 	}
-- 
2.43.0


From bf04637b145d7546441e780544d6ab8af176b797 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:25:54 +0000
Subject: [PATCH 04/13] fix: close response bodies of the tile store

Every answer other than 200 leaked a connection.
---
 internal/ctmonitor/storage.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/internal/ctmonitor/storage.go b/internal/ctmonitor/storage.go
index 132c483..406204b 100644
--- a/internal/ctmonitor/storage.go
+++ b/internal/ctmonitor/storage.go
@@ -28,6 +28,7 @@ func (f *UrlStorage) Get(ctx context.Context, key string) (data []byte, notfound
 	if err != nil {
 		return nil, false, err
 	}
+	defer resp.Body.Close()
 	if resp.StatusCode != 200 {
 		if resp.StatusCode == 404 {
 			return nil, true, errors.New(resp.Status)
-- 
2.43.0


From 4298f0175b136271a45b92b80a06e0d9a6c498a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:27:42 +0000
Subject: [PATCH 05/13] fix: reject precertificates whose chain lacks the final
 issuer

---
 internal/ctsubmit/logic.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/internal/ctsubmit/logic.go b/internal/ctsubmit/logic.go
index 757712b..4981c94 100644
--- a/internal/ctsubmit/logic.go
+++ b/internal/ctsubmit/logic.go
@@ -140,8 +140,14 @@ func (d *stageZeroData) stageZero(ctx context.Context, reqBody io.ReadCloser, pr
 		// Preissuer means that the intermediate that issued the precert is only valid
 		// for issuing precertificates.
 		var preIssuer *x509.Certificate
+		if len(chain) < 2 {
+			return nil, http.StatusBadRequest, fmt.Errorf("precertificate without an issuer")
+		}
 		issuer := chain[1]
 		if ct.IsPreIssuer(chain[1]) {
+			if len(chain) < 3 {
+				return nil, http.StatusBadRequest, fmt.Errorf("preissuer without an issuer")
+			}
 			preIssuer = chain[1]
 			issuer = chain[2]
 		}
-- 
2.43.0


From d9a6f4e3a9d1c1f1194289985e753b2926dc534e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:28:17 +0000
Subject: [PATCH 06/13] fix: answer get-entries and get-entry-and-proof with an
 error when tiles or issuers are cut short

---
 internal/ctmonitor/fetch.go | 14 ++++++++++++++
 internal/ctmonitor/logic.go | 14 ++++++++++++--
 2 files changed, 26 insertions(+), 2 deletions(-)

diff --git a/internal/ctmonitor/fetch.go b/internal/ctmonitor/fetch.go
index ae4181f..863f416 100644
--- a/internal/ctmonitor/fetch.go
+++ b/internal/ctmonitor/fetch.go
@@ -3,9 +3,11 @@ package ctmonitor
 import (
 	"bytes"
 	"context"
+	"crypto/sha256"
 	"encoding/binary"
 	"encoding/json"
 	"errors"
+	"fmt"
 
 	ct "github.com/google/certificate-transparency-go"
 	"golang.org/x/mod/sumdb/tlog"
@@ -65,6 +67,18 @@ func (f *Fetch) getTile(ctx context.Context, tile tlog.Tile) ([]byte, error) {
 	return resp, err
 }
 
+// getIssuer fetches the chain certificate with the given fingerprint.
+func (f *Fetch) getIssuer(ctx context.Context, fp [32]byte) ([]byte, error) {
+	data, err := f.get(ctx, fmt.Sprintf("issuer/%x", fp))
+	if err != nil {
+		return nil, err
+	}
+	if sha256.Sum256(data) != fp {
+		return nil, errors.New("issuer does not match its fingerprint")
+	}
+	return data, nil
+}
+
 // TODO: refactor the duplicate definitions of this stanza in this file and bucket.go
 // to be in the sunlight package.
 const (
diff --git a/internal/ctmonitor/logic.go b/internal/ctmonitor/logic.go
index 327c75d..1a7df37 100644
--- a/internal/ctmonitor/logic.go
+++ b/internal/ctmonitor/logic.go
@@ -384,6 +384,16 @@ func (f Fetch) get_entries(ctx context.Context, reqBody io.ReadCloser, query url
 		}
 	}
 
+	// A data tile that was cut short between two entries still parses
+	if int64(len(entries)) != end-start+1 {
+		return nil, 517, fmt.Errorf("data tiles do not hold the requested entries")
+	}
+	for i, entry := range entries {
+		if entry.LeafIndex != uint64(start)+uint64(i) {
+			return nil, 517, fmt.Errorf("data tiles do not hold the requested entries")
+		}
+	}
+
 	ctLeafEntries := make([]ct.LeafEntry, 0, len(entries))
 
 outerloop:
@@ -397,7 +407,7 @@ outerloop:
 				break outerloop
 			}
 
-			data, err := f.get(ctx, fmt.Sprintf("issuer/%x", fp))
+			data, err := f.getIssuer(ctx, fp)
 			if err != nil {
 				return nil, 518, err
 			}
@@ -514,7 +524,7 @@ func (f Fetch) get_entry_and_proof(ctx context.Context, reqBody io.ReadCloser, q
 	// TODO: add a cache here
 	chain := make([]ct.ASN1Cert, 0, len(leafEntry.ChainFp))
 	for _, fp := range leafEntry.ChainFp {
-		data, err := f.get(ctx, fmt.Sprintf("issuer/%x", fp))
+		data, err := f.getIssuer(ctx, fp)
 		if err != nil {
 			return nil, 500, err
 		}
-- 
2.43.0


From 4e8dcaac301978cde8d0bb1ccfc97fc806100285 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:28:44 +0000
Subject: [PATCH 07/13] fix: replace files of the filesystem storage atomically

---
 internal/ctsubmit/storage.go | 33 +++++++++++++++++++++++++++++++--
 1 file changed, 31 insertions(+), 2 deletions(-)

diff --git a/internal/ctsubmit/storage.go b/internal/ctsubmit/storage.go
index a6e2ee7..5c6eb61 100644
--- a/internal/ctsubmit/storage.go
+++ b/internal/ctsubmit/storage.go
@@ -114,7 +114,7 @@ func (f *FsStorage) Set(ctx context.Context, key string, data []byte) error {
 	filePath := f.root + "/" + key
 
 	// Attempt to write the file
-	err := os.WriteFile(filePath, data, 0644)
+	err := writeFileAtomic(filePath, data)
 	if err == nil {
 		// No error, file written successfully
 		return nil
@@ -132,13 +132,42 @@ func (f *FsStorage) Set(ctx context.Context, key string, data []byte) error {
 		}
 
 		// Retry writing the file after creating directories
-		return os.WriteFile(filePath, data, 0644)
+		return writeFileAtomic(filePath, data)
 	}
 
 	// Return the original error if it's not related to missing directories
 	return err
 }
 
+// writeFileAtomic replaces the file with data, or leaves it as it was. The data is written and
+// synced to a temporary file in the same directory first, so no reader or crash sees a part of it.
+func writeFileAtomic(filePath string, data []byte) (err error) {
+	tmp, err := os.CreateTemp(filepath.Dir(filePath), ".tmp-*")
+	if err != nil {
+		return err
+	}
+	defer func() {
+		if err != nil {
+			tmp.Close()
+			os.Remove(tmp.Name())
+		}
+	}()
+
+	if _, err = tmp.Write(data); err != nil {
+		return err
+	}
+	if err = tmp.Chmod(0644); err != nil {
+		return err
+	}
+	if err = tmp.Sync(); err != nil {
+		return err
+	}
+	if err = tmp.Close(); err != nil {
+		return err
+	}
+	return os.Rename(tmp.Name(), filePath)
+}
+
 func (f *FsStorage) Exists(ctx context.Context, key string) (bool, error) {
 	filePath := f.root + "/" + key
 
-- 
2.43.0


From f272e93ed14d99be5172cb772f25abb08ae42a46 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:29:05 +0000
Subject: [PATCH 08/13] fix: bound the whole time a submission can take

---
 internal/ctsubmit/logic.go | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/internal/ctsubmit/logic.go b/internal/ctsubmit/logic.go
index 4981c94..eabffef 100644
--- a/internal/ctsubmit/logic.go
+++ b/internal/ctsubmit/logic.go
@@ -164,6 +164,9 @@ func (d *stageZeroData) stageZero(ctx context.Context, reqBody io.ReadCloser, pr
 
 	// Before we send the unsequenced entry to the first stage, we need to check if it's a duplicate
 	// This is done by hashing the certificate fingerprint and checking if it exists in the dedupe map
+	// Nominally, this and the sequencing complete in under 2 seconds.
+	ctx, cancel := context.WithTimeout(ctx, 5*time.Second)
+	defer cancel()
 	dedupeKey := [16]byte(entry.CertificateFp[:16])
 	dedupeVal, err := d.bucket.GetDedupeEntry(ctx, dedupeKey, d.maskSize)
 
@@ -179,14 +182,17 @@ func (d *stageZeroData) stageZero(ctx context.Context, reqBody io.ReadCloser, pr
 		// This channel is buffered so it doesn't block if an attempt is made to send
 		// after the timeout fires.
 		returnPath := make(chan sunlight.LogEntry, 1)
-		d.stageOneTx <- UnsequencedEntryWithReturnPath{entry, returnPath}
+		select {
+		case d.stageOneTx <- UnsequencedEntryWithReturnPath{entry, returnPath}:
+		case <-ctx.Done():
+			return nil, http.StatusServiceUnavailable, fmt.Errorf("timed out waiting for space in the pool")
+		}
 
 		// If we recieve something here, that means that the entry has been both sequenced
 		// and uploaded with a newly signed STH, so we can issue a SCT.
 		select {
 		case completeEntry = <-returnPath:
-		// Nominally, this should complete in under 2 seconds.
-		case <-time.After(5 * time.Second):
+		case <-ctx.Done():
 			return nil, http.StatusServiceUnavailable, fmt.Errorf("timed out waiting for sequencer")
 		}
 	}
-- 
2.43.0


From 3394db931c927b8fd014a0b1062e6c11c5d12952 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:29:06 +0000
Subject: [PATCH 09/13] fix: do not sequence a submission when the dedupe data
 cannot be read

---
 internal/ctsubmit/bucket.go | 10 +++++++++-
 internal/ctsubmit/logic.go  |  3 +++
 2 files changed, 12 insertions(+), 1 deletion(-)

diff --git a/internal/ctsubmit/bucket.go b/internal/ctsubmit/bucket.go
index 8d19b97..203627b 100644
--- a/internal/ctsubmit/bucket.go
+++ b/internal/ctsubmit/bucket.go
@@ -304,6 +304,14 @@ func (b *Bucket) PutDedupeEntries(ctx context.Context, hashes []DedupeUpload, ma
 	return nil
 }
 
+var errRecordNotFound = errors.New("record not found")
+
+// isNotFound tells that a record or its whole file does not exist, and not just can't be read.
+func isNotFound(err error) bool {
+	var notFound *s3types.NoSuchKey
+	return errors.Is(err, errRecordNotFound) || errors.As(err, &notFound) || errors.Is(err, os.ErrNotExist)
+}
+
 func (b *Bucket) GetDedupeEntry(ctx context.Context, hash [16]byte, mask int) (DedupeUpload, error) {
 	f, err := b.S.Get(ctx, "int/dedupe/"+sunlight.KAnonHashPath(hash[:], mask))
 	if err != nil {
@@ -321,5 +329,5 @@ func (b *Bucket) GetDedupeEntry(ctx context.Context, hash [16]byte, mask int) (D
 			return record, nil
 		}
 	}
-	return DedupeUpload{}, errors.New("record not found")
+	return DedupeUpload{}, errRecordNotFound
 }
diff --git a/internal/ctsubmit/logic.go b/internal/ctsubmit/logic.go
index eabffef..d5434e3 100644
--- a/internal/ctsubmit/logic.go
+++ b/internal/ctsubmit/logic.go
@@ -175,6 +175,9 @@ func (d *stageZeroData) stageZero(ctx context.Context, reqBody io.ReadCloser, pr
 	if err == nil {
 		// If we recieved a valid cache hit, then the certificate is a duplicate
 		completeEntry = entry.Sequence(dedupeVal.leafIndex, dedupeVal.timestamp)
+	} else if !isNotFound(err) {
+		// Without the dedupe data it can't be told if the certificate already has an SCT
+		return nil, http.StatusServiceUnavailable, fmt.Errorf("unable to look up dedupe entry: %w", err)
 	} else {
 		// Otherwise, we need to send it to the sequencer
 
-- 
2.43.0


From 979398714c782dc4613627859ba06b45f94ddb5a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:29:07 +0000
Subject: [PATCH 10/13] fix: tell precertificates with different final issuers
 apart in the dedupe data

---
 internal/ctsubmit/logic.go | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/internal/ctsubmit/logic.go b/internal/ctsubmit/logic.go
index d5434e3..fe87785 100644
--- a/internal/ctsubmit/logic.go
+++ b/internal/ctsubmit/logic.go
@@ -11,6 +11,7 @@ import (
 	"maps"
 	"math/rand"
 	"net/http"
+	"slices"
 	"time"
 
 	ct "github.com/google/certificate-transparency-go"
@@ -160,6 +161,12 @@ func (d *stageZeroData) stageZero(ctx context.Context, reqBody io.ReadCloser, pr
 
 		entry.Certificate = tbsCertficiate
 		entry.IssuerKeyHash = sha256.Sum256(issuer.RawSubjectPublicKeyInfo)
+
+		// With a preissuer, the entry depends on the issuer it leads to, so the same precertificate
+		// must not share the dedupe record of its entry under another issuer
+		if preIssuer != nil {
+			entry.CertificateFp = sha256.Sum256(slices.Concat(entry.CertificateFp[:], entry.IssuerKeyHash[:], entry.Certificate))
+		}
 	}
 
 	// Before we send the unsequenced entry to the first stage, we need to check if it's a duplicate
-- 
2.43.0


From 5fbebd0006aeca3ab74391491e0a7eb53eb40dc8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:29:28 +0000
Subject: [PATCH 11/13] fix: verify the data tile against the level zero tile
 on start-up

---
 internal/ctsubmit/config.go | 21 +++++++++++++++++++--
 1 file changed, 19 insertions(+), 2 deletions(-)

diff --git a/internal/ctsubmit/config.go b/internal/ctsubmit/config.go
index b2267cb..bd1311e 100644
--- a/internal/ctsubmit/config.go
+++ b/internal/ctsubmit/config.go
@@ -1,6 +1,7 @@
 package ctsubmit
 
 import (
+	"bytes"
 	"context"
 	"crypto/ecdsa"
 	"crypto/sha256"
@@ -358,10 +359,26 @@ func LoadLog(ctx context.Context, kvpath, consulAddress string) (*Log, error) {
 			if err != nil {
 				return nil, fmt.Errorf("unable to fetch data tile: %v", err)
 			}
+			// Its entries must be the ones hashed in the (already verified) L0 tile
+			hashes := dataTile.Bytes
+			rest := dataTileBytes
+			for range dataTile.Tile.W {
+				var entry *sunlight.LogEntry
+				entry, rest, err = sunlight.ReadTileLeaf(rest)
+				if err != nil {
+					return nil, fmt.Errorf("unable to parse data tile: %v", err)
+				}
+				hash := tlog.RecordHash(entry.MerkleTreeLeaf())
+				if !bytes.Equal(hash[:], hashes[:tlog.HashSize]) {
+					return nil, fmt.Errorf("data tile does not match the level zero tile")
+				}
+				hashes = hashes[tlog.HashSize:]
+			}
+			if len(rest) != 0 {
+				return nil, fmt.Errorf("data tile has trailing data")
+			}
 			dataTile.Bytes = dataTileBytes
 			edgeTiles[-1] = dataTile
-
-			// TODO: verify the data tile against the L0 tile
 		}
 
 		stageTwo = stageTwoData{
-- 
2.43.0


From 1e0804ec786f687ab11568cdaf2cb214e9076514 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:53:16 +0000
Subject: [PATCH 12/13] fix: always complete the first entry of get-entries

When the requests an answer may make run out within the chain of the first
entry, the answer was an empty list of entries, and a client that asks again
for the rest never gets past that entry.
---
 internal/ctmonitor/logic.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/internal/ctmonitor/logic.go b/internal/ctmonitor/logic.go
index 1a7df37..2fb6cbf 100644
--- a/internal/ctmonitor/logic.go
+++ b/internal/ctmonitor/logic.go
@@ -403,7 +403,8 @@ outerloop:
 		// TODO: add a cache here
 		chain := make([]ct.ASN1Cert, 0, len(entry.ChainFp))
 		for _, fp := range entry.ChainFp {
-			if f.s.AvailableReqs() == 0 {
+			// The first entry is always completed, the answer has to hold at least one
+			if f.s.AvailableReqs() <= 0 && len(ctLeafEntries) > 0 {
 				break outerloop
 			}
 
-- 
2.43.0


From dc56d8769bed576c0140070b049839a565986449 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:53:16 +0000
Subject: [PATCH 13/13] fix: report objects that do not exist as such in the
 local mode of the edge

The error of the fetch was returned before the check for not found, so a
partial tile that was replaced was an error instead of the full tile.
---
 internal/ctmonitor/fastly.go | 5 +----
 1 file changed, 1 insertion(+), 4 deletions(-)

diff --git a/internal/ctmonitor/fastly.go b/internal/ctmonitor/fastly.go
index 75c3c5b..bf54eb5 100644
--- a/internal/ctmonitor/fastly.go
+++ b/internal/ctmonitor/fastly.go
@@ -206,12 +206,9 @@ func (f *FastlyStorage) Get(ctx context.Context, key string) (data []byte, notfo
 	} else {
 		entry, err := cacheFunc()
 		if err != nil {
-			return nil, false, err
+			return nil, notFound, err
 		}
 		reader = entry.Body
-		if notFound {
-			return nil, true, errors.New("not found")
-		}
 	}
 
 	body, err := io.ReadAll(reader)
-- 
2.43.0

