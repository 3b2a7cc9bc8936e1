From 397fe179eaaab36ddc7169a175048f7adaa4b531 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:56:56 +0000
Subject: [PATCH 01/57] fix: take the piece lock before the torrent lock in
 GetBlock

PutBlock locks the piece and then the torrent; GetBlock did it the other way
round, so a concurrent read and the completion of the same piece deadlocked.
---
 storage/storage.go | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/storage/storage.go b/storage/storage.go
index 5214f08..5d80d1d 100644
--- a/storage/storage.go
+++ b/storage/storage.go
@@ -95,14 +95,15 @@ func (s *Storage) ResetPiece(index int) *Piece {
 
 func (s *Storage) GetBlock(index, begin, length int) ([]byte, error) {
 	slog.Debug("GetBlock", "name", s.Torrent.Info.Name, "index", index, "begin", begin, "length", length)
+	// Same order as PutBlock: piece first, then torrent
+	piece := s.Torrent.pieces[index]
+	piece.mu.RLock()
+	defer piece.mu.RUnlock()
 	s.Torrent.mu.RLock()
 	defer s.Torrent.mu.RUnlock()
 	if s.Torrent.coalesced {
 		return s.getBlockFromTorrent(index, begin, length)
 	}
-	piece := s.Torrent.pieces[index]
-	piece.mu.RLock()
-	defer piece.mu.RUnlock()
 	if !piece.coalesced {
 		return nil, ErrIncompletePiece
 	}
-- 
2.43.0


From 94d5dca1654d5632a700959bb4ef31a3f5dd6eae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:57:13 +0000
Subject: [PATCH 02/57] fix: do not panic when a failed or completed piece is
 reset

reset delivered into a future that coalesceBlocks or completePiece had already
delivered, closing its channel twice, and forgot that a completed piece has
nothing to reset.
---
 future/future.go   | 10 ++++++++--
 storage/torrent.go |  3 +++
 2 files changed, 11 insertions(+), 2 deletions(-)

diff --git a/future/future.go b/future/future.go
index 5ab841c..a21608a 100644
--- a/future/future.go
+++ b/future/future.go
@@ -1,17 +1,23 @@
 package future
 
+import "sync"
+
 type Future[T any] struct {
 	Done  chan struct{}
 	value T
+	once  sync.Once
 }
 
 func New[T any]() *Future[T] {
 	return &Future[T]{Done: make(chan struct{})}
 }
 
+// Deliver sets the outcome. Only the first delivery counts.
 func (p *Future[T]) Deliver(value T) {
-	p.value = value
-	close(p.Done)
+	p.once.Do(func() {
+		p.value = value
+		close(p.Done)
+	})
 }
 
 func (p *Future[T]) Wait() T {
diff --git a/storage/torrent.go b/storage/torrent.go
index 2a5bfa7..145eee5 100644
--- a/storage/torrent.go
+++ b/storage/torrent.go
@@ -102,6 +102,9 @@ func (p *Piece) Wait() error {
 }
 
 func (p *Piece) reset() {
+	if p.coalesced {
+		return
+	}
 	p.err.Deliver(errors.New("storage: piece reset"))
 	p.err = future.New[error]()
 	p.blocks = nil
-- 
2.43.0


From d7af9e4092bd72c099b35c6f0663fe523879c04b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:57:17 +0000
Subject: [PATCH 03/57] fix: count exactly the bytes of completed pieces as
 downloaded

PutBlock counted a piece when it failed instead of when it was completed, a
finished multi-file download counted as the size of its directory, and loading
twice counted twice; announces derive left from this number.
---
 storage/storage.go | 22 ++++++++++++----------
 1 file changed, 12 insertions(+), 10 deletions(-)

diff --git a/storage/storage.go b/storage/storage.go
index 5d80d1d..c5cb908 100644
--- a/storage/storage.go
+++ b/storage/storage.go
@@ -38,17 +38,16 @@ func New(targetDir, workDir string, info *metainfo.Info) *Storage {
 }
 
 func (s *Storage) Load() error {
-	st, err := os.Stat(filepath.Join(s.TargetDir, s.Torrent.FileName()))
+	_, err := os.Stat(filepath.Join(s.TargetDir, s.Torrent.FileName()))
 	if err != nil && !errors.Is(err, os.ErrNotExist) {
 		return err
 	}
 	if err == nil {
 		// Complete torrent exists on disk
 		for i := range len(s.Torrent.Info.Pieces) {
-			s.Torrent.completePiece(s.Torrent.pieces[i])
+			s.loadPiece(s.Torrent.pieces[i])
 		}
 		s.Torrent.complete()
-		s.downloaded.Add(st.Size())
 	} else {
 		// Check for complete pieces on disk
 		direntries, err := os.ReadDir(filepath.Join(s.WorkDir, s.Torrent.WorkDir()))
@@ -62,12 +61,7 @@ func (s *Storage) Load() error {
 				if err != nil {
 					continue
 				}
-				st, err := os.Stat(filepath.Join(s.WorkDir, s.Torrent.WorkDir(), dr.Name()))
-				if err != nil {
-					return err
-				}
-				s.downloaded.Add(st.Size())
-				s.Torrent.completePiece(s.Torrent.pieces[i])
+				s.loadPiece(s.Torrent.pieces[i])
 			}
 			if err = s.coalescePieces(); err != nil {
 				return err
@@ -77,6 +71,14 @@ func (s *Storage) Load() error {
 	return nil
 }
 
+func (s *Storage) loadPiece(piece *Piece) {
+	if piece.coalesced {
+		return
+	}
+	s.Torrent.completePiece(piece)
+	s.downloaded.Add(int64(piece.Length))
+}
+
 func (s *Storage) Downloaded() int64 {
 	return s.downloaded.Load()
 }
@@ -130,7 +132,6 @@ func (s *Storage) PutBlock(index, begin int, data []byte) error {
 	s.Torrent.mu.Lock()
 	defer s.Torrent.mu.Unlock()
 	if err := s.coalesceBlocks(piece); err != nil {
-		s.downloaded.Add(int64(piece.Length))
 		piece.err.Deliver(err)
 		return err
 	}
@@ -278,6 +279,7 @@ func (s *Storage) coalesceBlocks(piece *Piece) error {
 		return err
 	}
 	s.Torrent.completePiece(piece)
+	s.downloaded.Add(int64(piece.Length))
 	return nil
 }
 
-- 
2.43.0


From 01f9c984e62ee9160eb0f8a56feff9adacaaab11 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:57:44 +0000
Subject: [PATCH 04/57] fix: refuse blocks that lie outside their piece

PutBlock and GetBlock indexed with whatever index, offset and length a peer
sent: a block at the end of a block-aligned piece, a negative or unknown index
panicked, and a huge length was allocated.
---
 storage/storage.go | 19 ++++++++++++++++++-
 1 file changed, 18 insertions(+), 1 deletion(-)

diff --git a/storage/storage.go b/storage/storage.go
index c5cb908..ccdeae4 100644
--- a/storage/storage.go
+++ b/storage/storage.go
@@ -97,6 +97,9 @@ func (s *Storage) ResetPiece(index int) *Piece {
 
 func (s *Storage) GetBlock(index, begin, length int) ([]byte, error) {
 	slog.Debug("GetBlock", "name", s.Torrent.Info.Name, "index", index, "begin", begin, "length", length)
+	if err := checkBlockRange(s.Torrent.Info, index, begin, length); err != nil {
+		return nil, err
+	}
 	// Same order as PutBlock: piece first, then torrent
 	piece := s.Torrent.pieces[index]
 	piece.mu.RLock()
@@ -226,7 +229,21 @@ func (s *Storage) getBlockFromPiece(piece *Piece, begin, length int) ([]byte, er
 	return data[:n], nil
 }
 
+func checkBlockRange(info *metainfo.Info, index, begin, length int) error {
+	if index < 0 || index >= len(info.Pieces) {
+		return fmt.Errorf("storage: no such piece: %d", index)
+	}
+	pieceLength := info.GetPieceLength(index)
+	if begin < 0 || begin > pieceLength || length < 0 || length > pieceLength-begin {
+		return fmt.Errorf("storage: block outside of piece %d: begin=%d, length=%d", index, begin, length)
+	}
+	return nil
+}
+
 func checkBlockSize(info *metainfo.Info, index, begin, length int) error {
+	if err := checkBlockRange(info, index, begin, length); err != nil {
+		return err
+	}
 	if begin%BLOCK_LENGTH != 0 {
 		return fmt.Errorf("storage: misaligned block: %d %% %d != 0", begin, BLOCK_LENGTH)
 	}
@@ -236,7 +253,7 @@ func checkBlockSize(info *metainfo.Info, index, begin, length int) error {
 	if begin == lastBlock {
 		expectedBlockLength = pieceLength - begin
 	}
-	if expectedBlockLength != length {
+	if length == 0 || expectedBlockLength != length {
 		return fmt.Errorf("storage: unexpected block length: %d != %d", length, expectedBlockLength)
 	}
 	return nil
-- 
2.43.0


From 8fc8f0c2d7df5a95856f044970cc3a207b711c57 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:57:48 +0000
Subject: [PATCH 05/57] fix: verify what is on disk before reporting it as
 complete

Load took any file called N.piece (whatever its content or size, also under
names like 00.piece or with an N out of range, which panicked) and anything
under the target name as complete data, and served it to peers.
---
 storage/storage.go | 65 ++++++++++++++++++++++++++++++++++++++++++++++
 1 file changed, 65 insertions(+)

diff --git a/storage/storage.go b/storage/storage.go
index ccdeae4..d9e5025 100644
--- a/storage/storage.go
+++ b/storage/storage.go
@@ -44,6 +44,9 @@ func (s *Storage) Load() error {
 	}
 	if err == nil {
 		// Complete torrent exists on disk
+		if err := s.verifyTarget(); err != nil {
+			return err
+		}
 		for i := range len(s.Torrent.Info.Pieces) {
 			s.loadPiece(s.Torrent.pieces[i])
 		}
@@ -58,7 +61,18 @@ func (s *Storage) Load() error {
 			for _, dr := range direntries {
 				var i int
 				_, err := fmt.Sscanf(dr.Name(), "%d.piece", &i)
+				if err != nil || i < 0 || i >= len(s.Torrent.pieces) || dr.Name() != s.Torrent.pieces[i].FileName() {
+					continue
+				}
+				ok, err := s.verifyPiece(s.Torrent.pieces[i])
 				if err != nil {
+					return err
+				}
+				if !ok {
+					// Damaged or left over, fetch it again
+					if err := os.RemoveAll(filepath.Join(s.WorkDir, s.Torrent.WorkDir(), dr.Name())); err != nil {
+						return err
+					}
 					continue
 				}
 				s.loadPiece(s.Torrent.pieces[i])
@@ -71,6 +85,57 @@ func (s *Storage) Load() error {
 	return nil
 }
 
+// verifyPiece reports whether the file of a piece holds the piece's data.
+func (s *Storage) verifyPiece(piece *Piece) (bool, error) {
+	path := filepath.Join(s.WorkDir, s.Torrent.WorkDir(), piece.FileName())
+	st, err := os.Stat(path)
+	if err != nil {
+		return false, err
+	}
+	if !st.Mode().IsRegular() || st.Size() != int64(piece.Length) {
+		return false, nil
+	}
+	f, err := os.Open(path)
+	if err != nil {
+		return false, err
+	}
+	defer f.Close()
+	sha1Digest := sha1.New()
+	if _, err := io.Copy(sha1Digest, f); err != nil {
+		return false, err
+	}
+	return [20]byte(sha1Digest.Sum(nil)) == piece.SHA1, nil
+}
+
+// verifyTarget returns an error unless the target is the complete torrent.
+func (s *Storage) verifyTarget() error {
+	target := filepath.Join(s.TargetDir, s.Torrent.FileName())
+	files := []*metainfo.File{{Length: s.Torrent.Info.Length}}
+	if len(s.Torrent.Info.Files) > 0 {
+		files = s.Torrent.Info.Files
+	}
+	for _, file := range files {
+		path := filepath.Join(append([]string{target}, file.Path...)...)
+		st, err := os.Stat(path)
+		if err != nil {
+			return err
+		}
+		if !st.Mode().IsRegular() || st.Size() != file.Length {
+			return fmt.Errorf("storage: %s exists and is not part of the torrent", path)
+		}
+	}
+	for _, piece := range s.Torrent.pieces {
+		data, err := s.getBlockFromTorrent(piece.Index, 0, piece.Length)
+		if err != nil {
+			return err
+		}
+		if hash := sha1.Sum(data); hash != piece.SHA1 {
+			return fmt.Errorf("storage: %s exists and is not the torrent: %w", target, &ChecksumError{piece.Index, hash, piece.SHA1})
+		}
+	}
+	return nil
+}
+
 func (s *Storage) loadPiece(piece *Piece) {
 	if piece.coalesced {
 		return
-- 
2.43.0


From d1eb8d8dde6e630124f982106932ae94d0300ee7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:58:26 +0000
Subject: [PATCH 06/57] fix: treat the download as finished once the target is
 in place

When the piece files could not be removed after the rename the torrent stayed
incomplete although its target existed, and waiters hung; after a crash at that
point the piece files were never removed. A failed assembly now reaches those
who wait for the torrent.
---
 storage/storage.go | 28 ++++++++++++++++------------
 1 file changed, 16 insertions(+), 12 deletions(-)

diff --git a/storage/storage.go b/storage/storage.go
index d9e5025..c49f03c 100644
--- a/storage/storage.go
+++ b/storage/storage.go
@@ -50,7 +50,7 @@ func (s *Storage) Load() error {
 		for i := range len(s.Torrent.Info.Pieces) {
 			s.loadPiece(s.Torrent.pieces[i])
 		}
-		s.Torrent.complete()
+		s.published()
 	} else {
 		// Check for complete pieces on disk
 		direntries, err := os.ReadDir(filepath.Join(s.WorkDir, s.Torrent.WorkDir()))
@@ -77,9 +77,9 @@ func (s *Storage) Load() error {
 				}
 				s.loadPiece(s.Torrent.pieces[i])
 			}
-			if err = s.coalescePieces(); err != nil {
-				return err
-			}
+		}
+		if err = s.coalescePieces(); err != nil {
+			return err
 		}
 	}
 	return nil
@@ -204,6 +204,7 @@ func (s *Storage) PutBlock(index, begin int, data []byte) error {
 		return err
 	}
 	if err := s.coalescePieces(); err != nil {
+		s.Torrent.err.Deliver(err)
 		return err
 	}
 	return nil
@@ -376,6 +377,15 @@ func (s *Storage) coalescePieces() error {
 	return s.coalescePiecesForSingleFile()
 }
 
+// published is called once the target is in place. The piece files are not
+// needed any more; if they cannot be removed now, the next Load does it.
+func (s *Storage) published() {
+	s.Torrent.complete()
+	if err := os.RemoveAll(filepath.Join(s.WorkDir, s.Torrent.WorkDir())); err != nil {
+		slog.Error("published.RemoveAll", "err", err)
+	}
+}
+
 func (s *Storage) coalescePiecesForSingleFile() error {
 	tempDir := filepath.Join(s.WorkDir, "temp")
 	if err := os.MkdirAll(tempDir, 0o0700); err != nil {
@@ -399,10 +409,7 @@ func (s *Storage) coalescePiecesForSingleFile() error {
 	if err = os.Rename(temp.Name(), filepath.Join(s.TargetDir, s.Torrent.FileName())); err != nil {
 		return err
 	}
-	if err := os.RemoveAll(filepath.Join(s.WorkDir, s.Torrent.WorkDir())); err != nil {
-		return err
-	}
-	s.Torrent.complete()
+	s.published()
 	return nil
 }
 
@@ -439,9 +446,6 @@ func (s *Storage) coalescePiecesForMultiFile() error {
 	if err = os.Rename(temp, filepath.Join(s.TargetDir, s.Torrent.FileName())); err != nil {
 		return err
 	}
-	if err := os.RemoveAll(filepath.Join(s.WorkDir, s.Torrent.WorkDir())); err != nil {
-		return err
-	}
-	s.Torrent.complete()
+	s.published()
 	return nil
 }
-- 
2.43.0


From 281dc948833a1a4972a221b9eedeb53d3ed5c31e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:58:30 +0000
Subject: [PATCH 07/57] fix: flush assembled files before they are published

The target was renamed into place with its data still unwritten, so a power
loss left a finished-looking download with missing data and removed pieces.
Errors of Close were ignored, and files were leaked on errors and after the
last piece of a multi-file download.
---
 storage/lazy_file_reader.go |  8 ++++++++
 storage/storage.go          | 27 +++++++++++++++++++++++----
 2 files changed, 31 insertions(+), 4 deletions(-)

diff --git a/storage/lazy_file_reader.go b/storage/lazy_file_reader.go
index a02b37f..90d8e7f 100644
--- a/storage/lazy_file_reader.go
+++ b/storage/lazy_file_reader.go
@@ -28,6 +28,14 @@ func (lfr *lazyFileReader) checkOpen() error {
 	return nil
 }
 
+// Close releases the file if it was not read to its end.
+func (lfr *lazyFileReader) Close() error {
+	if lfr.f == nil {
+		return nil
+	}
+	return lfr.f.Close()
+}
+
 func (lfr *lazyFileReader) checkClose() {
 	if lfr.read == lfr.size {
 		lfr.f.Close()
diff --git a/storage/storage.go b/storage/storage.go
index c49f03c..0cb2d9c 100644
--- a/storage/storage.go
+++ b/storage/storage.go
@@ -267,11 +267,11 @@ func (s *Storage) getBlockFromMultiFile(index, begin, length int) ([]byte, error
 				return nil, err
 			}
 			n, err := f.ReadAt(data[curr:], int64(offset))
+			f.Close()
 			curr += n
 			if err != nil && !errors.Is(err, io.EOF) {
 				return nil, err
 			}
-			f.Close()
 		}
 		total += file.Length
 	}
@@ -355,6 +355,9 @@ func (s *Storage) coalesceBlocks(piece *Piece) error {
 	if hash != piece.SHA1 {
 		return &ChecksumError{piece.Index, hash, piece.SHA1}
 	}
+	if err := temp.Close(); err != nil {
+		return err
+	}
 	if err = os.MkdirAll(filepath.Join(s.WorkDir, s.Torrent.WorkDir()), 0o0700); err != nil {
 		return err
 	}
@@ -400,12 +403,20 @@ func (s *Storage) coalescePiecesForSingleFile() error {
 	var pieceReaders []io.Reader
 	for _, piece := range s.Torrent.pieces {
 		path := filepath.Join(s.WorkDir, s.Torrent.WorkDir(), piece.FileName())
-		pieceReaders = append(pieceReaders, &lazyFileReader{path: path})
+		pieceReader := &lazyFileReader{path: path}
+		defer pieceReader.Close()
+		pieceReaders = append(pieceReaders, pieceReader)
 	}
 	r := io.MultiReader(pieceReaders...)
 	if _, err := io.Copy(temp, r); err != nil {
 		return err
 	}
+	if err := temp.Sync(); err != nil {
+		return err
+	}
+	if err := temp.Close(); err != nil {
+		return err
+	}
 	if err = os.Rename(temp.Name(), filepath.Join(s.TargetDir, s.Torrent.FileName())); err != nil {
 		return err
 	}
@@ -426,7 +437,9 @@ func (s *Storage) coalescePiecesForMultiFile() error {
 	var pieceReaders []io.Reader
 	for _, piece := range s.Torrent.pieces {
 		path := filepath.Join(s.WorkDir, s.Torrent.WorkDir(), piece.FileName())
-		pieceReaders = append(pieceReaders, &lazyFileReader{path: path})
+		pieceReader := &lazyFileReader{path: path}
+		defer pieceReader.Close()
+		pieceReaders = append(pieceReaders, pieceReader)
 	}
 	r := io.MultiReader(pieceReaders...)
 	for _, file := range s.Torrent.Info.Files {
@@ -438,10 +451,16 @@ func (s *Storage) coalescePiecesForMultiFile() error {
 		if err != nil {
 			return err
 		}
+		defer f.Close()
 		if _, err = io.CopyN(f, r, int64(file.Length)); err != nil {
 			return err
 		}
-		f.Close()
+		if err := f.Sync(); err != nil {
+			return err
+		}
+		if err := f.Close(); err != nil {
+			return err
+		}
 	}
 	if err = os.Rename(temp, filepath.Join(s.TargetDir, s.Torrent.FileName())); err != nil {
 		return err
-- 
2.43.0


From aab77a28087c79a8545c8cfeb2055eaf7a867f92 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:58:34 +0000
Subject: [PATCH 08/57] fix: refuse torrents whose names lead out of the target
 directory

Names and path components like .. or /etc were joined to the target and temp
directories as they came, so a torrent could create and replace files anywhere.
Lengths that do not fit the pieces and files that cannot coexist are refused as
well; they panicked or could never be finished.
---
 storage/storage.go | 56 ++++++++++++++++++++++++++++++++++++++++++++++
 1 file changed, 56 insertions(+)

diff --git a/storage/storage.go b/storage/storage.go
index 0cb2d9c..8a4dd0e 100644
--- a/storage/storage.go
+++ b/storage/storage.go
@@ -9,6 +9,7 @@ import (
 	"log/slog"
 	"os"
 	"path/filepath"
+	"strings"
 	"sync/atomic"
 
 	"github.com/browles/drip/api/metainfo"
@@ -38,6 +39,9 @@ func New(targetDir, workDir string, info *metainfo.Info) *Storage {
 }
 
 func (s *Storage) Load() error {
+	if err := checkInfo(s.Torrent.Info); err != nil {
+		return err
+	}
 	_, err := os.Stat(filepath.Join(s.TargetDir, s.Torrent.FileName()))
 	if err != nil && !errors.Is(err, os.ErrNotExist) {
 		return err
@@ -295,6 +299,58 @@ func (s *Storage) getBlockFromPiece(piece *Piece, begin, length int) ([]byte, er
 	return data[:n], nil
 }
 
+// checkInfo refuses torrents whose names lead out of the target directory, or
+// whose files and pieces do not fit together.
+func checkInfo(info *metainfo.Info) error {
+	if !validName(info.Name) {
+		return fmt.Errorf("storage: invalid name: %q", info.Name)
+	}
+	length := info.Length
+	paths := make(map[string]bool)
+	dirs := make(map[string]bool)
+	if len(info.Files) > 0 {
+		length = 0
+	}
+	for _, file := range info.Files {
+		if file.Length < 0 || length+file.Length < length {
+			return fmt.Errorf("storage: invalid file length: %d", file.Length)
+		}
+		length += file.Length
+		if len(file.Path) == 0 {
+			return errors.New("storage: empty file path")
+		}
+		path := ""
+		for _, name := range file.Path {
+			if !validName(name) {
+				return fmt.Errorf("storage: invalid file path: %q", file.Path)
+			}
+			if path != "" {
+				dirs[path] = true
+			}
+			path = filepath.Join(path, name)
+		}
+		if paths[path] {
+			return fmt.Errorf("storage: duplicate file path: %q", file.Path)
+		}
+		paths[path] = true
+	}
+	for path := range paths {
+		if dirs[path] {
+			return fmt.Errorf("storage: file path is also a directory: %q", path)
+		}
+	}
+	n := int64(len(info.Pieces))
+	pieceLength := int64(info.PieceLength)
+	if length < 0 || pieceLength <= 0 || length/pieceLength > n || length > n*pieceLength || length <= (n-1)*pieceLength {
+		return fmt.Errorf("storage: length %d does not fit %d pieces of length %d", length, n, pieceLength)
+	}
+	return nil
+}
+
+func validName(name string) bool {
+	return name != "" && name != "." && name != ".." && !strings.ContainsAny(name, "/\x00"+string(filepath.Separator))
+}
+
 func checkBlockRange(info *metainfo.Info, index, begin, length int) error {
 	if index < 0 || index >= len(info.Pieces) {
 		return fmt.Errorf("storage: no such piece: %d", index)
-- 
2.43.0


From 38ba9f8a865952d20dd3460a1d52d9787d74a73c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:17:46 +0000
Subject: [PATCH 09/57] fix: reject malformed peer messages instead of
 panicking

---
 api/peer/peer.go | 27 ++++++++++++++++++++++++---
 1 file changed, 24 insertions(+), 3 deletions(-)

diff --git a/api/peer/peer.go b/api/peer/peer.go
index 2b3713e..96f665e 100644
--- a/api/peer/peer.go
+++ b/api/peer/peer.go
@@ -67,7 +67,7 @@ func (h *Handshake) MarshalBinary() ([]byte, error) {
 
 func (h *Handshake) Decode(r io.Reader) error {
 	data := make([]byte, HandshakeLength)
-	if _, err := r.Read(data[:1]); err != nil {
+	if _, err := io.ReadFull(r, data[:1]); err != nil {
 		return err
 	}
 	protocolLen := int(data[0])
@@ -120,10 +120,22 @@ var typeName = map[MessageType]string{
 	CANCEL:         "CANCEL",
 }
 
+// maxMessageLength bounds what a peer can make us allocate by announcing a long
+// message. It leaves room for the bitfield of millions of pieces.
+const maxMessageLength = 1 << 20
+
+// minPayloadLength is how much must follow the type of a message.
+var minPayloadLength = map[MessageType]int{
+	HAVE:    4,
+	REQUEST: 12,
+	PIECE:   8,
+	CANCEL:  12,
+}
+
 func (m MessageType) String() string {
 	n, ok := typeName[m]
 	if !ok {
-		panic("unknown message type")
+		return fmt.Sprintf("UNKNOWN(%d)", int(m))
 	}
 	return n
 }
@@ -280,7 +292,7 @@ func (m *Message) LogValue() slog.Value {
 			slog.Int("length", len(m.Piece())),
 			slog.String("piece", "<omitted>"))
 	default:
-		panic("unknown message type")
+		return slog.GroupValue(slog.String("type", m.Type.String()))
 	}
 }
 
@@ -354,12 +366,21 @@ func (m *Message) Decode(r io.Reader) error {
 		m.Type = KEEPALIVE
 		return nil
 	}
+	if length > maxMessageLength {
+		return fmt.Errorf("message too long: %d", length)
+	}
 	payload := make([]byte, length)
 	if _, err := io.ReadFull(r, payload); err != nil {
+		if err == io.EOF {
+			err = io.ErrUnexpectedEOF
+		}
 		return err
 	}
 	m.Type = MessageType(payload[0])
 	payload = payload[1:]
+	if n, ok := minPayloadLength[m.Type]; ok && len(payload) < n {
+		return fmt.Errorf("%s message too short: %d", m.Type, len(payload))
+	}
 	switch m.Type {
 	case CHOKE, UNCHOKE, INTERESTED, NOT_INTERESTED:
 	case BITFIELD:
-- 
2.43.0


From 52b5f78dfcba16373595ac15fac5665cfb5275ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:17:56 +0000
Subject: [PATCH 10/57] fix: treat indices outside a bitfield as absent

---
 bitfield/bitfield.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/bitfield/bitfield.go b/bitfield/bitfield.go
index 3ff6b4a..bdd9a9e 100644
--- a/bitfield/bitfield.go
+++ b/bitfield/bitfield.go
@@ -10,7 +10,11 @@ func New(n int) Bitfield {
 	return make(Bitfield, size)
 }
 
+// Has reports whether i is in the set. Indices outside of it are not.
 func (b Bitfield) Has(i int) bool {
+	if i < 0 || i/8 >= len(b) {
+		return false
+	}
 	bi := i / 8
 	bj := 7 - (i % 8)
 	return b[bi]&(1<<bj) != 0
-- 
2.43.0


From 05cf35d1be0cc62da4749b329d53ec3ba14f4a03 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:18:21 +0000
Subject: [PATCH 11/57] fix: do not read bitfields that others change without a
 lock

---
 p2p/peer.go        |  3 +--
 p2p/server.go      |  8 ++++++--
 storage/torrent.go | 15 +++++++++++++++
 3 files changed, 22 insertions(+), 4 deletions(-)

diff --git a/p2p/peer.go b/p2p/peer.go
index 672f31f..687d6bd 100644
--- a/p2p/peer.go
+++ b/p2p/peer.go
@@ -223,9 +223,8 @@ func (peer *Peer) HandleMessage(m *peerapi.Message) error {
 }
 
 func (peer *Peer) HandleHave(i int) error {
-	peer.Bitfield.Add(i)
 	peer.server.RecordIndex(i, peer)
-	if !peer.server.Storage.Torrent.Bitfield.Has(i) {
+	if !peer.server.Storage.Torrent.HasPiece(i) {
 		peer.server.QueuePeer(peer)
 		return peer.Interest()
 	}
diff --git a/p2p/server.go b/p2p/server.go
index d71d7b7..771dfe0 100644
--- a/p2p/server.go
+++ b/p2p/server.go
@@ -298,7 +298,7 @@ func (p2p *Server) Connect(peer *Peer) error {
 		return ErrAlreadyConnected
 	}
 	p2p.activePeers[peer.IDIP()] = peer
-	bf := p2p.Storage.Torrent.Bitfield
+	bf := p2p.Storage.Torrent.CompletePieces()
 	if err := peer.Send(peerapi.Bitfield(bf)); err != nil {
 		return err
 	}
@@ -325,6 +325,10 @@ func (p2p *Server) Block(peer *Peer) error {
 func (p2p *Server) RecordIndex(i int, peer *Peer) {
 	p2p.mu.Lock()
 	defer p2p.mu.Unlock()
+	if peer.Closed.Load() {
+		return
+	}
+	peer.Bitfield.Add(i)
 	m, ok := p2p.indexToPeers[i]
 	if !ok {
 		m = make(map[*Peer]struct{})
@@ -380,7 +384,7 @@ func (p2p *Server) requestPieceFromPeer(ctx context.Context, peer *Peer) error {
 		delete(p2p.queuedPeers, peer)
 		return nil
 	}
-	bf := p2p.Storage.Torrent.Bitfield
+	bf := p2p.Storage.Torrent.CompletePieces()
 	pieceBf := peer.Bitfield.Difference(bf)
 	pieces := pieceBf.Items()
 	if len(pieces) == 0 {
diff --git a/storage/torrent.go b/storage/torrent.go
index 145eee5..5634341 100644
--- a/storage/torrent.go
+++ b/storage/torrent.go
@@ -3,6 +3,7 @@ package storage
 import (
 	"errors"
 	"fmt"
+	"slices"
 	"sync"
 
 	"github.com/browles/drip/api/metainfo"
@@ -49,6 +50,20 @@ func (t *Torrent) Wait() error {
 	return fut.Wait()
 }
 
+// HasPiece reports whether a piece is complete.
+func (t *Torrent) HasPiece(i int) bool {
+	t.mu.RLock()
+	defer t.mu.RUnlock()
+	return t.Bitfield.Has(i)
+}
+
+// CompletePieces returns a copy of the bitfield of complete pieces.
+func (t *Torrent) CompletePieces() bitfield.Bitfield {
+	t.mu.RLock()
+	defer t.mu.RUnlock()
+	return slices.Clone(t.Bitfield)
+}
+
 func (t *Torrent) completePiece(piece *Piece) {
 	piece.coalesced = true
 	piece.err.Deliver(nil)
-- 
2.43.0


From 12e7d8207ce2dd6f048811a2e8f9092039c8bb3e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:18:37 +0000
Subject: [PATCH 12/57] fix: do not panic when a peer announces a piece that
 does not exist

---
 p2p/peer.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/p2p/peer.go b/p2p/peer.go
index 687d6bd..c7c897b 100644
--- a/p2p/peer.go
+++ b/p2p/peer.go
@@ -223,6 +223,9 @@ func (peer *Peer) HandleMessage(m *peerapi.Message) error {
 }
 
 func (peer *Peer) HandleHave(i int) error {
+	if i < 0 || i >= len(peer.server.Info.Pieces) {
+		return fmt.Errorf("p2p: HandleHave: no such piece: %d", i)
+	}
 	peer.server.RecordIndex(i, peer)
 	if !peer.server.Storage.Torrent.HasPiece(i) {
 		peer.server.QueuePeer(peer)
-- 
2.43.0


From 2b2cfbdf9d221d1a0bf5e8f667d98901f824a2b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:18:41 +0000
Subject: [PATCH 13/57] fix: release the lock and the connection when a peer is
 refused

---
 p2p/peer.go   |  1 +
 p2p/server.go | 26 +++++++++++++++++---------
 2 files changed, 18 insertions(+), 9 deletions(-)

diff --git a/p2p/peer.go b/p2p/peer.go
index c7c897b..2ad3fc4 100644
--- a/p2p/peer.go
+++ b/p2p/peer.go
@@ -164,6 +164,7 @@ func (p *Peer) NotInterest() error {
 
 func (peer *Peer) serve(ctx context.Context) {
 	if err := peer.server.Connect(peer); err != nil {
+		peer.Close()
 		if !errors.Is(err, ErrAlreadyConnected) {
 			slog.Error("serve.Connect", "err", err)
 		}
diff --git a/p2p/server.go b/p2p/server.go
index 771dfe0..7baff5a 100644
--- a/p2p/server.go
+++ b/p2p/server.go
@@ -268,16 +268,9 @@ func (p2p *Server) AddPeer(tp *tracker.Peer) error {
 }
 
 func (p2p *Server) Connect(peer *Peer) error {
-	p2p.mu.Lock()
-	if len(p2p.activePeers) >= 50 {
-		return ErrTooManyConnections
-	}
-	if idip, ok := p2p.knownIDIPs[peer.Addr()]; ok {
-		if _, ok := p2p.activePeers[idip]; ok {
-			return ErrAlreadyConnected
-		}
+	if err := p2p.checkConnect(peer); err != nil {
+		return err
 	}
-	p2p.mu.Unlock()
 	slog.Debug("Connect", "peer", peer.Addr())
 	if err := peer.Handshake(); err != nil {
 		return err
@@ -300,11 +293,26 @@ func (p2p *Server) Connect(peer *Peer) error {
 	p2p.activePeers[peer.IDIP()] = peer
 	bf := p2p.Storage.Torrent.CompletePieces()
 	if err := peer.Send(peerapi.Bitfield(bf)); err != nil {
+		p2p.disconnect(peer)
 		return err
 	}
 	return nil
 }
 
+func (p2p *Server) checkConnect(peer *Peer) error {
+	p2p.mu.Lock()
+	defer p2p.mu.Unlock()
+	if len(p2p.activePeers) >= 50 {
+		return ErrTooManyConnections
+	}
+	if idip, ok := p2p.knownIDIPs[peer.Addr()]; ok {
+		if _, ok := p2p.activePeers[idip]; ok {
+			return ErrAlreadyConnected
+		}
+	}
+	return nil
+}
+
 func (p2p *Server) Disconnect(peer *Peer) error {
 	p2p.mu.Lock()
 	defer p2p.mu.Unlock()
-- 
2.43.0


From ad67b3acd77de2b70f98ccf65dc0e8d16e7828a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:18:54 +0000
Subject: [PATCH 14/57] fix: block the address of a corrupting peer that is
 already gone

---
 p2p/server.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/p2p/server.go b/p2p/server.go
index 7baff5a..4fe820c 100644
--- a/p2p/server.go
+++ b/p2p/server.go
@@ -324,6 +324,8 @@ func (p2p *Server) Block(peer *Peer) error {
 	p2p.mu.Lock()
 	defer p2p.mu.Unlock()
 	slog.Debug("Block", "peer", peer.Addr())
+	// The peer may be disconnected already
+	p2p.blockedPeers[peer.Addr()] = struct{}{}
 	for addr := range p2p.knownAddrs[peer.IDIP()] {
 		p2p.blockedPeers[addr] = struct{}{}
 	}
@@ -470,6 +472,10 @@ func (p2p *Server) disconnect(peer *Peer) error {
 	for _, i := range peer.Bitfield.Items() {
 		delete(p2p.indexToPeers[i], peer)
 	}
+	if p2p.activePeers[peer.IDIP()] != peer {
+		// Disconnected before, the entries belong to a newer connection
+		return peer.Close()
+	}
 	for addr := range p2p.knownAddrs[peer.IDIP()] {
 		if idip, ok := p2p.knownIDIPs[addr]; ok && idip == peer.IDIP() {
 			delete(p2p.knownIDIPs, addr)
-- 
2.43.0


From cd01534159bf634ffec77979feabe8a154590230 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:19:19 +0000
Subject: [PATCH 15/57] fix: do not wait for the download queue after it is no
 longer served

---
 p2p/server.go | 24 +++++++++++++++++++-----
 1 file changed, 19 insertions(+), 5 deletions(-)

diff --git a/p2p/server.go b/p2p/server.go
index 4fe820c..617b9bc 100644
--- a/p2p/server.go
+++ b/p2p/server.go
@@ -33,6 +33,7 @@ type Server struct {
 	newPeerQueue  chan *tracker.Peer
 	downloadQueue chan *Peer
 	tcp           net.Listener
+	ctx           context.Context
 	cancel        context.CancelFunc
 	uploaded      atomic.Int64
 	downloaded    atomic.Int64
@@ -93,6 +94,7 @@ func (p2p *Server) Start() error {
 	}
 	slog.Info("Start", "network", "tcp", "port", p2p.Port)
 	ctx, cancel := context.WithCancel(context.Background())
+	p2p.ctx = ctx
 	p2p.cancel = cancel
 	defer cancel()
 	eg, ctx := errgroup.WithContext(ctx)
@@ -413,8 +415,11 @@ func (p2p *Server) requestPieceFromPeer(ctx context.Context, peer *Peer) error {
 		}
 		p2p.inflight[index] = peer
 		go func() {
-			defer delete(p2p.inflight, index)
-			if err := p2p.requestPiece(ctx, peer, index); err != nil {
+			err := p2p.requestPiece(ctx, peer, index)
+			p2p.mu.Lock()
+			delete(p2p.inflight, index)
+			p2p.mu.Unlock()
+			if err != nil {
 				slog.Error("requestPieceFromPeer.requestPiece", "err", err)
 				if _, ok := err.(*storage.ChecksumError); ok {
 					if err := p2p.Block(peer); err != nil {
@@ -422,7 +427,10 @@ func (p2p *Server) requestPieceFromPeer(ctx context.Context, peer *Peer) error {
 					}
 				}
 			}
-			p2p.downloadQueue <- peer
+			select {
+			case <-ctx.Done():
+			case p2p.downloadQueue <- peer:
+			}
 		}()
 		return nil
 	}
@@ -431,7 +439,10 @@ func (p2p *Server) requestPieceFromPeer(ctx context.Context, peer *Peer) error {
 		case <-ctx.Done():
 			return
 		case <-time.After(5 * time.Second):
-			p2p.downloadQueue <- peer
+		}
+		select {
+		case <-ctx.Done():
+		case p2p.downloadQueue <- peer:
 		}
 	}()
 	return nil
@@ -464,7 +475,10 @@ func (p2p *Server) queuePeer(peer *Peer) bool {
 		return false
 	}
 	p2p.queuedPeers[peer] = struct{}{}
-	p2p.downloadQueue <- peer
+	select {
+	case <-p2p.ctx.Done():
+	case p2p.downloadQueue <- peer:
+	}
 	return true
 }
 
-- 
2.43.0


From d7939a359f4449607eee9e765dc6950c90691698 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:19:33 +0000
Subject: [PATCH 16/57] fix: pick the rarest piece, not the piece with the
 rarest position

---
 p2p/server.go | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/p2p/server.go b/p2p/server.go
index 617b9bc..3a786f6 100644
--- a/p2p/server.go
+++ b/p2p/server.go
@@ -94,10 +94,10 @@ func (p2p *Server) Start() error {
 	}
 	slog.Info("Start", "network", "tcp", "port", p2p.Port)
 	ctx, cancel := context.WithCancel(context.Background())
-	p2p.ctx = ctx
-	p2p.cancel = cancel
 	defer cancel()
 	eg, ctx := errgroup.WithContext(ctx)
+	p2p.ctx = ctx
+	p2p.cancel = cancel
 	go func() {
 		<-ctx.Done()
 		p2p.Stop()
@@ -403,11 +403,11 @@ func (p2p *Server) requestPieceFromPeer(ctx context.Context, peer *Peer) error {
 		delete(p2p.queuedPeers, peer)
 		return peer.NotInterest()
 	}
+	rand.Shuffle(len(pieces), func(i, j int) {
+		pieces[i], pieces[j] = pieces[j], pieces[i]
+	})
 	sort.Slice(pieces, func(i, j int) bool {
-		if len(p2p.indexToPeers[i]) == len(p2p.indexToPeers[j]) {
-			return rand.Float64() < 0.5
-		}
-		return len(p2p.indexToPeers[i]) < len(p2p.indexToPeers[j])
+		return len(p2p.indexToPeers[pieces[i]]) < len(p2p.indexToPeers[pieces[j]])
 	})
 	for _, index := range pieces {
 		if p2p.inflight[index] != nil {
-- 
2.43.0


From 5da27f4d4cf6f7eff4b57453a9774586c88bab9b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:19:51 +0000
Subject: [PATCH 17/57] fix: do not let a peer that fails take the same piece
 again at once

---
 p2p/server.go | 32 +++++++++++++++++---------------
 1 file changed, 17 insertions(+), 15 deletions(-)

diff --git a/p2p/server.go b/p2p/server.go
index 3a786f6..83821e4 100644
--- a/p2p/server.go
+++ b/p2p/server.go
@@ -426,28 +426,30 @@ func (p2p *Server) requestPieceFromPeer(ctx context.Context, peer *Peer) error {
 						slog.Error("requestPieceFromPeer.Block", "err", err)
 					}
 				}
+				// Leave the piece to another peer first
+				p2p.requeue(ctx, peer, 5*time.Second)
+				return
 			}
-			select {
-			case <-ctx.Done():
-			case p2p.downloadQueue <- peer:
-			}
+			p2p.requeue(ctx, peer, 0)
 		}()
 		return nil
 	}
-	go func() {
-		select {
-		case <-ctx.Done():
-			return
-		case <-time.After(5 * time.Second):
-		}
-		select {
-		case <-ctx.Done():
-		case p2p.downloadQueue <- peer:
-		}
-	}()
+	go p2p.requeue(ctx, peer, 5*time.Second)
 	return nil
 }
 
+func (p2p *Server) requeue(ctx context.Context, peer *Peer, delay time.Duration) {
+	select {
+	case <-ctx.Done():
+		return
+	case <-time.After(delay):
+	}
+	select {
+	case <-ctx.Done():
+	case p2p.downloadQueue <- peer:
+	}
+}
+
 func (p2p *Server) requestPiece(ctx context.Context, p *Peer, i int) error {
 	if err := p.requestPiece(ctx, i); err != nil {
 		return err
-- 
2.43.0


From 06bb599457f8e301ce66834620f417de011ae383 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:20:32 +0000
Subject: [PATCH 18/57] fix: store only blocks that were requested from the
 peer

---
 p2p/peer.go | 36 ++++++++++++++++++++++++++----------
 1 file changed, 26 insertions(+), 10 deletions(-)

diff --git a/p2p/peer.go b/p2p/peer.go
index 2ad3fc4..8d9a316 100644
--- a/p2p/peer.go
+++ b/p2p/peer.go
@@ -114,13 +114,9 @@ func (p *Peer) Receive() (m *peerapi.Message, err error) {
 	}
 	slog.Debug("Receive", "peer", p.IDIP(), "message", m)
 	switch m.Type {
-	case peerapi.PIECE:
-		p.mu.Lock()
-		br := blockRequest{m.Index(), m.Begin(), len(m.Piece())}
-		p.completeRequest(&br, nil)
-		p.mu.Unlock()
 	case peerapi.CHOKE:
 		p.mu.Lock()
+		p.RemoteChoked.Store(true)
 		for br := range p.inflightRequests {
 			p.completeRequest(&br, ErrChoked)
 		}
@@ -268,15 +264,27 @@ func (peer *Peer) HandleCancel(index, begin, length int) {
 }
 
 func (peer *Peer) HandlePiece(index, begin int, data []byte) error {
-	err := peer.server.Storage.PutBlock(index, begin, data)
-	if err != nil && !errors.Is(err, storage.ErrBlockExists) {
-		return err
+	// Take the request, so that it is neither answered twice nor given up
+	// while its block is stored
+	br := blockRequest{index, begin, len(data)}
+	peer.mu.Lock()
+	fut, ok := peer.inflightRequests[br]
+	delete(peer.inflightRequests, br)
+	peer.mu.Unlock()
+	if !ok {
+		slog.Debug("HandlePiece: not requested", "index", index, "begin", begin, "length", len(data))
+		return nil
 	}
+	err := peer.server.Storage.PutBlock(index, begin, data)
 	if err == nil {
 		peer.downloaded.Add(int64(len(data)))
 		peer.server.downloaded.Add(int64(len(data)))
 	}
-	return nil
+	if errors.Is(err, storage.ErrBlockExists) {
+		err = nil
+	}
+	fut.Deliver(err)
+	return err
 }
 
 func (peer *Peer) requestPiece(ctx context.Context, index int) (err error) {
@@ -326,7 +334,15 @@ func (p *Peer) requestBlock(ctx context.Context, br *blockRequest) (err error) {
 	}
 	select {
 	case <-ctx.Done():
-		return ctx.Err()
+		p.mu.Lock()
+		_, ok := p.inflightRequests[*br]
+		delete(p.inflightRequests, *br)
+		p.mu.Unlock()
+		if ok {
+			return ctx.Err()
+		}
+		// Answered, the block is being stored
+		return fut.Wait()
 	case <-fut.Done:
 		return fut.Wait()
 	}
-- 
2.43.0


From f65a3c0e7a01aa7c2385f79a8fb98885c967c6e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:20:47 +0000
Subject: [PATCH 19/57] fix: a cancel does not suppress later requests

---
 p2p/peer.go   | 19 ++++---------------
 p2p/server.go |  1 -
 2 files changed, 4 insertions(+), 16 deletions(-)

diff --git a/p2p/peer.go b/p2p/peer.go
index 8d9a316..6133c41 100644
--- a/p2p/peer.go
+++ b/p2p/peer.go
@@ -34,7 +34,6 @@ type Peer struct {
 	mu sync.Mutex
 	net.Conn
 	inflightRequests map[blockRequest]*future.Future[error]
-	canceledRequests map[blockRequest]struct{}
 }
 
 type blockRequest struct {
@@ -235,19 +234,11 @@ func (peer *Peer) HandleRequest(index, begin, length int) error {
 	if peer.Choked.Load() {
 		return ErrChoked
 	}
-	req := blockRequest{index, begin, length}
-	peer.mu.Lock()
-	if _, ok := peer.canceledRequests[req]; ok {
-		delete(peer.canceledRequests, req)
-		peer.mu.Unlock()
-		return nil
-	}
-	peer.mu.Unlock()
-	data, err := peer.server.Storage.GetBlock(req.index, req.begin, req.length)
+	data, err := peer.server.Storage.GetBlock(index, begin, length)
 	if err != nil {
 		return err
 	}
-	err = peer.Send(peerapi.Piece(req.index, req.begin, data))
+	err = peer.Send(peerapi.Piece(index, begin, data))
 	if err != nil {
 		return err
 	}
@@ -256,11 +247,9 @@ func (peer *Peer) HandleRequest(index, begin, length int) error {
 	return nil
 }
 
+// HandleCancel does nothing: requests are answered in the order they arrive,
+// so a canceled request is answered by the time the cancel is read.
 func (peer *Peer) HandleCancel(index, begin, length int) {
-	peer.mu.Lock()
-	defer peer.mu.Unlock()
-	k := blockRequest{index, begin, length}
-	peer.canceledRequests[k] = struct{}{}
 }
 
 func (peer *Peer) HandlePiece(index, begin int, data []byte) error {
diff --git a/p2p/server.go b/p2p/server.go
index 83821e4..ee6bbaa 100644
--- a/p2p/server.go
+++ b/p2p/server.go
@@ -508,7 +508,6 @@ func (p2p *Server) newPeer(conn net.Conn) *Peer {
 		server:           p2p,
 		Conn:             conn,
 		inflightRequests: make(map[blockRequest]*future.Future[error]),
-		canceledRequests: make(map[blockRequest]struct{}),
 	}
 	peer.RemoteChoked.Store(true)
 	peer.Choked.Store(true)
-- 
2.43.0


From a2609428c1e466aed92ae399eef0fc3629a8216f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:21:09 +0000
Subject: [PATCH 20/57] fix: give up on peers that do not read what is sent to
 them

---
 p2p/peer.go | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/p2p/peer.go b/p2p/peer.go
index 6133c41..cb30f7d 100644
--- a/p2p/peer.go
+++ b/p2p/peer.go
@@ -95,6 +95,10 @@ func (p *Peer) Addr() addr {
 func (p *Peer) Send(m *peerapi.Message) error {
 	p.mu.Lock()
 	defer p.mu.Unlock()
+	return p.send(m)
+}
+
+func (p *Peer) send(m *peerapi.Message) error {
 	if m.Type == peerapi.REQUEST {
 		if p.RemoteChoked.Load() {
 			return ErrChoked
@@ -102,7 +106,13 @@ func (p *Peer) Send(m *peerapi.Message) error {
 		p.SetReadDeadline(time.Now().Add(2 * time.Minute))
 	}
 	slog.Debug("Send", "peer", p.IDIP(), "message", m)
-	return peerapi.Write(p.Conn, m)
+	p.SetWriteDeadline(time.Now().Add(30 * time.Second))
+	if err := peerapi.Write(p.Conn, m); err != nil {
+		// The message may have been cut off
+		p.Close()
+		return err
+	}
+	return nil
 }
 
 func (p *Peer) Receive() (m *peerapi.Message, err error) {
-- 
2.43.0


From e091070c460daaab10ace456507cd8ab5dbedebd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:21:12 +0000
Subject: [PATCH 21/57] fix: declare interest in the order it changes and not
 under the server lock

---
 p2p/peer.go   | 19 +++++++++++++++----
 p2p/server.go | 27 +++++++++++++++++++++++----
 2 files changed, 38 insertions(+), 8 deletions(-)

diff --git a/p2p/peer.go b/p2p/peer.go
index cb30f7d..643b82e 100644
--- a/p2p/peer.go
+++ b/p2p/peer.go
@@ -140,29 +140,37 @@ func (p *Peer) Keepalive() error {
 }
 
 func (p *Peer) Choke() error {
+	p.mu.Lock()
+	defer p.mu.Unlock()
 	if p.Choked.CompareAndSwap(false, true) {
-		return p.Send(peerapi.Choke())
+		return p.send(peerapi.Choke())
 	}
 	return nil
 }
 
 func (p *Peer) Unchoke() error {
+	p.mu.Lock()
+	defer p.mu.Unlock()
 	if p.Choked.CompareAndSwap(true, false) {
-		return p.Send(peerapi.Unchoke())
+		return p.send(peerapi.Unchoke())
 	}
 	return nil
 }
 
 func (p *Peer) Interest() error {
+	p.mu.Lock()
+	defer p.mu.Unlock()
 	if p.Interested.CompareAndSwap(false, true) {
-		return p.Send(peerapi.Interested())
+		return p.send(peerapi.Interested())
 	}
 	return nil
 }
 
 func (p *Peer) NotInterest() error {
+	p.mu.Lock()
+	defer p.mu.Unlock()
 	if p.Interested.CompareAndSwap(true, false) {
-		return p.Send(peerapi.NotInterested())
+		return p.send(peerapi.NotInterested())
 	}
 	return nil
 }
@@ -288,6 +296,9 @@ func (peer *Peer) HandlePiece(index, begin int, data []byte) error {
 
 func (peer *Peer) requestPiece(ctx context.Context, index int) (err error) {
 	slog.Debug("requestPiece", "peer", peer.IDIP(), "index", index)
+	if err := peer.Interest(); err != nil {
+		return err
+	}
 	pieceLength := peer.server.Info.GetPieceLength(index)
 	piece := peer.server.Storage.ResetPiece(index)
 	eg, ctx := errgroup.WithContext(ctx)
diff --git a/p2p/server.go b/p2p/server.go
index ee6bbaa..191add3 100644
--- a/p2p/server.go
+++ b/p2p/server.go
@@ -396,12 +396,12 @@ func (p2p *Server) requestPieceFromPeer(ctx context.Context, peer *Peer) error {
 		delete(p2p.queuedPeers, peer)
 		return nil
 	}
-	bf := p2p.Storage.Torrent.CompletePieces()
-	pieceBf := peer.Bitfield.Difference(bf)
-	pieces := pieceBf.Items()
+	pieces := p2p.missingPieces(peer)
 	if len(pieces) == 0 {
 		delete(p2p.queuedPeers, peer)
-		return peer.NotInterest()
+		// Not with the lock held, the peer may be slow to read
+		go p2p.notInterest(peer)
+		return nil
 	}
 	rand.Shuffle(len(pieces), func(i, j int) {
 		pieces[i], pieces[j] = pieces[j], pieces[i]
@@ -438,6 +438,25 @@ func (p2p *Server) requestPieceFromPeer(ctx context.Context, peer *Peer) error {
 	return nil
 }
 
+// missingPieces lists the pieces that the peer has and we do not.
+func (p2p *Server) missingPieces(peer *Peer) []int {
+	return peer.Bitfield.Difference(p2p.Storage.Torrent.CompletePieces()).Items()
+}
+
+func (p2p *Server) notInterest(peer *Peer) {
+	err := peer.NotInterest()
+	p2p.mu.Lock()
+	missing := len(p2p.missingPieces(peer))
+	p2p.mu.Unlock()
+	if err == nil && missing > 0 {
+		// The peer announced a piece in the meantime
+		err = peer.Interest()
+	}
+	if err != nil {
+		slog.Error("notInterest", "err", err)
+	}
+}
+
 func (p2p *Server) requeue(ctx context.Context, peer *Peer, delay time.Duration) {
 	select {
 	case <-ctx.Done():
-- 
2.43.0


From 2b1265132ce89f01ce68911dc4534c93058c2a7d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:21:34 +0000
Subject: [PATCH 22/57] fix: announce a completed piece to every peer

---
 p2p/server.go | 15 +++++++++------
 1 file changed, 9 insertions(+), 6 deletions(-)

diff --git a/p2p/server.go b/p2p/server.go
index 191add3..6b49a9a 100644
--- a/p2p/server.go
+++ b/p2p/server.go
@@ -470,7 +470,8 @@ func (p2p *Server) requeue(ctx context.Context, peer *Peer, delay time.Duration)
 }
 
 func (p2p *Server) requestPiece(ctx context.Context, p *Peer, i int) error {
-	if err := p.requestPiece(ctx, i); err != nil {
+	err := p.requestPiece(ctx, i)
+	if !p2p.Storage.Torrent.HasPiece(i) {
 		return err
 	}
 	p2p.mu.Lock()
@@ -480,12 +481,14 @@ func (p2p *Server) requestPiece(ctx context.Context, p *Peer, i int) error {
 		if p.Closed.Load() {
 			continue
 		}
-		err := p.Send(peerapi.Have(i))
-		if err != nil {
-			return err
-		}
+		// One peer must not hold up or hide the news from the others
+		go func() {
+			if err := p.Send(peerapi.Have(i)); err != nil {
+				slog.Error("requestPiece.Send", "err", err)
+			}
+		}()
 	}
-	return nil
+	return err
 }
 
 func (p2p *Server) queuePeer(peer *Peer) bool {
-- 
2.43.0


From 10f876dadbb3ac1969ee9043db4ebe80f9b52bf0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:21:38 +0000
Subject: [PATCH 23/57] fix: bound the time to dial a peer, dial IPv6 peers

---
 p2p/server.go | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/p2p/server.go b/p2p/server.go
index 6b49a9a..b76e4bc 100644
--- a/p2p/server.go
+++ b/p2p/server.go
@@ -9,6 +9,7 @@ import (
 	"math/rand"
 	"net"
 	"sort"
+	"strconv"
 	"sync"
 	"sync/atomic"
 	"time"
@@ -357,9 +358,10 @@ func (p2p *Server) Uploaded() int64 {
 	return p2p.uploaded.Load()
 }
 
-func (p2p *Server) dialTCP(peer *tracker.Peer) (*Peer, error) {
+func (p2p *Server) dialTCP(ctx context.Context, peer *tracker.Peer) (*Peer, error) {
 	slog.Debug("dialTCP", "ip", peer.IP, "port", peer.Port)
-	conn, err := net.Dial("tcp", fmt.Sprintf("%s:%d", peer.IP, peer.Port))
+	dialer := net.Dialer{Timeout: 15 * time.Second}
+	conn, err := dialer.DialContext(ctx, "tcp", net.JoinHostPort(peer.IP, strconv.Itoa(peer.Port)))
 	if err != nil {
 		return nil, err
 	}
@@ -379,7 +381,7 @@ func (p2p *Server) dialPeer(ctx context.Context, tp *tracker.Peer) error {
 		return nil
 	}
 	p2p.mu.Unlock()
-	peer, err := p2p.dialTCP(tp)
+	peer, err := p2p.dialTCP(ctx, tp)
 	if err != nil {
 		return err
 	}
@@ -556,5 +558,5 @@ func remoteAddr(tp *tracker.Peer) (addr, error) {
 	if ip == nil {
 		return "", errors.New("p2p: bad ip")
 	}
-	return addr(fmt.Sprintf("%s:%d", ip.String(), tp.Port)), nil
+	return addr(net.JoinHostPort(ip.String(), strconv.Itoa(tp.Port))), nil
 }
-- 
2.43.0


From 3845979aa09c885f024aad80d58e896302b0cdfd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:21:41 +0000
Subject: [PATCH 24/57] fix: contact peers again that were lost

---
 p2p/server.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/p2p/server.go b/p2p/server.go
index b76e4bc..533c0fc 100644
--- a/p2p/server.go
+++ b/p2p/server.go
@@ -375,6 +375,12 @@ func (p2p *Server) dialPeer(ctx context.Context, tp *tracker.Peer) error {
 	if err != nil {
 		return err
 	}
+	// Contact the peer again when it is listed again after this
+	defer func() {
+		p2p.mu.Lock()
+		defer p2p.mu.Unlock()
+		delete(p2p.knownPeers, addr)
+	}()
 	p2p.mu.Lock()
 	if _, ok := p2p.blockedPeers[addr]; ok {
 		p2p.mu.Unlock()
-- 
2.43.0


From 2b7ed9e809ecfdf25296d0cc1d7292525ef6d8b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:22:35 +0000
Subject: [PATCH 25/57] fix: survive trackers that do not answer or answer
 without peers

---
 p2p/multitracker.go | 15 +++++++++++++--
 1 file changed, 13 insertions(+), 2 deletions(-)

diff --git a/p2p/multitracker.go b/p2p/multitracker.go
index f0adc4e..721fc2d 100644
--- a/p2p/multitracker.go
+++ b/p2p/multitracker.go
@@ -8,6 +8,7 @@ import (
 	"net/http"
 	"net/url"
 	"slices"
+	"time"
 
 	"github.com/browles/drip/api/metainfo"
 	trackerapi "github.com/browles/drip/api/tracker"
@@ -58,6 +59,7 @@ func (mt *Multitracker) Announce() (*trackerapi.Response, error) {
 }
 
 func (mt *Multitracker) get(event eventName) (res *trackerapi.Response, err error) {
+	err = errors.New("tracker: no trackers")
 	for _, tier := range mt.TrackerTiers {
 		for j, tracker := range tier {
 			res, err = tracker.get(event)
@@ -72,6 +74,11 @@ func (mt *Multitracker) get(event eventName) (res *trackerapi.Response, err erro
 	return
 }
 
+// A tracker must not hold up the client, whatever it sends or does not send.
+var httpClient = &http.Client{Timeout: 15 * time.Second}
+
+const maxResponseLength = 1 << 20
+
 type Tracker struct {
 	URL    string
 	server *Server
@@ -118,11 +125,12 @@ func (mt *Tracker) get(event eventName) (*trackerapi.Response, error) {
 		return nil, err
 	}
 	url.RawQuery = req.Encode()
-	httpRes, err := http.Get(url.String())
+	httpRes, err := httpClient.Get(url.String())
 	if err != nil {
 		return nil, err
 	}
-	data, err := io.ReadAll(httpRes.Body)
+	defer httpRes.Body.Close()
+	data, err := io.ReadAll(io.LimitReader(httpRes.Body, maxResponseLength))
 	if err != nil {
 		return nil, err
 	}
@@ -133,5 +141,8 @@ func (mt *Tracker) get(event eventName) (*trackerapi.Response, error) {
 	if res.FailureReason != "" {
 		return nil, errors.New("tracker: request failed: " + res.FailureReason)
 	}
+	if res.Peers == nil {
+		res.Peers = &trackerapi.Peers{}
+	}
 	return res, nil
 }
-- 
2.43.0


From cef5a6357528b86c17fe9be32d0fed08fe39d98f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:22:38 +0000
Subject: [PATCH 26/57] fix: announce what is left of multi-file torrents

---
 p2p/multitracker.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/p2p/multitracker.go b/p2p/multitracker.go
index 721fc2d..ed6ace1 100644
--- a/p2p/multitracker.go
+++ b/p2p/multitracker.go
@@ -116,7 +116,7 @@ func (mt *Tracker) get(event eventName) (*trackerapi.Response, error) {
 		Port:       mt.server.Port,
 		Uploaded:   mt.server.Uploaded(),
 		Downloaded: mt.server.Downloaded(),
-		Left:       mt.server.Info.Length - mt.server.Storage.Downloaded(),
+		Left:       mt.server.Info.GetLength() - mt.server.Storage.Downloaded(),
 		Event:      string(event),
 		Compact:    true,
 	}
-- 
2.43.0


From c9d64f57f86e429fbb9631339dc23a98a253113f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:22:42 +0000
Subject: [PATCH 27/57] fix: reject malformed peer lists instead of panicking

---
 api/tracker/tracker.go | 17 ++++++++++++-----
 1 file changed, 12 insertions(+), 5 deletions(-)

diff --git a/api/tracker/tracker.go b/api/tracker/tracker.go
index 364d879..1fef039 100644
--- a/api/tracker/tracker.go
+++ b/api/tracker/tracker.go
@@ -189,11 +189,18 @@ func parseCompactPeers(compact string) ([]*Peer, error) {
 func parsePeers(peerMaps []any) ([]*Peer, error) {
 	var peers []*Peer
 	for _, m := range peerMaps {
-		m := m.(map[string]any)
-		peer := &Peer{
-			ID:   m["peer id"].(string),
-			IP:   m["ip"].(string),
-			Port: m["port"].(int),
+		m, ok := m.(map[string]any)
+		if !ok {
+			return nil, errors.New("peer is not a dictionary")
+		}
+		peer := &Peer{}
+		// Trackers may leave the id out
+		peer.ID, _ = m["peer id"].(string)
+		if peer.IP, ok = m["ip"].(string); !ok {
+			return nil, errors.New("peer has no ip")
+		}
+		if peer.Port, ok = m["port"].(int); !ok {
+			return nil, errors.New("peer has no port")
 		}
 		peers = append(peers, peer)
 	}
-- 
2.43.0


From b1cd6158e9c6ff62b7ae86c7a41f0b5b1b8962ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:23:34 +0000
Subject: [PATCH 28/57] fix: stop once, promptly and completely, and not
 because an announce failed

---
 p2p/multitracker.go | 17 ++++++++++
 p2p/server.go       | 81 ++++++++++++++++++++++++++++++++++-----------
 2 files changed, 79 insertions(+), 19 deletions(-)

diff --git a/p2p/multitracker.go b/p2p/multitracker.go
index ed6ace1..4e53427 100644
--- a/p2p/multitracker.go
+++ b/p2p/multitracker.go
@@ -8,6 +8,7 @@ import (
 	"net/http"
 	"net/url"
 	"slices"
+	"sync"
 	"time"
 
 	"github.com/browles/drip/api/metainfo"
@@ -18,6 +19,9 @@ import (
 // https://www.bittorrent.org/beps/bep_0012.html
 type Multitracker struct {
 	TrackerTiers [][]*Tracker
+
+	mu      sync.Mutex
+	stopped bool
 }
 
 func NewMultitracker(mi *metainfo.Metainfo, s *Server) *Multitracker {
@@ -58,7 +62,20 @@ func (mt *Multitracker) Announce() (*trackerapi.Response, error) {
 	return mt.get(ANNOUNCE)
 }
 
+// reset allows announces again after Stop.
+func (mt *Multitracker) reset() {
+	mt.mu.Lock()
+	defer mt.mu.Unlock()
+	mt.stopped = false
+}
+
 func (mt *Multitracker) get(event eventName) (res *trackerapi.Response, err error) {
+	mt.mu.Lock()
+	defer mt.mu.Unlock()
+	if mt.stopped {
+		return nil, errors.New("tracker: stopped")
+	}
+	mt.stopped = event == STOPPED
 	err = errors.New("tracker: no trackers")
 	for _, tier := range mt.TrackerTiers {
 		for j, tracker := range tier {
diff --git a/p2p/server.go b/p2p/server.go
index 533c0fc..f3aa3c3 100644
--- a/p2p/server.go
+++ b/p2p/server.go
@@ -35,7 +35,8 @@ type Server struct {
 	downloadQueue chan *Peer
 	tcp           net.Listener
 	ctx           context.Context
-	cancel        context.CancelFunc
+	stop          func() error
+	announced     atomic.Bool
 	uploaded      atomic.Int64
 	downloaded    atomic.Int64
 
@@ -89,7 +90,7 @@ func (p2p *Server) Start() error {
 	if err != nil {
 		return err
 	}
-	p2p.tcp, err = net.Listen("tcp", fmt.Sprintf(":%d", p2p.Port))
+	tcp, err := net.Listen("tcp", fmt.Sprintf(":%d", p2p.Port))
 	if err != nil {
 		return err
 	}
@@ -97,27 +98,38 @@ func (p2p *Server) Start() error {
 	ctx, cancel := context.WithCancel(context.Background())
 	defer cancel()
 	eg, ctx := errgroup.WithContext(ctx)
+	stop := sync.OnceValue(func() error { return p2p.shutdown(cancel, tcp) })
+	p2p.Tracker.reset()
+	p2p.announced.Store(false)
+	p2p.mu.Lock()
+	p2p.tcp = tcp
 	p2p.ctx = ctx
-	p2p.cancel = cancel
+	p2p.stop = stop
+	p2p.mu.Unlock()
 	go func() {
 		<-ctx.Done()
-		p2p.Stop()
+		stop()
 	}()
 	eg.Go(func() error { return p2p.Serve(ctx) })
 	eg.Go(func() error { return p2p.RequestPieces(ctx) })
 	eg.Go(func() error { return p2p.DialPeers(ctx) })
 	eg.Go(func() error { return p2p.every(ctx, p2p.UnchokePeers, 10*time.Second) })
+	interval := defaultInterval
 	res, err := p2p.Tracker.Start()
 	if err != nil {
-		return err
-	}
-	for _, p := range res.Peers.List {
-		err := p2p.AddPeer(p)
-		if err != nil {
-			slog.Error("Start.AddPeer", "err", err)
+		// Announce tries again
+		slog.Error("Start", "err", err)
+	} else {
+		p2p.announced.Store(true)
+		interval = announceInterval(res.Interval)
+		for _, p := range res.Peers.List {
+			err := p2p.AddPeer(p)
+			if err != nil {
+				slog.Error("Start.AddPeer", "err", err)
+			}
 		}
 	}
-	eg.Go(func() error { return p2p.every(ctx, p2p.Announce, time.Duration(res.Interval)*time.Second) })
+	eg.Go(func() error { return p2p.every(ctx, p2p.Announce, interval) })
 	if err := p2p.UnchokePeers(ctx); err != nil {
 		return err
 	}
@@ -126,18 +138,26 @@ func (p2p *Server) Start() error {
 
 func (p2p *Server) Stop() error {
 	p2p.mu.Lock()
-	defer p2p.mu.Unlock()
-	if p2p.cancel == nil {
+	stop := p2p.stop
+	p2p.mu.Unlock()
+	if stop == nil {
 		return errors.New("p2p: server not started")
 	}
-	p2p.cancel()
-	p2p.tcp.Close()
+	return stop()
+}
+
+func (p2p *Server) shutdown(cancel context.CancelFunc, tcp net.Listener) error {
+	p2p.mu.Lock()
+	cancel()
+	tcp.Close()
 	var errs []error
-	_, err := p2p.Tracker.Stop()
-	errs = append(errs, err)
 	for _, p := range p2p.activePeers {
 		errs = append(errs, p2p.disconnect(p))
 	}
+	p2p.mu.Unlock()
+	// Not with the lock held, trackers may be slow
+	_, err := p2p.Tracker.Stop()
+	errs = append(errs, err)
 	return errors.Join(errs...)
 }
 
@@ -229,10 +249,17 @@ func (p2p *Server) UnchokePeers(ctx context.Context) error {
 }
 
 func (p2p *Server) Announce(ctx context.Context) error {
-	res, err := p2p.Tracker.Announce()
+	announce := p2p.Tracker.Announce
+	if !p2p.announced.Load() {
+		announce = p2p.Tracker.Start
+	}
+	res, err := announce()
 	if err != nil {
-		return err
+		// Not a reason to stop, try again later
+		slog.Error("Announce", "err", err)
+		return nil
 	}
+	p2p.announced.Store(true)
 	slog.Debug("Announce", "num_peers", len(res.Peers.List))
 	for _, tp := range res.Peers.List {
 		err := p2p.AddPeer(tp)
@@ -280,6 +307,9 @@ func (p2p *Server) Connect(peer *Peer) error {
 	}
 	p2p.mu.Lock()
 	defer p2p.mu.Unlock()
+	if err := p2p.ctx.Err(); err != nil {
+		return err
+	}
 	if len(p2p.activePeers) >= 50 {
 		return ErrTooManyConnections
 	}
@@ -559,6 +589,19 @@ func (p2p *Server) every(ctx context.Context, f func(ctx context.Context) error,
 	}
 }
 
+const (
+	defaultInterval = 30 * time.Second
+	maxInterval     = time.Hour
+)
+
+// announceInterval makes sense of the interval a tracker asks for.
+func announceInterval(seconds int) time.Duration {
+	if seconds <= 0 {
+		return defaultInterval
+	}
+	return time.Duration(min(seconds, int(maxInterval/time.Second))) * time.Second
+}
+
 func remoteAddr(tp *tracker.Peer) (addr, error) {
 	ip := net.ParseIP(tp.IP)
 	if ip == nil {
-- 
2.43.0


From d853fc690cd0b1f23cd98309d0db40918b647e36 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:48:16 +0000
Subject: [PATCH 29/57] fix: bencode string lengths that are negative or not
 backed by data

---
 bencode/decode.go | 31 +++++++++++++++++++++++--------
 1 file changed, 23 insertions(+), 8 deletions(-)

diff --git a/bencode/decode.go b/bencode/decode.go
index 98dbaa3..a2c0b4c 100644
--- a/bencode/decode.go
+++ b/bencode/decode.go
@@ -133,13 +133,15 @@ func (d *Decoder) consumeString(buf *bytes.Buffer) (string, error) {
 	if err != nil {
 		return "", d.newSyntaxError("consumeString: %w", err)
 	}
+	if length < 0 {
+		return "", d.newSyntaxError("consumeString: negative length: %d", length)
+	}
 	d.offset += len(lengthStr) + 1
-	bytes := make([]byte, length)
-	n, err := io.ReadFull(d, bytes)
+	bytes, err := d.readBytes(length)
 	if err != nil {
-		return "", d.newSyntaxError("consumeString: unexpected string eof: %d < %d: %w", n, length, err)
+		return "", d.newSyntaxError("consumeString: unexpected string eof: %d < %d: %w", len(bytes), length, err)
 	}
-	d.offset += n
+	d.offset += len(bytes)
 	if buf != nil {
 		buf.Write([]byte(lengthStr))
 		buf.WriteByte(':')
@@ -148,6 +150,17 @@ func (d *Decoder) consumeString(buf *bytes.Buffer) (string, error) {
 	return string(bytes), nil
 }
 
+// readBytes reads n bytes. The length is only a claim, so memory is allocated
+// as the bytes arrive.
+func (d *Decoder) readBytes(n int) ([]byte, error) {
+	buf := bytes.NewBuffer(make([]byte, 0, min(n, bytes.MinRead)))
+	m, err := io.CopyN(buf, d, int64(n))
+	if err == io.EOF && m > 0 {
+		err = io.ErrUnexpectedEOF
+	}
+	return buf.Bytes(), err
+}
+
 func (d *Decoder) consumeInt(buf *bytes.Buffer) error {
 	b, err := d.ReadByte()
 	if err != nil {
@@ -265,13 +278,15 @@ func (d *Decoder) decodeString(v reflect.Value) error {
 	if err != nil {
 		return d.newSyntaxError("decodeString: %w", err)
 	}
+	if length < 0 {
+		return d.newSyntaxError("decodeString: negative length: %d", length)
+	}
 	d.offset += len(lengthStr)
-	bytes := make([]byte, length)
-	n, err := io.ReadFull(d, bytes)
+	bytes, err := d.readBytes(length)
 	if err != nil {
-		return d.newSyntaxError("decodeString: unexpected string eof: %d < %d: %w", n, length, err)
+		return d.newSyntaxError("decodeString: unexpected string eof: %d < %d: %w", len(bytes), length, err)
 	}
-	d.offset += n
+	d.offset += len(bytes)
 	if v.Kind() == reflect.Slice {
 		v.SetBytes(bytes)
 	} else {
-- 
2.43.0


From 29679aae3bdba2c63413c32328c4a3f61924dee2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:49:43 +0000
Subject: [PATCH 30/57] fix: deeply nested bencode exhausts the stack

---
 bencode/decode.go | 25 +++++++++++++++++++++++++
 1 file changed, 25 insertions(+)

diff --git a/bencode/decode.go b/bencode/decode.go
index a2c0b4c..74d1836 100644
--- a/bencode/decode.go
+++ b/bencode/decode.go
@@ -19,6 +19,23 @@ func Unmarshal(b []byte, v any) error {
 type Decoder struct {
 	*bufio.Reader
 	offset int
+	depth  int
+}
+
+// Values nested deeper than this are refused, so that a short document cannot
+// exhaust the stack.
+const maxDepth = 10_000
+
+func (d *Decoder) enter() error {
+	if d.depth >= maxDepth {
+		return d.newSyntaxError("nested too deeply")
+	}
+	d.depth++
+	return nil
+}
+
+func (d *Decoder) leave() {
+	d.depth--
 }
 
 func NewDecoder(r io.Reader) *Decoder {
@@ -50,6 +67,10 @@ func (d *Decoder) newSyntaxError(t string, args ...any) error {
 var unmarshalerType = reflect.TypeFor[Unmarshaler]()
 
 func (d *Decoder) decode(v reflect.Value) error {
+	if err := d.enter(); err != nil {
+		return err
+	}
+	defer d.leave()
 	if v.Kind() != reflect.Pointer && reflect.PointerTo(v.Type()).Implements(unmarshalerType) && v.CanAddr() {
 		return d.decodeUnmarshaler(v.Addr())
 	}
@@ -100,6 +121,10 @@ func isDigit(b byte) bool {
 }
 
 func (d *Decoder) consume(buf *bytes.Buffer) error {
+	if err := d.enter(); err != nil {
+		return err
+	}
+	defer d.leave()
 	b, err := d.ReadByte()
 	if err != nil {
 		return err
-- 
2.43.0


From 9922be09b990abac40c2b0ef5ebf9044e289d521 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:50:06 +0000
Subject: [PATCH 31/57] fix: a failed accept does not end the client

---
 p2p/server.go | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/p2p/server.go b/p2p/server.go
index f3aa3c3..09c02ad 100644
--- a/p2p/server.go
+++ b/p2p/server.go
@@ -170,7 +170,17 @@ func (p2p *Server) Serve(ctx context.Context) error {
 		}
 		conn, err := p2p.tcp.Accept()
 		if err != nil {
-			return err
+			if errors.Is(err, net.ErrClosed) {
+				return err
+			}
+			// Out of files or memory, or a connection that is gone already
+			slog.Error("Serve.Accept", "err", err)
+			select {
+			case <-ctx.Done():
+				return ctx.Err()
+			case <-time.After(time.Second):
+			}
+			continue
 		}
 		select {
 		case p2p.peerSemaphore <- struct{}{}:
-- 
2.43.0


From 753b77e48730bcf81721d7ef33f141a58f8deab2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:50:09 +0000
Subject: [PATCH 32/57] fix: do not request the rest of a piece that was given
 up

---
 p2p/peer.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/p2p/peer.go b/p2p/peer.go
index 643b82e..9f5cd48 100644
--- a/p2p/peer.go
+++ b/p2p/peer.go
@@ -323,6 +323,10 @@ func (peer *Peer) requestPiece(ctx context.Context, index int) (err error) {
 }
 
 func (p *Peer) requestBlock(ctx context.Context, br *blockRequest) (err error) {
+	if err := ctx.Err(); err != nil {
+		// The piece was given up already
+		return err
+	}
 	if p.RemoteChoked.Load() {
 		return ErrChoked
 	}
-- 
2.43.0


From b8d1ba39aab227f0f4367899e7f72c9415486afa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:52:32 +0000
Subject: [PATCH 33/57] fix: requests do not keep the connection of a silent
 peer open

---
 p2p/peer.go | 1 -
 1 file changed, 1 deletion(-)

diff --git a/p2p/peer.go b/p2p/peer.go
index 9f5cd48..1777a65 100644
--- a/p2p/peer.go
+++ b/p2p/peer.go
@@ -103,7 +103,6 @@ func (p *Peer) send(m *peerapi.Message) error {
 		if p.RemoteChoked.Load() {
 			return ErrChoked
 		}
-		p.SetReadDeadline(time.Now().Add(2 * time.Minute))
 	}
 	slog.Debug("Send", "peer", p.IDIP(), "message", m)
 	p.SetWriteDeadline(time.Now().Add(30 * time.Second))
-- 
2.43.0


From 663217b1c524e963741013cb63452f395e3f7648 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:58:30 +0000
Subject: [PATCH 34/57] fix: declare interest before every request

---
 p2p/peer.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/p2p/peer.go b/p2p/peer.go
index 1777a65..0cb608c 100644
--- a/p2p/peer.go
+++ b/p2p/peer.go
@@ -103,6 +103,12 @@ func (p *Peer) send(m *peerapi.Message) error {
 		if p.RemoteChoked.Load() {
 			return ErrChoked
 		}
+		// Interest may have been withdrawn in the meantime
+		if p.Interested.CompareAndSwap(false, true) {
+			if err := p.send(peerapi.Interested()); err != nil {
+				return err
+			}
+		}
 	}
 	slog.Debug("Send", "peer", p.IDIP(), "message", m)
 	p.SetWriteDeadline(time.Now().Add(30 * time.Second))
-- 
2.43.0


From 661faf622687fab4d4d885216e2fbdf4b7818b37 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:03:27 +0000
Subject: [PATCH 35/57] fix: do not announce stopped when nothing was announced
 before

---
 p2p/multitracker.go | 14 ++++++++++++++
 p2p/server.go       |  6 ++++--
 2 files changed, 18 insertions(+), 2 deletions(-)

diff --git a/p2p/multitracker.go b/p2p/multitracker.go
index 4e53427..fc13ad1 100644
--- a/p2p/multitracker.go
+++ b/p2p/multitracker.go
@@ -21,6 +21,7 @@ type Multitracker struct {
 	TrackerTiers [][]*Tracker
 
 	mu      sync.Mutex
+	started bool // started was announced, or at least tried
 	stopped bool
 }
 
@@ -66,15 +67,28 @@ func (mt *Multitracker) Announce() (*trackerapi.Response, error) {
 func (mt *Multitracker) reset() {
 	mt.mu.Lock()
 	defer mt.mu.Unlock()
+	mt.started = false
 	mt.stopped = false
 }
 
+// cancel prevents announces if nothing has been announced yet.
+func (mt *Multitracker) cancel() bool {
+	mt.mu.Lock()
+	defer mt.mu.Unlock()
+	if mt.started {
+		return false
+	}
+	mt.stopped = true
+	return true
+}
+
 func (mt *Multitracker) get(event eventName) (res *trackerapi.Response, err error) {
 	mt.mu.Lock()
 	defer mt.mu.Unlock()
 	if mt.stopped {
 		return nil, errors.New("tracker: stopped")
 	}
+	mt.started = true
 	mt.stopped = event == STOPPED
 	err = errors.New("tracker: no trackers")
 	for _, tier := range mt.TrackerTiers {
diff --git a/p2p/server.go b/p2p/server.go
index 09c02ad..7a35571 100644
--- a/p2p/server.go
+++ b/p2p/server.go
@@ -156,8 +156,10 @@ func (p2p *Server) shutdown(cancel context.CancelFunc, tcp net.Listener) error {
 	}
 	p2p.mu.Unlock()
 	// Not with the lock held, trackers may be slow
-	_, err := p2p.Tracker.Stop()
-	errs = append(errs, err)
+	if !p2p.Tracker.cancel() {
+		_, err := p2p.Tracker.Stop()
+		errs = append(errs, err)
+	}
 	return errors.Join(errs...)
 }
 
-- 
2.43.0


From 78976e85f0ef86140c51712c69078fc09620aa18 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:03:44 +0000
Subject: [PATCH 36/57] fix: stopping waits for the peers that write to the
 storage

---
 p2p/peer.go   |  1 +
 p2p/server.go | 34 ++++++++++++++++++++++++++++------
 2 files changed, 29 insertions(+), 6 deletions(-)

diff --git a/p2p/peer.go b/p2p/peer.go
index 0cb608c..0285926 100644
--- a/p2p/peer.go
+++ b/p2p/peer.go
@@ -181,6 +181,7 @@ func (p *Peer) NotInterest() error {
 }
 
 func (peer *Peer) serve(ctx context.Context) {
+	defer context.AfterFunc(ctx, func() { peer.Close() })()
 	if err := peer.server.Connect(peer); err != nil {
 		peer.Close()
 		if !errors.Is(err, ErrAlreadyConnected) {
diff --git a/p2p/server.go b/p2p/server.go
index 7a35571..d84cc59 100644
--- a/p2p/server.go
+++ b/p2p/server.go
@@ -30,6 +30,7 @@ type Server struct {
 	Port    int
 	Tracker *Multitracker
 
+	peers         sync.WaitGroup
 	peerSemaphore chan struct{}
 	newPeerQueue  chan *tracker.Peer
 	downloadQueue chan *Peer
@@ -155,6 +156,8 @@ func (p2p *Server) shutdown(cancel context.CancelFunc, tcp net.Listener) error {
 		errs = append(errs, p2p.disconnect(p))
 	}
 	p2p.mu.Unlock()
+	// Peers may be writing to the storage
+	p2p.peers.Wait()
 	// Not with the lock held, trackers may be slow
 	if !p2p.Tracker.cancel() {
 		_, err := p2p.Tracker.Stop()
@@ -190,18 +193,38 @@ func (p2p *Server) Serve(ctx context.Context) error {
 			conn.Close()
 			continue
 		}
-		go func() {
-			defer func() { <-p2p.peerSemaphore }()
+		ok := p2p.goPeer(ctx, func() {
 			slog.Debug("Serve.Accept", "conn", conn.RemoteAddr())
 			peer := p2p.newPeer(conn)
 			ctx, cancel := context.WithCancel(ctx)
 			peer.cancel = cancel
 			slog.Info("Serve", "peer", peer.Addr())
 			peer.serve(ctx)
-		}()
+		})
+		if !ok {
+			conn.Close()
+		}
 	}
 }
 
+// goPeer runs f, which serves a peer, unless the server is stopped. The caller
+// has acquired peerSemaphore.
+func (p2p *Server) goPeer(ctx context.Context, f func()) bool {
+	p2p.mu.Lock()
+	defer p2p.mu.Unlock()
+	if ctx.Err() != nil {
+		<-p2p.peerSemaphore
+		return false
+	}
+	p2p.peers.Add(1)
+	go func() {
+		defer p2p.peers.Done()
+		defer func() { <-p2p.peerSemaphore }()
+		f()
+	}()
+	return true
+}
+
 func (p2p *Server) DialPeers(ctx context.Context) error {
 	for {
 		select {
@@ -213,12 +236,11 @@ func (p2p *Server) DialPeers(ctx context.Context) error {
 				return ctx.Err()
 			case p2p.peerSemaphore <- struct{}{}:
 			}
-			go func() {
-				defer func() { <-p2p.peerSemaphore }()
+			p2p.goPeer(ctx, func() {
 				if err := p2p.dialPeer(ctx, tp); err != nil {
 					slog.Error("DialPeers.dialPeer", "err", err)
 				}
-			}()
+			})
 		}
 	}
 }
-- 
2.43.0


From b7be8bb8009cf12f6873a7809dd783d55f7a2e72 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:19:20 +0000
Subject: [PATCH 37/57] fix: the tracker refuses ports outside 1-65535

---
 pex/http.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pex/http.go b/pex/http.go
index 5051d25..ffb4306 100644
--- a/pex/http.go
+++ b/pex/http.go
@@ -102,7 +102,7 @@ func (t *HTTP) ServeHTTP(rw http.ResponseWriter, req *http.Request) {
 		fail(errors.New("bad ip"))
 		return
 	}
-	if r.Port == 0 {
+	if r.Port < 1 || r.Port > 65535 {
 		fail(errors.New("bad port"))
 		return
 	}
-- 
2.43.0


From 781b996b60a4900642f2cdf84b6db1be6a4797c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:19:29 +0000
Subject: [PATCH 38/57] fix: the tracker compares canonical addresses

---
 pex/http.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pex/http.go b/pex/http.go
index ffb4306..8791f38 100644
--- a/pex/http.go
+++ b/pex/http.go
@@ -114,7 +114,7 @@ func (t *HTTP) ServeHTTP(rw http.ResponseWriter, req *http.Request) {
 		peer = &Peer{
 			tp: &trackerapi.Peer{
 				ID:   string(r.PeerID[:]),
-				IP:   ip,
+				IP:   netIP.String(),
 				Port: r.Port,
 			},
 		}
-- 
2.43.0


From 5efb5d4585f721cf66b7282f23b0b7ba135b4b42 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:19:38 +0000
Subject: [PATCH 39/57] fix: the tracker lists a peer with its latest id

---
 pex/http.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pex/http.go b/pex/http.go
index 8791f38..baae3f7 100644
--- a/pex/http.go
+++ b/pex/http.go
@@ -113,13 +113,13 @@ func (t *HTTP) ServeHTTP(rw http.ResponseWriter, req *http.Request) {
 	if !ok {
 		peer = &Peer{
 			tp: &trackerapi.Peer{
-				ID:   string(r.PeerID[:]),
 				IP:   netIP.String(),
 				Port: r.Port,
 			},
 		}
 		torrent.Peers[addr] = peer
 	}
+	peer.tp.ID = string(r.PeerID[:])
 	peer.UpdatedAt = time.Now()
 	peer.LastEvent = r.Event
 	peers := &trackerapi.Peers{Compact: r.Compact}
-- 
2.43.0


From 39e43dd9468c2135f1e036659fe20447f95f977e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:19:47 +0000
Subject: [PATCH 40/57] fix: an IPv6 peer broke every compact answer of the
 tracker

---
 pex/http.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/pex/http.go b/pex/http.go
index baae3f7..140f00f 100644
--- a/pex/http.go
+++ b/pex/http.go
@@ -127,6 +127,10 @@ func (t *HTTP) ServeHTTP(rw http.ResponseWriter, req *http.Request) {
 		if p.LastEvent == "stopped" || time.Since(p.UpdatedAt) > time.Minute {
 			continue
 		}
+		if r.Compact && net.ParseIP(p.tp.IP).To4() == nil {
+			// The compact format has no room for IPv6
+			continue
+		}
 		paddr := fmt.Sprintf("%s:%d", p.tp.IP, p.tp.Port)
 		if paddr != addr {
 			peers.List = append(peers.List, p.tp)
-- 
2.43.0


From 41cd1e6e7ba09525a13a37ec982490973b682ec0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:19:56 +0000
Subject: [PATCH 41/57] fix: an empty peer list made the tracker's answer
 malformed

---
 api/tracker/tracker.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/api/tracker/tracker.go b/api/tracker/tracker.go
index 1fef039..cb9d775 100644
--- a/api/tracker/tracker.go
+++ b/api/tracker/tracker.go
@@ -130,6 +130,10 @@ func (p *Peers) MarshalBencoding() ([]byte, error) {
 		}
 		return bencode.Marshal(compact)
 	}
+	if p.List == nil {
+		// A nil slice would be left out
+		return bencode.Marshal([]*Peer{})
+	}
 	return bencode.Marshal(p.List)
 }
 
-- 
2.43.0


From 4b73cda15bd51a7ec2202dba577374e9c9565613 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:31:30 +0000
Subject: [PATCH 42/57] fix: allocate nil pointers when decoding instead of
 panicking

---
 bencode/decode.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/bencode/decode.go b/bencode/decode.go
index 74d1836..df0448b 100644
--- a/bencode/decode.go
+++ b/bencode/decode.go
@@ -71,6 +71,12 @@ func (d *Decoder) decode(v reflect.Value) error {
 		return err
 	}
 	defer d.leave()
+	if v.Kind() == reflect.Pointer && v.IsNil() {
+		if !v.CanSet() {
+			return errors.New("bencode: must decode into non-nil pointer")
+		}
+		v.Set(reflect.New(v.Type().Elem()))
+	}
 	if v.Kind() != reflect.Pointer && reflect.PointerTo(v.Type()).Implements(unmarshalerType) && v.CanAddr() {
 		return d.decodeUnmarshaler(v.Addr())
 	}
-- 
2.43.0


From 417dd5ca7b0a888920b414ef2c5f2f2a1c835dfa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:32:01 +0000
Subject: [PATCH 43/57] fix: replace what an interface holds when decoding into
 it again

---
 bencode/decode.go | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/bencode/decode.go b/bencode/decode.go
index df0448b..ccd926f 100644
--- a/bencode/decode.go
+++ b/bencode/decode.go
@@ -556,8 +556,9 @@ func (d *Decoder) decodeStruct(v reflect.Value) error {
 }
 
 func (d *Decoder) decodeInterface(v reflect.Value) error {
-	if !v.IsNil() {
-		return d.decode(v.Elem())
+	elem := v.Elem()
+	if elem.CanSet() || elem.Kind() == reflect.Pointer && !elem.IsNil() {
+		return d.decode(elem)
 	} else if v.NumMethod() != 0 {
 		// Can only decode into an any.
 		return &UnsupportedTypeError{v.Type()}
-- 
2.43.0


From 8ead6f93f33cde4553da354b4e721023d5d9784d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:32:06 +0000
Subject: [PATCH 44/57] fix: a shorter list does not keep the rest of the list
 decoded before

---
 bencode/decode.go | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/bencode/decode.go b/bencode/decode.go
index ccd926f..3c2706a 100644
--- a/bencode/decode.go
+++ b/bencode/decode.go
@@ -441,6 +441,13 @@ func (d *Decoder) decodeSlice(v reflect.Value) error {
 		i++
 	}
 	d.offset += 1
+	if v.Kind() == reflect.Slice {
+		v.SetLen(i)
+	} else {
+		for ; i < v.Len(); i++ {
+			v.Index(i).SetZero()
+		}
+	}
 	return nil
 }
 
-- 
2.43.0


From 9d94886b5cfff0de0225675bb262166415bcb546 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:41 +0000
Subject: [PATCH 45/57] fix: a raw message that is not addressable is encoded
 as it is

---
 bencode/raw_message.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/bencode/raw_message.go b/bencode/raw_message.go
index 2e9406a..096cff3 100644
--- a/bencode/raw_message.go
+++ b/bencode/raw_message.go
@@ -2,8 +2,8 @@ package bencode
 
 type RawMessage []byte
 
-func (r *RawMessage) MarshalBencoding() ([]byte, error) {
-	return []byte(*r), nil
+func (r RawMessage) MarshalBencoding() ([]byte, error) {
+	return []byte(r), nil
 }
 
 func (r *RawMessage) UnmarshalBencoding(data []byte) error {
-- 
2.43.0


From 42b0b9ebdf49bb3eec8f471123b5b90b8eb39798 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:00:36 +0000
Subject: [PATCH 46/57] fix: peers that do not answer leave room for those that
 connect

---
 p2p/peer.go   |  5 ++++-
 p2p/server.go | 24 +++++++++++++++++++-----
 2 files changed, 23 insertions(+), 6 deletions(-)

diff --git a/p2p/peer.go b/p2p/peer.go
index 0285926..431d0e4 100644
--- a/p2p/peer.go
+++ b/p2p/peer.go
@@ -180,7 +180,7 @@ func (p *Peer) NotInterest() error {
 	return nil
 }
 
-func (peer *Peer) serve(ctx context.Context) {
+func (peer *Peer) serve(ctx context.Context, connected func()) {
 	defer context.AfterFunc(ctx, func() { peer.Close() })()
 	if err := peer.server.Connect(peer); err != nil {
 		peer.Close()
@@ -189,6 +189,9 @@ func (peer *Peer) serve(ctx context.Context) {
 		}
 		return
 	}
+	if connected != nil {
+		connected()
+	}
 	defer func() {
 		if err := peer.server.Disconnect(peer); err != nil {
 			slog.Error("serve.Disconnect", "err", err)
diff --git a/p2p/server.go b/p2p/server.go
index d84cc59..71b0f8f 100644
--- a/p2p/server.go
+++ b/p2p/server.go
@@ -32,6 +32,7 @@ type Server struct {
 
 	peers         sync.WaitGroup
 	peerSemaphore chan struct{}
+	dialSemaphore chan struct{}
 	newPeerQueue  chan *tracker.Peer
 	downloadQueue chan *Peer
 	tcp           net.Listener
@@ -70,6 +71,7 @@ func New(mi *metainfo.Metainfo, peerID [20]byte, storage *storage.Storage, port
 		Port:    port,
 
 		peerSemaphore: make(chan struct{}, 50),
+		dialSemaphore: make(chan struct{}, 25),
 		newPeerQueue:  make(chan *tracker.Peer, 50),
 		downloadQueue: make(chan *Peer),
 
@@ -199,7 +201,7 @@ func (p2p *Server) Serve(ctx context.Context) error {
 			ctx, cancel := context.WithCancel(ctx)
 			peer.cancel = cancel
 			slog.Info("Serve", "peer", peer.Addr())
-			peer.serve(ctx)
+			peer.serve(ctx, nil)
 		})
 		if !ok {
 			conn.Close()
@@ -231,16 +233,28 @@ func (p2p *Server) DialPeers(ctx context.Context) error {
 		case <-ctx.Done():
 			return ctx.Err()
 		case tp := <-p2p.newPeerQueue:
+			// Peers that do not answer leave room for those that connect
 			select {
 			case <-ctx.Done():
 				return ctx.Err()
+			case p2p.dialSemaphore <- struct{}{}:
+			}
+			release := sync.OnceFunc(func() { <-p2p.dialSemaphore })
+			select {
+			case <-ctx.Done():
+				release()
+				return ctx.Err()
 			case p2p.peerSemaphore <- struct{}{}:
 			}
-			p2p.goPeer(ctx, func() {
-				if err := p2p.dialPeer(ctx, tp); err != nil {
+			ok := p2p.goPeer(ctx, func() {
+				defer release()
+				if err := p2p.dialPeer(ctx, tp, release); err != nil {
 					slog.Error("DialPeers.dialPeer", "err", err)
 				}
 			})
+			if !ok {
+				release()
+			}
 		}
 	}
 }
@@ -434,7 +448,7 @@ func (p2p *Server) dialTCP(ctx context.Context, peer *tracker.Peer) (*Peer, erro
 	return p, nil
 }
 
-func (p2p *Server) dialPeer(ctx context.Context, tp *tracker.Peer) error {
+func (p2p *Server) dialPeer(ctx context.Context, tp *tracker.Peer, connected func()) error {
 	addr, err := remoteAddr(tp)
 	if err != nil {
 		return err
@@ -457,7 +471,7 @@ func (p2p *Server) dialPeer(ctx context.Context, tp *tracker.Peer) error {
 	}
 	ctx, cancel := context.WithCancel(ctx)
 	peer.cancel = cancel
-	peer.serve(ctx)
+	peer.serve(ctx, connected)
 	return nil
 }
 
-- 
2.43.0


From 9f7db2b6dfcdfe1d33475d35bf16f4b738e75b55 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:01:50 +0000
Subject: [PATCH 47/57] fix: peers at the end of a tracker's long list have
 their turn

---
 p2p/server.go | 24 ++++++++++++------------
 1 file changed, 12 insertions(+), 12 deletions(-)

diff --git a/p2p/server.go b/p2p/server.go
index 71b0f8f..cfe8d0c 100644
--- a/p2p/server.go
+++ b/p2p/server.go
@@ -125,12 +125,7 @@ func (p2p *Server) Start() error {
 	} else {
 		p2p.announced.Store(true)
 		interval = announceInterval(res.Interval)
-		for _, p := range res.Peers.List {
-			err := p2p.AddPeer(p)
-			if err != nil {
-				slog.Error("Start.AddPeer", "err", err)
-			}
-		}
+		p2p.addPeers(res.Peers.List)
 	}
 	eg.Go(func() error { return p2p.every(ctx, p2p.Announce, interval) })
 	if err := p2p.UnchokePeers(ctx); err != nil {
@@ -309,12 +304,7 @@ func (p2p *Server) Announce(ctx context.Context) error {
 	}
 	p2p.announced.Store(true)
 	slog.Debug("Announce", "num_peers", len(res.Peers.List))
-	for _, tp := range res.Peers.List {
-		err := p2p.AddPeer(tp)
-		if err != nil {
-			slog.Error("Announce.AddPeer", "err", err)
-		}
-	}
+	p2p.addPeers(res.Peers.List)
 	return nil
 }
 
@@ -324,6 +314,16 @@ func (p2p *Server) QueuePeer(peer *Peer) bool {
 	return p2p.queuePeer(peer)
 }
 
+// addPeers adds peers in random order: not all of a long list are queued, and
+// those at its end have to have their turn.
+func (p2p *Server) addPeers(peers []*tracker.Peer) {
+	for _, i := range rand.Perm(len(peers)) {
+		if err := p2p.AddPeer(peers[i]); err != nil {
+			slog.Error("addPeers", "err", err)
+		}
+	}
+}
+
 func (p2p *Server) AddPeer(tp *tracker.Peer) error {
 	p2p.mu.Lock()
 	defer p2p.mu.Unlock()
-- 
2.43.0


From bcde5c1cbba496315aa98bb0e4bc7cb1afbdf266 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:46:24 +0000
Subject: [PATCH 48/57] fix: every known address of a peer that supplied
 corrupt data is blocked

The peer's connection was closed, and its addresses forgotten, before they
were to be blocked: one that had connected to us was dialled again.
---
 p2p/peer.go   | 6 ++++++
 p2p/server.go | 5 -----
 2 files changed, 6 insertions(+), 5 deletions(-)

diff --git a/p2p/peer.go b/p2p/peer.go
index 431d0e4..49c407b 100644
--- a/p2p/peer.go
+++ b/p2p/peer.go
@@ -299,6 +299,12 @@ func (peer *Peer) HandlePiece(index, begin int, data []byte) error {
 	if errors.Is(err, storage.ErrBlockExists) {
 		err = nil
 	}
+	if _, ok := err.(*storage.ChecksumError); ok {
+		// Before the peer is disconnected and its addresses are forgotten
+		if err := peer.server.Block(peer); err != nil {
+			slog.Error("HandlePiece.Block", "err", err)
+		}
+	}
 	fut.Deliver(err)
 	return err
 }
diff --git a/p2p/server.go b/p2p/server.go
index cfe8d0c..fbb5f62 100644
--- a/p2p/server.go
+++ b/p2p/server.go
@@ -507,11 +507,6 @@ func (p2p *Server) requestPieceFromPeer(ctx context.Context, peer *Peer) error {
 			p2p.mu.Unlock()
 			if err != nil {
 				slog.Error("requestPieceFromPeer.requestPiece", "err", err)
-				if _, ok := err.(*storage.ChecksumError); ok {
-					if err := p2p.Block(peer); err != nil {
-						slog.Error("requestPieceFromPeer.Block", "err", err)
-					}
-				}
 				// Leave the piece to another peer first
 				p2p.requeue(ctx, peer, 5*time.Second)
 				return
-- 
2.43.0


From 4425ef48d588605bc5fef86de0b6679e37380d32 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:29:05 +0000
Subject: [PATCH 49/57] fix: a peer that does not read its bitfield does not
 hold up the client

---
 p2p/server.go | 29 ++++++++++++++++++++---------
 1 file changed, 20 insertions(+), 9 deletions(-)

diff --git a/p2p/server.go b/p2p/server.go
index fbb5f62..e6442f6 100644
--- a/p2p/server.go
+++ b/p2p/server.go
@@ -353,13 +353,29 @@ func (p2p *Server) Connect(peer *Peer) error {
 	if err := peer.Handshake(); err != nil {
 		return err
 	}
+	// No message overtakes the bitfield
+	peer.mu.Lock()
+	defer peer.mu.Unlock()
+	bf, err := p2p.activate(peer)
+	if err != nil {
+		return err
+	}
+	// Not with the server's lock held, the peer may be slow to read
+	if err := peer.send(peerapi.Bitfield(bf)); err != nil {
+		p2p.Disconnect(peer)
+		return err
+	}
+	return nil
+}
+
+func (p2p *Server) activate(peer *Peer) (bitfield.Bitfield, error) {
 	p2p.mu.Lock()
 	defer p2p.mu.Unlock()
 	if err := p2p.ctx.Err(); err != nil {
-		return err
+		return nil, err
 	}
 	if len(p2p.activePeers) >= 50 {
-		return ErrTooManyConnections
+		return nil, ErrTooManyConnections
 	}
 	addrs, ok := p2p.knownAddrs[peer.IDIP()]
 	if !ok {
@@ -369,15 +385,10 @@ func (p2p *Server) Connect(peer *Peer) error {
 	addrs[peer.Addr()] = struct{}{}
 	p2p.knownIDIPs[peer.Addr()] = peer.IDIP()
 	if _, ok := p2p.activePeers[peer.IDIP()]; ok {
-		return ErrAlreadyConnected
+		return nil, ErrAlreadyConnected
 	}
 	p2p.activePeers[peer.IDIP()] = peer
-	bf := p2p.Storage.Torrent.CompletePieces()
-	if err := peer.Send(peerapi.Bitfield(bf)); err != nil {
-		p2p.disconnect(peer)
-		return err
-	}
-	return nil
+	return p2p.Storage.Torrent.CompletePieces(), nil
 }
 
 func (p2p *Server) checkConnect(peer *Peer) error {
-- 
2.43.0


From 6a59161ce35fe9b23ae41fbf4b6c8ad779209a4b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:38:21 +0000
Subject: [PATCH 50/57] fix: announces follow the interval that the last
 response asked for

---
 p2p/server.go | 33 ++++++++++++++++++++++++++-------
 1 file changed, 26 insertions(+), 7 deletions(-)

diff --git a/p2p/server.go b/p2p/server.go
index e6442f6..140cd32 100644
--- a/p2p/server.go
+++ b/p2p/server.go
@@ -39,6 +39,7 @@ type Server struct {
 	ctx           context.Context
 	stop          func() error
 	announced     atomic.Bool
+	interval      atomic.Int64 // between announces, as a time.Duration
 	uploaded      atomic.Int64
 	downloaded    atomic.Int64
 
@@ -104,6 +105,7 @@ func (p2p *Server) Start() error {
 	stop := sync.OnceValue(func() error { return p2p.shutdown(cancel, tcp) })
 	p2p.Tracker.reset()
 	p2p.announced.Store(false)
+	p2p.interval.Store(int64(defaultInterval))
 	p2p.mu.Lock()
 	p2p.tcp = tcp
 	p2p.ctx = ctx
@@ -117,17 +119,14 @@ func (p2p *Server) Start() error {
 	eg.Go(func() error { return p2p.RequestPieces(ctx) })
 	eg.Go(func() error { return p2p.DialPeers(ctx) })
 	eg.Go(func() error { return p2p.every(ctx, p2p.UnchokePeers, 10*time.Second) })
-	interval := defaultInterval
 	res, err := p2p.Tracker.Start()
 	if err != nil {
 		// Announce tries again
 		slog.Error("Start", "err", err)
 	} else {
-		p2p.announced.Store(true)
-		interval = announceInterval(res.Interval)
-		p2p.addPeers(res.Peers.List)
+		p2p.handleResponse(res)
 	}
-	eg.Go(func() error { return p2p.every(ctx, p2p.Announce, interval) })
+	eg.Go(func() error { return p2p.announceAtInterval(ctx) })
 	if err := p2p.UnchokePeers(ctx); err != nil {
 		return err
 	}
@@ -302,12 +301,32 @@ func (p2p *Server) Announce(ctx context.Context) error {
 		slog.Error("Announce", "err", err)
 		return nil
 	}
-	p2p.announced.Store(true)
 	slog.Debug("Announce", "num_peers", len(res.Peers.List))
-	p2p.addPeers(res.Peers.List)
+	p2p.handleResponse(res)
 	return nil
 }
 
+func (p2p *Server) handleResponse(res *tracker.Response) {
+	p2p.announced.Store(true)
+	p2p.interval.Store(int64(announceInterval(res.Interval)))
+	p2p.addPeers(res.Peers.List)
+}
+
+// announceAtInterval announces at the interval that the last response asked
+// for.
+func (p2p *Server) announceAtInterval(ctx context.Context) error {
+	for {
+		select {
+		case <-ctx.Done():
+			return ctx.Err()
+		case <-time.After(time.Duration(p2p.interval.Load())):
+		}
+		if err := p2p.Announce(ctx); err != nil {
+			return err
+		}
+	}
+}
+
 func (p2p *Server) QueuePeer(peer *Peer) bool {
 	p2p.mu.Lock()
 	defer p2p.mu.Unlock()
-- 
2.43.0


From acfa6c7258c01168a511bd55e3a8a3a0c58872d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:41:01 +0000
Subject: [PATCH 51/57] fix: something that came to be under the target name
 during the download is not replaced

---
 storage/storage.go | 16 ++++++++++++++--
 1 file changed, 14 insertions(+), 2 deletions(-)

diff --git a/storage/storage.go b/storage/storage.go
index 8a4dd0e..ad216b2 100644
--- a/storage/storage.go
+++ b/storage/storage.go
@@ -445,6 +445,18 @@ func (s *Storage) published() {
 	}
 }
 
+// publish moves the assembled torrent into place, unless something else has
+// come to be there since the torrent was loaded.
+func (s *Storage) publish(temp string) error {
+	target := filepath.Join(s.TargetDir, s.Torrent.FileName())
+	if _, err := os.Lstat(target); err == nil {
+		return fmt.Errorf("storage: %s: %w", target, os.ErrExist)
+	} else if !errors.Is(err, os.ErrNotExist) {
+		return err
+	}
+	return os.Rename(temp, target)
+}
+
 func (s *Storage) coalescePiecesForSingleFile() error {
 	tempDir := filepath.Join(s.WorkDir, "temp")
 	if err := os.MkdirAll(tempDir, 0o0700); err != nil {
@@ -473,7 +485,7 @@ func (s *Storage) coalescePiecesForSingleFile() error {
 	if err := temp.Close(); err != nil {
 		return err
 	}
-	if err = os.Rename(temp.Name(), filepath.Join(s.TargetDir, s.Torrent.FileName())); err != nil {
+	if err = s.publish(temp.Name()); err != nil {
 		return err
 	}
 	s.published()
@@ -518,7 +530,7 @@ func (s *Storage) coalescePiecesForMultiFile() error {
 			return err
 		}
 	}
-	if err = os.Rename(temp, filepath.Join(s.TargetDir, s.Torrent.FileName())); err != nil {
+	if err = s.publish(temp); err != nil {
 		return err
 	}
 	s.published()
-- 
2.43.0


From 7ca5e78eab357c510dc5d422962f84ecc4baae7d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:41:01 +0000
Subject: [PATCH 52/57] fix: two clients that send to each other do not wait
 for each other to read

---
 p2p/peer.go   | 68 ++++++++++++++++++++++++++++++++++++++++++---------
 p2p/server.go |  1 +
 2 files changed, 58 insertions(+), 11 deletions(-)

diff --git a/p2p/peer.go b/p2p/peer.go
index 49c407b..f2ec8f4 100644
--- a/p2p/peer.go
+++ b/p2p/peer.go
@@ -31,8 +31,13 @@ type Peer struct {
 	downloaded atomic.Int64
 	uploaded   atomic.Int64
 
-	mu sync.Mutex
+	uploads     chan *peerapi.Message // requests to be answered
+	interesting atomic.Bool           // showing interest is about to begin
+
+	mu sync.Mutex // held while a message is sent
 	net.Conn
+
+	inflightMu       sync.Mutex
 	inflightRequests map[blockRequest]*future.Future[error]
 }
 
@@ -131,9 +136,11 @@ func (p *Peer) Receive() (m *peerapi.Message, err error) {
 	case peerapi.CHOKE:
 		p.mu.Lock()
 		p.RemoteChoked.Store(true)
+		p.inflightMu.Lock()
 		for br := range p.inflightRequests {
 			p.completeRequest(&br, ErrChoked)
 		}
+		p.inflightMu.Unlock()
 		p.mu.Unlock()
 	default:
 	}
@@ -165,6 +172,7 @@ func (p *Peer) Unchoke() error {
 func (p *Peer) Interest() error {
 	p.mu.Lock()
 	defer p.mu.Unlock()
+	p.interesting.Store(false)
 	if p.Interested.CompareAndSwap(false, true) {
 		return p.send(peerapi.Interested())
 	}
@@ -192,10 +200,16 @@ func (peer *Peer) serve(ctx context.Context, connected func()) {
 	if connected != nil {
 		connected()
 	}
+	uploaded := make(chan struct{})
+	go func() {
+		defer close(uploaded)
+		peer.upload(ctx)
+	}()
 	defer func() {
 		if err := peer.server.Disconnect(peer); err != nil {
 			slog.Error("serve.Disconnect", "err", err)
 		}
+		<-uploaded
 	}()
 	for {
 		select {
@@ -208,6 +222,13 @@ func (peer *Peer) serve(ctx context.Context, connected func()) {
 			slog.Error("serve.Receive", "err", err)
 			return
 		}
+		if m.Type == peerapi.REQUEST && !peer.Choked.Load() {
+			select {
+			case <-ctx.Done():
+			case peer.uploads <- m:
+			}
+			continue
+		}
 		if err = peer.HandleMessage(m); err != nil {
 			slog.Error("serve.HandleMessage", "err", err)
 			return
@@ -215,6 +236,24 @@ func (peer *Peer) serve(ctx context.Context, connected func()) {
 	}
 }
 
+// upload answers requests in the order they arrived. It is not left to the
+// goroutine that receives: two clients that send to each other must not both
+// wait for the other one to read.
+func (peer *Peer) upload(ctx context.Context) {
+	for {
+		select {
+		case <-ctx.Done():
+			return
+		case m := <-peer.uploads:
+			if err := peer.HandleMessage(m); err != nil {
+				slog.Error("upload.HandleMessage", "err", err)
+				peer.Close()
+				return
+			}
+		}
+	}
+}
+
 func (peer *Peer) HandleMessage(m *peerapi.Message) error {
 	switch m.Type {
 	case peerapi.KEEPALIVE:
@@ -252,7 +291,14 @@ func (peer *Peer) HandleHave(i int) error {
 	peer.server.RecordIndex(i, peer)
 	if !peer.server.Storage.Torrent.HasPiece(i) {
 		peer.server.QueuePeer(peer)
-		return peer.Interest()
+		if !peer.Interested.Load() && peer.interesting.CompareAndSwap(false, true) {
+			// Not here, what is being sent may have to wait for the peer
+			go func() {
+				if err := peer.Interest(); err != nil {
+					slog.Error("HandleHave.Interest", "err", err)
+				}
+			}()
+		}
 	}
 	return nil
 }
@@ -275,7 +321,7 @@ func (peer *Peer) HandleRequest(index, begin, length int) error {
 }
 
 // HandleCancel does nothing: requests are answered in the order they arrive,
-// so a canceled request is answered by the time the cancel is read.
+// a canceled one may be about to be.
 func (peer *Peer) HandleCancel(index, begin, length int) {
 }
 
@@ -283,10 +329,10 @@ func (peer *Peer) HandlePiece(index, begin int, data []byte) error {
 	// Take the request, so that it is neither answered twice nor given up
 	// while its block is stored
 	br := blockRequest{index, begin, len(data)}
-	peer.mu.Lock()
+	peer.inflightMu.Lock()
 	fut, ok := peer.inflightRequests[br]
 	delete(peer.inflightRequests, br)
-	peer.mu.Unlock()
+	peer.inflightMu.Unlock()
 	if !ok {
 		slog.Debug("HandlePiece: not requested", "index", index, "begin", begin, "length", len(data))
 		return nil
@@ -346,16 +392,16 @@ func (p *Peer) requestBlock(ctx context.Context, br *blockRequest) (err error) {
 		return ErrChoked
 	}
 	slog.Debug("requestBlock", "index", br.index, "begin", br.begin, "length", br.length)
-	p.mu.Lock()
+	p.inflightMu.Lock()
 	fut, ok := p.inflightRequests[*br]
 	if !ok {
 		fut = future.New[error]()
 		p.inflightRequests[*br] = fut
 	}
-	p.mu.Unlock()
+	p.inflightMu.Unlock()
 	defer func() {
-		p.mu.Lock()
-		defer p.mu.Unlock()
+		p.inflightMu.Lock()
+		defer p.inflightMu.Unlock()
 		delete(p.inflightRequests, *br)
 	}()
 	if err := p.Send(peerapi.Request(br.index, br.begin, br.length)); err != nil {
@@ -363,10 +409,10 @@ func (p *Peer) requestBlock(ctx context.Context, br *blockRequest) (err error) {
 	}
 	select {
 	case <-ctx.Done():
-		p.mu.Lock()
+		p.inflightMu.Lock()
 		_, ok := p.inflightRequests[*br]
 		delete(p.inflightRequests, *br)
-		p.mu.Unlock()
+		p.inflightMu.Unlock()
 		if ok {
 			return ctx.Err()
 		}
diff --git a/p2p/server.go b/p2p/server.go
index 140cd32..2284eae 100644
--- a/p2p/server.go
+++ b/p2p/server.go
@@ -640,6 +640,7 @@ func (p2p *Server) newPeer(conn net.Conn) *Peer {
 		Bitfield:         bitfield.New(len(p2p.Info.Pieces)),
 		server:           p2p,
 		Conn:             conn,
+		uploads:          make(chan *peerapi.Message, 64),
 		inflightRequests: make(map[blockRequest]*future.Future[error]),
 	}
 	peer.RemoteChoked.Store(true)
-- 
2.43.0


From 10a7befbb96df6e5fe51e0feca7e9bbaace499cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:47:06 +0000
Subject: [PATCH 53/57] fix: the tracker does not wait for a slow client with
 the torrent locked

---
 pex/http.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pex/http.go b/pex/http.go
index 140f00f..2563910 100644
--- a/pex/http.go
+++ b/pex/http.go
@@ -108,7 +108,6 @@ func (t *HTTP) ServeHTTP(rw http.ResponseWriter, req *http.Request) {
 	}
 	addr := fmt.Sprintf("%s:%d", netIP.String(), r.Port)
 	torrent.mu.Lock()
-	defer torrent.mu.Unlock()
 	peer, ok := torrent.Peers[addr]
 	if !ok {
 		peer = &Peer{
@@ -141,6 +140,8 @@ func (t *HTTP) ServeHTTP(rw http.ResponseWriter, req *http.Request) {
 		Peers:    peers,
 	}
 	data, err := bencode.Marshal(res)
+	// Clients may be slow to read the response
+	torrent.mu.Unlock()
 	if err != nil {
 		rw.WriteHeader(http.StatusInternalServerError)
 		slog.Error("ServeHTTP", "err", err)
-- 
2.43.0


From 184644f030eb8e001dc405ef7167585e9d4f9a9e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:57:54 +0000
Subject: [PATCH 54/57] fix: the connections are closed when Stop returns

---
 p2p/peer.go | 13 ++++++++-----
 1 file changed, 8 insertions(+), 5 deletions(-)

diff --git a/p2p/peer.go b/p2p/peer.go
index f2ec8f4..1522ef7 100644
--- a/p2p/peer.go
+++ b/p2p/peer.go
@@ -28,6 +28,7 @@ type Peer struct {
 
 	server     *Server
 	cancel     context.CancelFunc
+	closing    sync.Once
 	downloaded atomic.Int64
 	uploaded   atomic.Int64
 
@@ -49,15 +50,17 @@ type blockRequest struct {
 
 var ErrChoked = errors.New("p2p: peer connection is choked")
 
-func (p *Peer) Close() error {
-	if p.Closed.CompareAndSwap(false, true) {
+func (p *Peer) Close() (err error) {
+	// Once it is closed for one caller, it is for all of them
+	p.closing.Do(func() {
+		p.Closed.Store(true)
 		if p.cancel == nil {
 			panic("peer missing cancel")
 		}
 		p.cancel()
-		return p.Conn.Close()
-	}
-	return nil
+		err = p.Conn.Close()
+	})
+	return err
 }
 
 func (p *Peer) Handshake() error {
-- 
2.43.0


From bb2964e638265112cad208bbc966d2806e392425 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:15:53 +0000
Subject: [PATCH 55/57] fix: connections are kept alive

---
 p2p/server.go | 14 ++++++++++++++
 1 file changed, 14 insertions(+)

diff --git a/p2p/server.go b/p2p/server.go
index 2284eae..2b493a2 100644
--- a/p2p/server.go
+++ b/p2p/server.go
@@ -119,6 +119,7 @@ func (p2p *Server) Start() error {
 	eg.Go(func() error { return p2p.RequestPieces(ctx) })
 	eg.Go(func() error { return p2p.DialPeers(ctx) })
 	eg.Go(func() error { return p2p.every(ctx, p2p.UnchokePeers, 10*time.Second) })
+	eg.Go(func() error { return p2p.every(ctx, p2p.KeepAlive, time.Minute) })
 	res, err := p2p.Tracker.Start()
 	if err != nil {
 		// Announce tries again
@@ -290,6 +291,19 @@ func (p2p *Server) UnchokePeers(ctx context.Context) error {
 	return nil
 }
 
+// KeepAlive makes sure that no peer hears nothing for two minutes, after which
+// peers close a connection.
+func (p2p *Server) KeepAlive(ctx context.Context) error {
+	p2p.mu.Lock()
+	peers := maps.Clone(p2p.activePeers)
+	p2p.mu.Unlock()
+	for _, p := range peers {
+		// A peer that is slow to read does not delay the others
+		go p.Keepalive()
+	}
+	return nil
+}
+
 func (p2p *Server) Announce(ctx context.Context) error {
 	announce := p2p.Tracker.Announce
 	if !p2p.announced.Load() {
-- 
2.43.0


From 51f6ba03bd04fb398cf1e6b703c0cb0b14b72d7c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:59:30 +0000
Subject: [PATCH 56/57] fix: torrents with long names are published

The temporary name was made from the torrent's name, which may be as long as
the file system allows: assembling such a torrent failed for ever.
---
 storage/storage.go | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/storage/storage.go b/storage/storage.go
index ad216b2..2fb6d45 100644
--- a/storage/storage.go
+++ b/storage/storage.go
@@ -462,7 +462,8 @@ func (s *Storage) coalescePiecesForSingleFile() error {
 	if err := os.MkdirAll(tempDir, 0o0700); err != nil {
 		return err
 	}
-	temp, err := os.CreateTemp(tempDir, s.Torrent.FileName())
+	// Not the name of the torrent, which may be as long as a name can be
+	temp, err := os.CreateTemp(tempDir, s.Torrent.WorkDir())
 	if err != nil {
 		return err
 	}
@@ -497,7 +498,8 @@ func (s *Storage) coalescePiecesForMultiFile() error {
 	if err := os.MkdirAll(tempDir, 0o0700); err != nil {
 		return err
 	}
-	temp, err := os.MkdirTemp(tempDir, s.Torrent.FileName())
+	// Not the name of the torrent, which may be as long as a name can be
+	temp, err := os.MkdirTemp(tempDir, s.Torrent.WorkDir())
 	if err != nil {
 		return err
 	}
-- 
2.43.0


From 6aad9094a89f0ce07d42f8ec9440bf0ab95f6448 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:59:45 +0000
Subject: [PATCH 57/57] fix: the query of an announce URL is kept

Private trackers tell their users apart by it, every announce to them failed.
---
 p2p/multitracker.go | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/p2p/multitracker.go b/p2p/multitracker.go
index fc13ad1..7995788 100644
--- a/p2p/multitracker.go
+++ b/p2p/multitracker.go
@@ -155,7 +155,12 @@ func (mt *Tracker) get(event eventName) (*trackerapi.Response, error) {
 	if err != nil {
 		return nil, err
 	}
-	url.RawQuery = req.Encode()
+	// Some trackers tell their users apart by the URL
+	query := req.Encode()
+	if url.RawQuery != "" {
+		query = url.RawQuery + "&" + query
+	}
+	url.RawQuery = query
 	httpRes, err := httpClient.Get(url.String())
 	if err != nil {
 		return nil, err
-- 
2.43.0

