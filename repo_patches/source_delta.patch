From 6daad5398d63205b3e7d0468bd171236617ef6db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:22:04 +0000
Subject: [PATCH 01/53] fix: vshell: split runs that do not fit the 16-bit
 count

---
 vshell/write.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/vshell/write.go b/vshell/write.go
index bcd6556..909cd0d 100644
--- a/vshell/write.go
+++ b/vshell/write.go
@@ -6,6 +6,7 @@ import (
 	"fmt"
 	"io"
 	"log"
+	"math"
 	"os"
 )
 
@@ -121,7 +122,7 @@ func (vs *VShell) encode(ch chan<- rle, lookup map[key]int, sx, sy, sz, nx, ny,
 				if v, ok := lookup[k]; ok {
 					newValue = uint32(vs.Voxels[v].N)
 				}
-				if newValue != value {
+				if newValue != value || count == math.MaxUint16 {
 					if count > 0 { // To account for first value being sent.
 						ch <- rle{value, count}
 					}
-- 
2.43.0


From 539ae254d879e801ee85e812a1a71e43c7c97b7c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:22:08 +0000
Subject: [PATCH 02/53] fix: binvox: exclude the end of the requested window
 when reading

---
 binvox/read.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/binvox/read.go b/binvox/read.go
index ae9d2f5..930b8ee 100644
--- a/binvox/read.go
+++ b/binvox/read.go
@@ -152,7 +152,7 @@ func read(r io.Reader, sx, sy, sz, cx, cy, cz int) (*BinVOX, error) {
 			if xi >= nx {
 				return nil, fmt.Errorf("run-length encoding overrun: x index=%v, x dim=%v", xi, nx)
 			}
-			if value == 1 && xi >= sx && xi <= sx+cx && yi >= sy && yi <= sy+cy && zi >= sz && zi <= sz+cz {
+			if value == 1 && xi >= sx && xi < sx+cx && yi >= sy && yi < sy+cy && zi >= sz && zi < sz+cz {
 				voxels[Key{X: xi, Y: yi, Z: zi}] = struct{}{}
 			}
 			yi++
-- 
2.43.0


From 6004b6506ecc166546964627b4a58309079b7341 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:22:10 +0000
Subject: [PATCH 03/53] fix: vshell: exclude the end of the requested window
 when reading

---
 vshell/read.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/vshell/read.go b/vshell/read.go
index 4a27bb4..1be6883 100644
--- a/vshell/read.go
+++ b/vshell/read.go
@@ -159,7 +159,7 @@ func read(r io.Reader, sx, sy, sz, cx, cy, cz int) (*VShell, error) {
 			if xi >= nx {
 				return nil, fmt.Errorf("run-length encoding overrun: x index=%v, x dim=%v", xi, nx)
 			}
-			if value != 0 && value != 0xffffffff && xi >= sx && xi <= sx+cx && yi >= sy && yi <= sy+cy && zi >= sz && zi <= sz+cz {
+			if value != 0 && value != 0xffffffff && xi >= sx && xi < sx+cx && yi >= sy && yi < sy+cy && zi >= sz && zi < sz+cz {
 				voxels = append(voxels, VShVoxel{X: xi, Y: yi, Z: zi, N: NeighborBitMap(value)})
 			}
 			yi++
-- 
2.43.0


From 0ccd802a818c432920db3972e40ee7a9f0a450e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:22:14 +0000
Subject: [PATCH 04/53] fix: binvox: reject data for a model with a zero
 dimension

---
 binvox/read.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/binvox/read.go b/binvox/read.go
index 930b8ee..9d90a22 100644
--- a/binvox/read.go
+++ b/binvox/read.go
@@ -149,8 +149,8 @@ func read(r io.Reader, sx, sy, sz, cx, cy, cz int) (*BinVOX, error) {
 		// The y-coordinate runs fastest, then the z-coordinate, then the x-coordinate.
 		// Note that we are only saving the white pixels.
 		for i := 0; i < int(count); i++ {
-			if xi >= nx {
-				return nil, fmt.Errorf("run-length encoding overrun: x index=%v, x dim=%v", xi, nx)
+			if xi >= nx || yi >= ny || zi >= nz {
+				return nil, fmt.Errorf("run-length encoding overrun: index=(%v,%v,%v), dim=(%v,%v,%v)", xi, yi, zi, nx, ny, nz)
 			}
 			if value == 1 && xi >= sx && xi < sx+cx && yi >= sy && yi < sy+cy && zi >= sz && zi < sz+cz {
 				voxels[Key{X: xi, Y: yi, Z: zi}] = struct{}{}
-- 
2.43.0


From e03825c8c15753ae9f382037cbe951aca69f87d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:22:16 +0000
Subject: [PATCH 05/53] fix: vshell: reject data for a model with a zero
 dimension

---
 vshell/read.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/vshell/read.go b/vshell/read.go
index 1be6883..a1ac593 100644
--- a/vshell/read.go
+++ b/vshell/read.go
@@ -156,8 +156,8 @@ func read(r io.Reader, sx, sy, sz, cx, cy, cz int) (*VShell, error) {
 		// The y-coordinate runs fastest, then the z-coordinate, then the x-coordinate.
 		// Note that we are only saving the white pixels.
 		for i := 0; i < int(count); i++ {
-			if xi >= nx {
-				return nil, fmt.Errorf("run-length encoding overrun: x index=%v, x dim=%v", xi, nx)
+			if xi >= nx || yi >= ny || zi >= nz {
+				return nil, fmt.Errorf("run-length encoding overrun: index=(%v,%v,%v), dim=(%v,%v,%v)", xi, yi, zi, nx, ny, nz)
 			}
 			if value != 0 && value != 0xffffffff && xi >= sx && xi < sx+cx && yi >= sy && yi < sy+cy && zi >= sz && zi < sz+cz {
 				voxels = append(voxels, VShVoxel{X: xi, Y: yi, Z: zi, N: NeighborBitMap(value)})
-- 
2.43.0


From 601091f01e34dc8af8039fa3def3ce16764b19c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:22:19 +0000
Subject: [PATCH 06/53] fix: vshell: reject a zero run count of empty voxels

---
 vshell/read.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/vshell/read.go b/vshell/read.go
index a1ac593..a09570b 100644
--- a/vshell/read.go
+++ b/vshell/read.go
@@ -142,6 +142,9 @@ func read(r io.Reader, sx, sy, sz, cx, cy, cz int) (*VShell, error) {
 			if err := binary.Read(b, binary.LittleEndian, &count); err != nil {
 				return nil, fmt.Errorf("error count value: %v", err)
 			}
+			if count == 0 {
+				return nil, fmt.Errorf("invalid count: %v", count)
+			}
 		} else { // read byte count
 			c, err := b.ReadByte()
 			if err != nil { // Should not EOF when getting count, so return error
-- 
2.43.0


From 9b1c07c2d1cfba5e296037fde5be3ecebb1ab5fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:22:23 +0000
Subject: [PATCH 07/53] fix: binvox: report a failure to write the header

---
 binvox/write.go | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/binvox/write.go b/binvox/write.go
index a172bb6..6f6f594 100644
--- a/binvox/write.go
+++ b/binvox/write.go
@@ -39,7 +39,9 @@ data
 
 func (b *BinVOX) write(w io.Writer, sx, sy, sz, nx, ny, nz int) (int64, error) {
 	if len(b.WhiteVoxels) == 0 {
-		fmt.Fprintf(w, headerFMT, 0, 0, 0, b.TX, b.TY, b.TZ, b.Scale)
+		if _, err := fmt.Fprintf(w, headerFMT, 0, 0, 0, b.TX, b.TY, b.TZ, b.Scale); err != nil {
+			return 0, fmt.Errorf("unable to write header: %v", err)
+		}
 		return 0, nil
 	}
 
@@ -55,7 +57,9 @@ func (b *BinVOX) write(w io.Writer, sx, sy, sz, nx, ny, nz int) (int64, error) {
 
 	header := fmt.Sprintf(headerFMT, nx, ny, nz, b.TX, b.TY, b.TZ, b.Scale)
 	log.Printf("New header: %v", header)
-	fmt.Fprint(w, header)
+	if _, err := fmt.Fprint(w, header); err != nil {
+		return 0, fmt.Errorf("unable to write header: %v", err)
+	}
 
 	ch := make(chan rle, 100)
 	go b.encode(ch, b.WhiteVoxels, sx, sy, sz, nx, ny, nz)
-- 
2.43.0


From 5972a2ce265c379fa9909d1324190a33e23304d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:22:25 +0000
Subject: [PATCH 08/53] fix: vshell: report a failure to write the header

---
 vshell/write.go | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/vshell/write.go b/vshell/write.go
index 909cd0d..1f74314 100644
--- a/vshell/write.go
+++ b/vshell/write.go
@@ -39,7 +39,9 @@ data
 
 func (vs *VShell) write(w io.Writer, sx, sy, sz, nx, ny, nz int) (int64, error) {
 	if len(vs.Voxels) == 0 {
-		fmt.Fprintf(w, headerFMT, 0, 0, 0, vs.TX, vs.TY, vs.TZ, vs.Scale)
+		if _, err := fmt.Fprintf(w, headerFMT, 0, 0, 0, vs.TX, vs.TY, vs.TZ, vs.Scale); err != nil {
+			return 0, fmt.Errorf("unable to write header: %v", err)
+		}
 		return 0, nil
 	}
 
@@ -61,7 +63,9 @@ func (vs *VShell) write(w io.Writer, sx, sy, sz, nx, ny, nz int) (int64, error)
 
 	header := fmt.Sprintf(headerFMT, nx, ny, nz, vs.TX, vs.TY, vs.TZ, vs.Scale)
 	log.Printf("New header: %v", header)
-	fmt.Fprint(w, header)
+	if _, err := fmt.Fprint(w, header); err != nil {
+		return 0, fmt.Errorf("unable to write header: %v", err)
+	}
 
 	ch := make(chan rle, 100)
 	go vs.encode(ch, lookup, sx, sy, sz, nx, ny, nz)
-- 
2.43.0


From 77d8fa57aecf2b168525d216db9edfd954687d3c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:22:28 +0000
Subject: [PATCH 09/53] fix: vshell: let the encoder finish when writing fails

---
 vshell/write.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/vshell/write.go b/vshell/write.go
index 1f74314..6b4b30e 100644
--- a/vshell/write.go
+++ b/vshell/write.go
@@ -69,6 +69,10 @@ func (vs *VShell) write(w io.Writer, sx, sy, sz, nx, ny, nz int) (int64, error)
 
 	ch := make(chan rle, 100)
 	go vs.encode(ch, lookup, sx, sy, sz, nx, ny, nz)
+	defer func() {
+		for range ch { // Let the encoder finish after an early return.
+		}
+	}()
 
 	var numVoxels int64
 	for v := range ch {
-- 
2.43.0


From d0cf304f86cc3f2d00cc817cfcf774714e423541 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:22:49 +0000
Subject: [PATCH 10/53] fix: binvox: place a written window where its voxels
 are

---
 binvox/write.go | 16 +++++++++++++++-
 1 file changed, 15 insertions(+), 1 deletion(-)

diff --git a/binvox/write.go b/binvox/write.go
index 6f6f594..ad7fe28 100644
--- a/binvox/write.go
+++ b/binvox/write.go
@@ -55,7 +55,8 @@ func (b *BinVOX) write(w io.Writer, sx, sy, sz, nx, ny, nz int) (int64, error) {
 		nz = b.NZ
 	}
 
-	header := fmt.Sprintf(headerFMT, nx, ny, nz, b.TX, b.TY, b.TZ, b.Scale)
+	tx, ty, tz, scale := b.windowPlacement(sx, sy, sz, nx, ny, nz)
+	header := fmt.Sprintf(headerFMT, nx, ny, nz, tx, ty, tz, scale)
 	log.Printf("New header: %v", header)
 	if _, err := fmt.Fprint(w, header); err != nil {
 		return 0, fmt.Errorf("unable to write header: %v", err)
@@ -88,6 +89,19 @@ func (b *BinVOX) write(w io.Writer, sx, sy, sz, nx, ny, nz int) (int64, error) {
 	return numWhite, nil
 }
 
+// windowPlacement returns the translation and the scale of a window of the model.
+func (b *BinVOX) windowPlacement(sx, sy, sz, nx, ny, nz int) (tx, ty, tz, scale float64) {
+	mmpv := 1.0 / b.VoxelsPerMM()
+	tx = b.TX + float64(sx)*mmpv
+	ty = b.TY + float64(sy)*mmpv
+	tz = b.TZ + float64(sz)*mmpv
+	scale = b.Scale
+	if dim := max(nx, ny, nz); dim != b.Dim() {
+		scale = float64(dim) * mmpv
+	}
+	return tx, ty, tz, scale
+}
+
 // rle represents the run-length encoding for voxel values.
 type rle struct {
 	value byte
-- 
2.43.0


From b0c2d0493e929d8c903be745dd401c0c60cc7fbe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:22:52 +0000
Subject: [PATCH 11/53] fix: vshell: place a written window where its voxels
 are

---
 vshell/write.go | 16 +++++++++++++++-
 1 file changed, 15 insertions(+), 1 deletion(-)

diff --git a/vshell/write.go b/vshell/write.go
index 6b4b30e..0c3a745 100644
--- a/vshell/write.go
+++ b/vshell/write.go
@@ -61,7 +61,8 @@ func (vs *VShell) write(w io.Writer, sx, sy, sz, nx, ny, nz int) (int64, error)
 		lookup[key{v.X, v.Y, v.Z}] = i
 	}
 
-	header := fmt.Sprintf(headerFMT, nx, ny, nz, vs.TX, vs.TY, vs.TZ, vs.Scale)
+	tx, ty, tz, scale := vs.windowPlacement(sx, sy, sz, nx, ny, nz)
+	header := fmt.Sprintf(headerFMT, nx, ny, nz, tx, ty, tz, scale)
 	log.Printf("New header: %v", header)
 	if _, err := fmt.Fprint(w, header); err != nil {
 		return 0, fmt.Errorf("unable to write header: %v", err)
@@ -113,6 +114,19 @@ func (vs *VShell) write(w io.Writer, sx, sy, sz, nx, ny, nz int) (int64, error)
 	return numVoxels, nil
 }
 
+// windowPlacement returns the translation and the scale of a window of the model.
+func (vs *VShell) windowPlacement(sx, sy, sz, nx, ny, nz int) (tx, ty, tz, scale float64) {
+	mmpv := 1.0 / vs.VoxelsPerMM()
+	tx = vs.TX + float64(sx)*mmpv
+	ty = vs.TY + float64(sy)*mmpv
+	tz = vs.TZ + float64(sz)*mmpv
+	scale = vs.Scale
+	if dim := max(nx, ny, nz); dim != vs.Dim() {
+		scale = float64(dim) * mmpv
+	}
+	return tx, ty, tz, scale
+}
+
 // rle represents the run-length encoding for voxel values.
 type rle struct {
 	value uint32
-- 
2.43.0


From 05495358a53d2ccace3b4adf37516f493f9c6e31 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:23:28 +0000
Subject: [PATCH 12/53] fix: binvox: do not set shell voxels left of the region

---
 binvox/voxelize.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/binvox/voxelize.go b/binvox/voxelize.go
index 2b282c2..659e913 100644
--- a/binvox/voxelize.go
+++ b/binvox/voxelize.go
@@ -270,7 +270,9 @@ func (b *BinVOX) floodFill(zi int, set setMap, setVoxelFunc func(k Key), xMinMax
 				}
 				k := Key{xi, yi, zi}
 				if len(set[k]) > 0 { // triangles intersect this voxel.
-					setVoxelFunc(k)
+					if xi >= 0 {
+						setVoxelFunc(k)
+					}
 					var inCount, outCount int
 					for _, tri := range set[k] {
 						if _, ok := seenTris[tri]; ok {
-- 
2.43.0


From 065b9744d31239e146c87678330de1bcb2240861 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:23:31 +0000
Subject: [PATCH 13/53] fix: voxcut: apply the index shift between the models

---
 cmd/voxcut/voxcut.go | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/cmd/voxcut/voxcut.go b/cmd/voxcut/voxcut.go
index e499602..39a9d10 100644
--- a/cmd/voxcut/voxcut.go
+++ b/cmd/voxcut/voxcut.go
@@ -20,6 +20,7 @@ import (
 	"fmt"
 	"io"
 	"log"
+	"math"
 	"os"
 
 	gl "github.com/fogleman/fauxgl"
@@ -137,13 +138,13 @@ func voxcut(base, cut *binvox.BinVOX) (newVoxels binvox.WhiteVoxelMap, err error
 	vpmm := base.VoxelsPerMM()
 
 	// Map base indices to cut indices by taking into account the translations.
-	dx := int((base.TX - cut.TX) * vpmm)
-	dy := int((base.TY - cut.TY) * vpmm)
-	dz := int((base.TZ - cut.TZ) * vpmm)
+	dx := int(math.Round((base.TX - cut.TX) * vpmm))
+	dy := int(math.Round((base.TY - cut.TY) * vpmm))
+	dz := int(math.Round((base.TZ - cut.TZ) * vpmm))
 	log.Printf("Translating cut voxels by [%v,%v,%v]", dx, dy, dz)
 
 	keyFunc := func(v binvox.Key, vc binvox.Color) {
-		c, ok := cut.Get(v.X, v.Y, v.Z)
+		c, ok := cut.Get(v.X+dx, v.Y+dy, v.Z+dz)
 		if !ok { // Nothing to cut - keep voxel.
 			newVoxels[v] = struct{}{}
 			return
-- 
2.43.0


From e01436c047e75848fcb1d5f0ab9f25baab5ba070 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:23:33 +0000
Subject: [PATCH 14/53] fix: voxcut: declare the sizes of the vox chunks as
 written

---
 cmd/voxcut/voxcut.go | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/cmd/voxcut/voxcut.go b/cmd/voxcut/voxcut.go
index 39a9d10..6f81b7d 100644
--- a/cmd/voxcut/voxcut.go
+++ b/cmd/voxcut/voxcut.go
@@ -177,7 +177,7 @@ func writeVOX(f io.Writer, base binvox.WhiteVoxelMap) error {
 		return fmt.Errorf("header: %v", err)
 	}
 
-	chunk := gl.VOXChunk{ID: [4]byte{'M', 'A', 'I', 'N'}, ChildrenBytes: int32(12 + len(base)*4 + 4)}
+	chunk := gl.VOXChunk{ID: [4]byte{'M', 'A', 'I', 'N'}, ChildrenBytes: int32(12 + 12 + 12 + 4 + len(base)*4)}
 	if err := binary.Write(f, binary.LittleEndian, &chunk); err != nil {
 		return fmt.Errorf("MAIN: %v", err)
 	}
@@ -198,13 +198,13 @@ func writeVOX(f io.Writer, base binvox.WhiteVoxelMap) error {
 			maxZ = v.Z
 		}
 	}
-	if err := binary.Write(f, binary.LittleEndian, int32(maxX)); err != nil {
+	if err := binary.Write(f, binary.LittleEndian, int32(maxX+1)); err != nil {
 		return fmt.Errorf("maxX: %v", err)
 	}
-	if err := binary.Write(f, binary.LittleEndian, int32(maxY)); err != nil {
+	if err := binary.Write(f, binary.LittleEndian, int32(maxY+1)); err != nil {
 		return fmt.Errorf("maxY: %v", err)
 	}
-	if err := binary.Write(f, binary.LittleEndian, int32(maxZ)); err != nil {
+	if err := binary.Write(f, binary.LittleEndian, int32(maxZ+1)); err != nil {
 		return fmt.Errorf("maxZ: %v", err)
 	}
 
@@ -223,16 +223,16 @@ func writeVOX(f io.Writer, base binvox.WhiteVoxelMap) error {
 		// if vc.A >= 0.5 && vc.R+vc.G+vc.B > 1.5 {  // WHAT?!?
 		// 	i = 1
 		// }
-		if err := binary.Write(f, binary.LittleEndian, int32(v.X)); err != nil {
+		if err := binary.Write(f, binary.LittleEndian, uint8(v.X)); err != nil {
 			return fmt.Errorf("X: %v", err)
 		}
-		if err := binary.Write(f, binary.LittleEndian, int32(v.Y)); err != nil {
+		if err := binary.Write(f, binary.LittleEndian, uint8(v.Y)); err != nil {
 			return fmt.Errorf("Y: %v", err)
 		}
-		if err := binary.Write(f, binary.LittleEndian, int32(v.Z)); err != nil {
+		if err := binary.Write(f, binary.LittleEndian, uint8(v.Z)); err != nil {
 			return fmt.Errorf("Z: %v", err)
 		}
-		i := int32(1)
+		i := uint8(1)
 		if err := binary.Write(f, binary.LittleEndian, i); err != nil {
 			return fmt.Errorf("I: %v", err)
 		}
-- 
2.43.0


From 4090c61dbc1bbd20c9b43b0aad16b46708a555ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:23:35 +0000
Subject: [PATCH 15/53] fix: voxcut: refuse voxels the vox format cannot hold

---
 cmd/voxcut/voxcut.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/cmd/voxcut/voxcut.go b/cmd/voxcut/voxcut.go
index 6f81b7d..94a0cbb 100644
--- a/cmd/voxcut/voxcut.go
+++ b/cmd/voxcut/voxcut.go
@@ -198,6 +198,9 @@ func writeVOX(f io.Writer, base binvox.WhiteVoxelMap) error {
 			maxZ = v.Z
 		}
 	}
+	if maxX > math.MaxUint8 || maxY > math.MaxUint8 || maxZ > math.MaxUint8 {
+		return fmt.Errorf("model too large for the vox format: max index (%v,%v,%v)", maxX, maxY, maxZ)
+	}
 	if err := binary.Write(f, binary.LittleEndian, int32(maxX+1)); err != nil {
 		return fmt.Errorf("maxX: %v", err)
 	}
-- 
2.43.0


From 7f07ef400d3f30f060a054d0669f844a5692c5b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:24:20 +0000
Subject: [PATCH 16/53] fix: vshell: include a model that only has color voxels

---
 vshell/vshell.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/vshell/vshell.go b/vshell/vshell.go
index 3996f63..9793a56 100644
--- a/vshell/vshell.go
+++ b/vshell/vshell.go
@@ -58,7 +58,7 @@ func New(bv *binvox.BinVOX) (*VShell, error) {
 		TX: bv.TX, TY: bv.TY, TZ: bv.TZ,
 		Scale: bv.Scale,
 	}
-	if len(bv.WhiteVoxels) > 0 {
+	if len(bv.WhiteVoxels) > 0 || len(bv.ColorVoxels) > 0 {
 		if err := vs.Add(bv); err != nil {
 			return nil, err
 		}
-- 
2.43.0


From 9881f901814b1130e6c4eb81a355c838db29c05b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:24:22 +0000
Subject: [PATCH 17/53] fix: vshell: keep the neighbor updates of old shell
 voxels

---
 vshell/merge.go | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/vshell/merge.go b/vshell/merge.go
index ad161c7..5a39ead 100644
--- a/vshell/merge.go
+++ b/vshell/merge.go
@@ -88,7 +88,7 @@ func (vs *VShell) Add(bv *binvox.BinVOX) (err error) {
 	}
 
 	log.Printf("processing %v voxels...", len(lookup))
-	var shellCount int
+	var newShell []VShVoxel // appended later because old points into vs.Voxels
 	toRemove := make(lookupMap)
 	for k := range lookup {
 		neighbors, toCheck := lookup.findNeighbors(k, old)
@@ -106,10 +106,10 @@ func (vs *VShell) Add(bv *binvox.BinVOX) (err error) {
 			continue
 		}
 
-		shellCount++
-		vs.Voxels = append(vs.Voxels, VShVoxel{X: k.X, Y: k.Y, Z: k.Z, N: neighbors})
+		newShell = append(newShell, VShVoxel{X: k.X, Y: k.Y, Z: k.Z, N: neighbors})
 	}
-	log.Printf("added %v voxels to shell", shellCount)
+	vs.Voxels = append(vs.Voxels, newShell...)
+	log.Printf("added %v voxels to shell", len(newShell))
 	if len(toRemove) > 0 {
 		log.Printf("removing %v voxels from old shell...", len(toRemove))
 		newVoxels := make([]VShVoxel, 0, len(vs.Voxels)-len(toRemove))
-- 
2.43.0


From 2699c3d43cefd4bbdf2d034f0bc4803aec61d0a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:24:25 +0000
Subject: [PATCH 18/53] fix: vshell: do not add a voxel twice when models
 overlap

---
 vshell/merge.go | 18 +++++++++++-------
 1 file changed, 11 insertions(+), 7 deletions(-)

diff --git a/vshell/merge.go b/vshell/merge.go
index 5a39ead..2fa023b 100644
--- a/vshell/merge.go
+++ b/vshell/merge.go
@@ -47,6 +47,12 @@ func (vs *VShell) Add(bv *binvox.BinVOX) (err error) {
 		}
 	}
 
+	log.Printf("creating lookup table for %v old shell voxels...", len(vs.Voxels))
+	old := make(shellMap)
+	for i, v := range vs.Voxels {
+		old[key{v.X, v.Y, v.Z}] = &vs.Voxels[i]
+	}
+
 	log.Printf("creating lookup table for %v new voxels...", len(bv.WhiteVoxels))
 	lookup := make(lookupMap)
 	beforeVPMM := vs.VoxelsPerMM()
@@ -55,7 +61,11 @@ func (vs *VShell) Add(bv *binvox.BinVOX) (err error) {
 		nx := v.X + dx
 		ny := v.Y + dy
 		nz := v.Z + dz
-		lookup[key{nx, ny, nz}] = struct{}{}
+		k := key{nx, ny, nz}
+		if _, ok := old[k]; ok { // already in the shell
+			return
+		}
+		lookup[k] = struct{}{}
 		if nx >= vs.NX {
 			vs.NX = nx + 1
 		}
@@ -81,12 +91,6 @@ func (vs *VShell) Add(bv *binvox.BinVOX) (err error) {
 	}
 	log.Printf("New shell dimensions are: (%v,%v,%v)", vs.NX, vs.NY, vs.NZ)
 
-	log.Printf("creating lookup table for %v old shell voxels...", len(vs.Voxels))
-	old := make(shellMap)
-	for i, v := range vs.Voxels {
-		old[key{v.X, v.Y, v.Z}] = &vs.Voxels[i]
-	}
-
 	log.Printf("processing %v voxels...", len(lookup))
 	var newShell []VShVoxel // appended later because old points into vs.Voxels
 	toRemove := make(lookupMap)
-- 
2.43.0


From cafa53bbcee8c25b3f88c4de02dcdb5d315d5305 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:24:27 +0000
Subject: [PATCH 19/53] fix: vshell: round the index shift between the models

---
 vshell/merge.go | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/vshell/merge.go b/vshell/merge.go
index 2fa023b..62d2ea0 100644
--- a/vshell/merge.go
+++ b/vshell/merge.go
@@ -3,6 +3,7 @@ package vshell
 import (
 	"fmt"
 	"log"
+	"math"
 
 	"github.com/gmlewis/stldice/v4/binvox"
 )
@@ -136,9 +137,9 @@ func (vs *VShell) update(bv *binvox.BinVOX) (dx, dy, dz int, err error) {
 		return 0, 0, 0, fmt.Errorf("vshell.VoxelsPerMM (%v) != binvox.VoxelsPerMM (%v)", vpmm, bv.VoxelsPerMM())
 	}
 
-	dx = int((bv.TX - vs.TX) * vpmm)
-	dy = int((bv.TY - vs.TY) * vpmm)
-	dz = int((bv.TZ - vs.TZ) * vpmm)
+	dx = int(math.Round((bv.TX - vs.TX) * vpmm))
+	dy = int(math.Round((bv.TY - vs.TY) * vpmm))
+	dz = int(math.Round((bv.TZ - vs.TZ) * vpmm))
 	if bv.TX < vs.TX {
 		vs.TX = bv.TX
 	} else {
-- 
2.43.0


From 503b029feeb90299eb070c4d16531961bfa927ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:24:30 +0000
Subject: [PATCH 20/53] fix: vshell: shift each axis on its own when merging

---
 vshell/merge.go | 16 ++++++++++------
 1 file changed, 10 insertions(+), 6 deletions(-)

diff --git a/vshell/merge.go b/vshell/merge.go
index 62d2ea0..d27e575 100644
--- a/vshell/merge.go
+++ b/vshell/merge.go
@@ -157,13 +157,17 @@ func (vs *VShell) update(bv *binvox.BinVOX) (dx, dy, dz int, err error) {
 		return dx, dy, dz, nil
 	}
 
-	log.Printf("moving %v voxels by (%v,%v,%v)", len(vs.Voxels), -dx, -dy, -dz)
+	// Move the old voxels along the axes where the new model starts earlier,
+	// and the new voxels along the others.
+	mx, my, mz := max(0, -dx), max(0, -dy), max(0, -dz)
+	dx, dy, dz = max(0, dx), max(0, dy), max(0, dz)
+	log.Printf("moving %v voxels by (%v,%v,%v)", len(vs.Voxels), mx, my, mz)
 	beforeVPMM := vs.VoxelsPerMM()
 	// log.Printf("GML: beforeVPMM=%v, before scale=%v", beforeVPMM, vs.Scale)
 	for i := range vs.Voxels {
-		vs.Voxels[i].X -= dx
-		vs.Voxels[i].Y -= dy
-		vs.Voxels[i].Z -= dz
+		vs.Voxels[i].X += mx
+		vs.Voxels[i].Y += my
+		vs.Voxels[i].Z += mz
 		if vs.Voxels[i].X >= vs.NX {
 			vs.NX = vs.Voxels[i].X + 1
 		}
@@ -180,10 +184,10 @@ func (vs *VShell) update(bv *binvox.BinVOX) (dx, dy, dz int, err error) {
 		vs.Scale *= afterVPMM / beforeVPMM
 		// log.Printf("GML: after scale=%v", vs.Scale)
 	}
-	log.Printf("done moving %v voxels by (%v,%v,%v)", len(vs.Voxels), -dx, -dy, -dz)
+	log.Printf("done moving %v voxels by (%v,%v,%v)", len(vs.Voxels), mx, my, mz)
 	log.Printf("New shell dimensions are: (%v,%v,%v)", vs.NX, vs.NY, vs.NZ)
 
-	return 0, 0, 0, nil
+	return dx, dy, dz, nil
 }
 
 func (m lookupMap) findNeighbors(k key, old shellMap) (result NeighborBitMap, toCheck []key) {
-- 
2.43.0


From ad4a080d88549b4c459756ebe29af5cdc4f21c6b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:25:08 +0000
Subject: [PATCH 21/53] fix: vshell: place the first voxels of an empty shell

---
 vshell/merge.go | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/vshell/merge.go b/vshell/merge.go
index d27e575..0cc10d0 100644
--- a/vshell/merge.go
+++ b/vshell/merge.go
@@ -42,7 +42,11 @@ func (vs *VShell) Add(bv *binvox.BinVOX) (err error) {
 		return fmt.Errorf("empty vs or bv")
 	}
 	var dx, dy, dz int
-	if len(vs.Voxels) > 0 {
+	if len(vs.Voxels) == 0 { // Nothing to preserve - take the placement of bv.
+		vs.NX, vs.NY, vs.NZ = bv.NX, bv.NY, bv.NZ
+		vs.TX, vs.TY, vs.TZ = bv.TX, bv.TY, bv.TZ
+		vs.Scale = bv.Scale
+	} else {
 		if dx, dy, dz, err = vs.update(bv); err != nil {
 			return err
 		}
-- 
2.43.0


From 355e671d31fb722c766863a8516b108068a922ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:25:10 +0000
Subject: [PATCH 22/53] fix: vshell: report an error when there is nothing to
 merge

---
 vshell/merge.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/vshell/merge.go b/vshell/merge.go
index 0cc10d0..0725ef4 100644
--- a/vshell/merge.go
+++ b/vshell/merge.go
@@ -1,6 +1,7 @@
 package vshell
 
 import (
+	"errors"
 	"fmt"
 	"log"
 	"math"
@@ -10,6 +11,9 @@ import (
 
 // Merge merges one or more binvox files into a single VShell.
 func Merge(binfiles []string) (*VShell, error) {
+	if len(binfiles) == 0 {
+		return nil, errors.New("no files to merge")
+	}
 	var vs *VShell
 	for _, filename := range binfiles {
 		bv, err := binvox.Read(filename, 0, 0, 0, 0, 0, 0)
-- 
2.43.0


From 24b8f0d7949f3320a1114fbc6df9447d78bd22bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:25:13 +0000
Subject: [PATCH 23/53] fix: merge-binvox: find an existing output file and
 missing inputs

---
 cmd/merge-binvox/merge-binvox.go | 15 ++++++++++-----
 1 file changed, 10 insertions(+), 5 deletions(-)

diff --git a/cmd/merge-binvox/merge-binvox.go b/cmd/merge-binvox/merge-binvox.go
index f70491b..38787d3 100644
--- a/cmd/merge-binvox/merge-binvox.go
+++ b/cmd/merge-binvox/merge-binvox.go
@@ -30,18 +30,23 @@ func main() {
 	if err != nil {
 		log.Fatalf("No files found matching %v*.binvox", *prefix)
 	}
-	outFile := *prefix + ".vsh"
+	outFile := filepath.Clean(*prefix + ".vsh") // as returned by Glob
 	var newFiles []string
 	for _, f := range files { // Quick sanity check
 		if f != outFile {
 			newFiles = append(newFiles, f)
-			continue
 		}
-		if *force {
-			log.Printf("%v already exists. Overwriting due to -f flag.", outFile)
-		} else {
+	}
+	if len(newFiles) == 0 {
+		log.Fatalf("No files found matching %v*.binvox", *prefix)
+	}
+	if _, err := os.Stat(outFile); err == nil {
+		if !*force {
 			log.Fatalf("%v already exists. To overwrite, use -f flag.", outFile)
 		}
+		log.Printf("%v already exists. Overwriting due to -f flag.", outFile)
+	} else if !os.IsNotExist(err) {
+		log.Fatalf("Unable to check %v: %v", outFile, err)
 	}
 
 	log.Printf("Merging %v binvox files into %v...", len(newFiles), outFile)
-- 
2.43.0


From ef66d7afa0c9d7404504d2f0e007383bac620b2e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:25:15 +0000
Subject: [PATCH 24/53] fix: merge-stl: find an existing output file and
 missing inputs

---
 cmd/merge-stl/merge-stl.go | 15 ++++++++++-----
 1 file changed, 10 insertions(+), 5 deletions(-)

diff --git a/cmd/merge-stl/merge-stl.go b/cmd/merge-stl/merge-stl.go
index 2b86a6d..3d87d43 100644
--- a/cmd/merge-stl/merge-stl.go
+++ b/cmd/merge-stl/merge-stl.go
@@ -30,18 +30,23 @@ func main() {
 	if err != nil {
 		log.Fatalf("No files found matching %v*.stl", *prefix)
 	}
-	outFile := *prefix + ".stl"
+	outFile := filepath.Clean(*prefix + ".stl") // as returned by Glob
 	var newFiles []string
 	for _, f := range files { // Quick sanity check
 		if f != outFile {
 			newFiles = append(newFiles, f)
-			continue
 		}
-		if *force {
-			log.Printf("%v already exists. Overwriting due to -f flag.", outFile)
-		} else {
+	}
+	if len(newFiles) == 0 {
+		log.Fatalf("No files found matching %v*.stl", *prefix)
+	}
+	if _, err := os.Stat(outFile); err == nil {
+		if !*force {
 			log.Fatalf("%v already exists. To overwrite, use -f flag.", outFile)
 		}
+		log.Printf("%v already exists. Overwriting due to -f flag.", outFile)
+	} else if !os.IsNotExist(err) {
+		log.Fatalf("Unable to check %v: %v", outFile, err)
 	}
 
 	log.Printf("Merging %v STL files into %v using %v workers...", len(newFiles), outFile, *numWorkers)
-- 
2.43.0


From ebe129d1b6afea66a9a1df3052c374c4ac5b78e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:25:17 +0000
Subject: [PATCH 25/53] fix: stl: guard the error of concurrent merges

---
 stl/stl.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/stl/stl.go b/stl/stl.go
index d004dfb..2cc1f7c 100644
--- a/stl/stl.go
+++ b/stl/stl.go
@@ -13,7 +13,7 @@ func Merge(files []string, numWorkers int) (mesh *gl.Mesh, err error) {
 	var wg sync.WaitGroup
 	ch := make(chan struct{}, numWorkers)
 
-	var mu sync.Mutex // protects mesh
+	var mu sync.Mutex // protects mesh and mergeErr
 	addFunc := func(meshToAdd *gl.Mesh) {
 		mu.Lock()
 		if mesh == nil {
@@ -30,7 +30,9 @@ func Merge(files []string, numWorkers int) (mesh *gl.Mesh, err error) {
 		wg.Add(1)
 		go func(filename string) {
 			if err := merge(filename, addFunc); err != nil {
+				mu.Lock()
 				mergeErr = err
+				mu.Unlock()
 			}
 			<-ch // release a worker
 			wg.Done()
-- 
2.43.0


From d69e30fe6bc649bfdcc84baf8bda34bb54ec172d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:25:19 +0000
Subject: [PATCH 26/53] fix: stl: merge with at least one worker

---
 stl/stl.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/stl/stl.go b/stl/stl.go
index 2cc1f7c..b2892b3 100644
--- a/stl/stl.go
+++ b/stl/stl.go
@@ -10,6 +10,9 @@ import (
 
 // Merge merges the STL files using a worker pool of numWorkers.
 func Merge(files []string, numWorkers int) (mesh *gl.Mesh, err error) {
+	if numWorkers < 1 {
+		numWorkers = 1
+	}
 	var wg sync.WaitGroup
 	ch := make(chan struct{}, numWorkers)
 
-- 
2.43.0


From 76bf697bed4cfff7366130891faae2c82ce77713 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:26:47 +0000
Subject: [PATCH 27/53] fix: stl2svx: accept triangles with missing vertices

---
 stl2svx/stl/stl.go | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/stl2svx/stl/stl.go b/stl2svx/stl/stl.go
index f243bce..b42d371 100644
--- a/stl2svx/stl/stl.go
+++ b/stl2svx/stl/stl.go
@@ -32,9 +32,9 @@ func New(p *pb.STLFile, dim, nX, nY, nZ int64) (*STL, error) {
 	var tris []*gl.Triangle
 	for _, t := range p.GetTriangles() {
 		tris = append(tris, gl.NewTriangleForPoints(
-			gl.V(t.V1.X, t.V1.Y, t.V1.Z),
-			gl.V(t.V2.X, t.V2.Y, t.V2.Z),
-			gl.V(t.V3.X, t.V3.Y, t.V3.Z)))
+			gl.V(t.GetV1().GetX(), t.GetV1().GetY(), t.GetV1().GetZ()),
+			gl.V(t.GetV2().GetX(), t.GetV2().GetY(), t.GetV2().GetZ()),
+			gl.V(t.GetV3().GetX(), t.GetV3().GetY(), t.GetV3().GetZ())))
 	}
 	mesh := gl.NewTriangleMesh(tris)
 	mbb := mesh.BoundingBox()
-- 
2.43.0


From 3c2e4bf785f78ed12401fcee149648573ceb6356 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:26:50 +0000
Subject: [PATCH 28/53] fix: stl2svx: reject jobs with unusable dimensions

---
 stl2svx/stl/stl.go | 19 ++++++++++++-------
 1 file changed, 12 insertions(+), 7 deletions(-)

diff --git a/stl2svx/stl/stl.go b/stl2svx/stl/stl.go
index b42d371..0aa9cf9 100644
--- a/stl2svx/stl/stl.go
+++ b/stl2svx/stl/stl.go
@@ -9,6 +9,8 @@ import (
 	pb "github.com/gmlewis/stldice/v4/stl2svx/proto"
 )
 
+const maxDim = 1 << 16 // largest number of voxels (and image pixels) in one dimension
+
 // STL represents a converted STL file to a mesh.
 type STL struct {
 	// MBB is the minimum bounding box for the entire STL file.
@@ -29,6 +31,9 @@ type STL struct {
 // dim represents the number of voxels in the widest dimension.
 // nX, nY, nZ represent the number of subdivisions in each dimension.
 func New(p *pb.STLFile, dim, nX, nY, nZ int64) (*STL, error) {
+	if dim < 1 || dim > maxDim || nX < 1 || nY < 1 || nZ < 1 {
+		return nil, fmt.Errorf("invalid parameters: dim=%v, divisions=(%v,%v,%v)", dim, nX, nY, nZ)
+	}
 	var tris []*gl.Triangle
 	for _, t := range p.GetTriangles() {
 		tris = append(tris, gl.NewTriangleForPoints(
@@ -55,17 +60,17 @@ func New(p *pb.STLFile, dim, nX, nY, nZ int64) (*STL, error) {
 	dimX := newModelDimX / int(nX)
 	dimY := newModelDimY / int(nY)
 	dimZ := newModelDimZ / int(nZ)
-	if dimX == 0 || dimY == 0 || dimZ == 0 {
+	if dimX <= 0 || dimY <= 0 || dimZ <= 0 {
 		return nil, fmt.Errorf("too many divisions: region dimensions = (%v,%v,%v)", dimX, dimY, dimZ)
 	}
-	maxDim := dimX
-	if dimY > maxDim {
-		maxDim = dimY
+	subregionDim := dimX
+	if dimY > subregionDim {
+		subregionDim = dimY
 	}
-	if dimZ > maxDim {
-		maxDim = dimZ
+	if dimZ > subregionDim {
+		subregionDim = dimZ
 	}
-	subregionScale := float64(maxDim) * mmpv
+	subregionScale := float64(subregionDim) * mmpv
 
 	return &STL{
 		MBB:       mbb,
-- 
2.43.0


From 0336ee24a60589caed1538dab5b22c00b29309e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:26:52 +0000
Subject: [PATCH 29/53] fix: stl2svx: cover the whole model when the divisions
 are uneven

---
 stl2svx/stl/stl.go | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/stl2svx/stl/stl.go b/stl2svx/stl/stl.go
index 0aa9cf9..f9ecb9a 100644
--- a/stl2svx/stl/stl.go
+++ b/stl2svx/stl/stl.go
@@ -57,12 +57,13 @@ func New(p *pb.STLFile, dim, nX, nY, nZ int64) (*STL, error) {
 	newModelDimX := int(math.Ceil(modelDimInMM.X * vpmm))
 	newModelDimY := int(math.Ceil(modelDimInMM.Y * vpmm))
 	newModelDimZ := int(math.Ceil(modelDimInMM.Z * vpmm))
-	dimX := newModelDimX / int(nX)
-	dimY := newModelDimY / int(nY)
-	dimZ := newModelDimZ / int(nZ)
-	if dimX <= 0 || dimY <= 0 || dimZ <= 0 {
-		return nil, fmt.Errorf("too many divisions: region dimensions = (%v,%v,%v)", dimX, dimY, dimZ)
+	if newModelDimX < int(nX) || newModelDimY < int(nY) || newModelDimZ < int(nZ) {
+		return nil, fmt.Errorf("too many divisions: model dimensions = (%v,%v,%v)", newModelDimX, newModelDimY, newModelDimZ)
 	}
+	// Round up so that the regions cover the whole model.
+	dimX := (newModelDimX + int(nX) - 1) / int(nX)
+	dimY := (newModelDimY + int(nY) - 1) / int(nY)
+	dimZ := (newModelDimZ + int(nZ) - 1) / int(nZ)
 	subregionDim := dimX
 	if dimY > subregionDim {
 		subregionDim = dimY
-- 
2.43.0


From 45c45212390de8f93a3cc3046a3c7afe33cf25df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:26:54 +0000
Subject: [PATCH 30/53] fix: stl2svx: return an error instead of exiting on a
 bad STL file

---
 stl2svx/agent/agent.go | 25 +++++++++++++++----------
 1 file changed, 15 insertions(+), 10 deletions(-)

diff --git a/stl2svx/agent/agent.go b/stl2svx/agent/agent.go
index 6b237ba..90537c0 100644
--- a/stl2svx/agent/agent.go
+++ b/stl2svx/agent/agent.go
@@ -96,18 +96,23 @@ type bvInfo struct {
 // through the provided channel.
 // dimZ is the number of agents needed to output the images.
 func generateMR(in *pb.SliceJobRequest) (ch chan *bvInfo, err error) {
+	job := in.GetNewJobRequest()
+	if len(job.GetStlFiles()) == 0 {
+		return nil, fmt.Errorf("Must pass at least one STL file to SliceJob")
+	}
+	var stlMeshes []*stl.STL
+	for i, stlFile := range job.GetStlFiles() {
+		stlMesh, err := stl.New(stlFile, job.GetDim(), job.GetNX(), job.GetNY(), job.GetNZ())
+		if err != nil {
+			return nil, fmt.Errorf("STL file #%v: %v", i, err)
+		}
+		stlMeshes = append(stlMeshes, stlMesh)
+	}
+
 	ch = make(chan *bvInfo)
 	go func() {
-		job := in.GetNewJobRequest()
-		var base *stl.STL
-		for i, stlFile := range job.GetStlFiles() {
-			stlMesh, err := stl.New(stlFile, job.GetDim(), job.GetNX(), job.GetNY(), job.GetNZ())
-			if err != nil {
-				log.Fatalf("stl.New: %v", err)
-			}
-			if i == 0 {
-				base = stlMesh
-			}
+		base := stlMeshes[0]
+		for i, stlMesh := range stlMeshes {
 			log.Printf("generateMR: i=%v, %v triangles", i, len(stlMesh.Mesh.Triangles))
 
 			// Now dice it up.
-- 
2.43.0


From 52988f0021d0fa89d1da8136b5ff7c5cf668e12e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:26:56 +0000
Subject: [PATCH 31/53] fix: stl2svx: process every slice of a job with several
 z divisions

---
 stl2svx/agent/agent.go   | 8 ++++++--
 stl2svx/master/master.go | 6 +++---
 2 files changed, 9 insertions(+), 5 deletions(-)

diff --git a/stl2svx/agent/agent.go b/stl2svx/agent/agent.go
index 90537c0..480123d 100644
--- a/stl2svx/agent/agent.go
+++ b/stl2svx/agent/agent.go
@@ -156,7 +156,10 @@ type voxelInfo struct {
 // then sends them to the imager.
 func voxelize(bvi *bvInfo, zi int, ch chan<- voxelInfo) {
 	bv := bvi.bv
-	if err := bv.VoxelizeZ(bvi.mesh, zi); err != nil {
+	if zi < bvi.dz || zi >= bvi.dz+bv.NZ {
+		return // this region does not contain the slice.
+	}
+	if err := bv.VoxelizeZ(bvi.mesh, zi-bvi.dz); err != nil {
 		log.Printf("voxelize(%v): %v", zi, err)
 		return
 	}
@@ -172,7 +175,8 @@ func voxelize(bvi *bvInfo, zi int, ch chan<- voxelInfo) {
 		k.Y += bvi.dy
 		k.Z += bvi.dz
 		if zi != k.Z {
-			log.Fatalf("voxelize(%v): k{%v,%v,%v} does not match zi=%v", zi, k.X, k.Y, k.Z, zi)
+			log.Printf("voxelize(%v): k{%v,%v,%v} does not match zi=%v", zi, k.X, k.Y, k.Z, zi)
+			return
 		}
 		if k.X < 0 || k.Y < 0 || k.Z < 0 {
 			return // common for a cut to extend beyond the bounds of the base.
diff --git a/stl2svx/master/master.go b/stl2svx/master/master.go
index adf15dc..7ce6a52 100644
--- a/stl2svx/master/master.go
+++ b/stl2svx/master/master.go
@@ -53,7 +53,7 @@ func (m *master) NewJob(ctx context.Context, in *pb.NewJobRequest) (*pb.NewJobRe
 	m.writeBlankImages(in, base)
 
 	var wg sync.WaitGroup
-	for z := 0; z < base.DimZ; z++ {
+	for z := 0; z < base.ModelDimZ; z++ {
 		wg.Add(1)
 		go func(z int) {
 			m.runAgent(ctx, in, z)
@@ -142,7 +142,7 @@ func (m *master) getIdleAgent() string {
 
 func (m *master) writeManifest(in *pb.NewJobRequest, base *stl.STL) error {
 	const outFile = "manifest.xml"
-	log.Printf("Writing file %v ... need %v agents for job...", outFile, base.DimZ)
+	log.Printf("Writing file %v ... need %v agents for job...", outFile, base.ModelDimZ)
 	m.zmu.Lock()
 	defer m.zmu.Unlock()
 	mf, err := m.zipFile.Create(outFile)
@@ -177,5 +177,5 @@ func (m *master) writeBlankImages(in *pb.NewJobRequest, base *stl.STL) {
 		}
 	}
 	outf(fmt.Sprintf("%v/out-%v-%v-%v-%v-%04d.png", in.GetDim(), in.GetDim(), in.GetNX(), in.GetNY(), in.GetNZ(), 0))
-	outf(fmt.Sprintf("%v/out-%v-%v-%v-%v-%04d.png", in.GetDim(), in.GetDim(), in.GetNX(), in.GetNY(), in.GetNZ(), base.DimZ+1))
+	outf(fmt.Sprintf("%v/out-%v-%v-%v-%v-%04d.png", in.GetDim(), in.GetDim(), in.GetNX(), in.GetNY(), in.GetNZ(), base.ModelDimZ+1))
 }
-- 
2.43.0


From db0f13a729029a4cc4889a4461da07f894f996c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:26:59 +0000
Subject: [PATCH 32/53] fix: stl2svx: keep concurrent jobs out of each other's
 archive

---
 stl2svx/master/master.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/stl2svx/master/master.go b/stl2svx/master/master.go
index 7ce6a52..968e4fb 100644
--- a/stl2svx/master/master.go
+++ b/stl2svx/master/master.go
@@ -29,6 +29,8 @@ type master struct {
 	amu        sync.Mutex          // protects agents and idleAgents
 	idleAgents map[string]struct{} // just a map of idle agents
 
+	jmu sync.Mutex // serializes jobs because they share zipFile
+
 	zmu     sync.Mutex  // protects zipFile
 	zipFile *zip.Writer // resulting SVX file
 }
@@ -46,6 +48,9 @@ func (m *master) NewJob(ctx context.Context, in *pb.NewJobRequest) (*pb.NewJobRe
 		return nil, err
 	}
 
+	m.jmu.Lock()
+	defer m.jmu.Unlock()
+
 	var zbuf bytes.Buffer
 	m.zipFile = zip.NewWriter(&zbuf)
 
-- 
2.43.0


From 6a68c58f8a674211a38088c151f9e43a39382197 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:27:01 +0000
Subject: [PATCH 33/53] fix: stl2svx: name the slice images as the manifest
 does

---
 stl2svx/master/master.go | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/stl2svx/master/master.go b/stl2svx/master/master.go
index 968e4fb..1503a5c 100644
--- a/stl2svx/master/master.go
+++ b/stl2svx/master/master.go
@@ -112,7 +112,7 @@ func (m *master) runAgent(ctx context.Context, in *pb.NewJobRequest, z int) {
 	m.amu.Unlock()
 
 	// Write the PNG to the zip file.
-	outFile := fmt.Sprintf("%v/out-%v-%v-%v-%v-%04d.png", in.GetDim(), in.GetDim(), in.GetNX(), in.GetNY(), in.GetNZ(), z+1)
+	outFile := fmt.Sprintf("%v/%v-%v-%v-%v-%v-%04d.png", in.GetDim(), in.GetOutPrefix(), in.GetDim(), in.GetNX(), in.GetNY(), in.GetNZ(), z+1)
 
 	log.Printf("runAgent(%v): writing %v to zip file...", z, outFile)
 	m.zmu.Lock()
@@ -181,6 +181,6 @@ func (m *master) writeBlankImages(in *pb.NewJobRequest, base *stl.STL) {
 			log.Printf("error: %v", err)
 		}
 	}
-	outf(fmt.Sprintf("%v/out-%v-%v-%v-%v-%04d.png", in.GetDim(), in.GetDim(), in.GetNX(), in.GetNY(), in.GetNZ(), 0))
-	outf(fmt.Sprintf("%v/out-%v-%v-%v-%v-%04d.png", in.GetDim(), in.GetDim(), in.GetNX(), in.GetNY(), in.GetNZ(), base.ModelDimZ+1))
+	outf(fmt.Sprintf("%v/%v-%v-%v-%v-%v-%04d.png", in.GetDim(), in.GetOutPrefix(), in.GetDim(), in.GetNX(), in.GetNY(), in.GetNZ(), 0))
+	outf(fmt.Sprintf("%v/%v-%v-%v-%v-%v-%04d.png", in.GetDim(), in.GetOutPrefix(), in.GetDim(), in.GetNX(), in.GetNY(), in.GetNZ(), base.ModelDimZ+1))
 }
-- 
2.43.0


From dd79f7302358dc4b5e8d439689a41ca01163edc7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:27:03 +0000
Subject: [PATCH 34/53] fix: stl2svx: report a failure to write the manifest or
 a blank image

---
 stl2svx/master/master.go | 31 ++++++++++++++++++-------------
 1 file changed, 18 insertions(+), 13 deletions(-)

diff --git a/stl2svx/master/master.go b/stl2svx/master/master.go
index 1503a5c..0ffd34f 100644
--- a/stl2svx/master/master.go
+++ b/stl2svx/master/master.go
@@ -54,8 +54,12 @@ func (m *master) NewJob(ctx context.Context, in *pb.NewJobRequest) (*pb.NewJobRe
 	var zbuf bytes.Buffer
 	m.zipFile = zip.NewWriter(&zbuf)
 
-	m.writeManifest(in, base)
-	m.writeBlankImages(in, base)
+	if err := m.writeManifest(in, base); err != nil {
+		return nil, fmt.Errorf("unable to write manifest: %v", err)
+	}
+	if err := m.writeBlankImages(in, base); err != nil {
+		return nil, fmt.Errorf("unable to write blank image: %v", err)
+	}
 
 	var wg sync.WaitGroup
 	for z := 0; z < base.ModelDimZ; z++ {
@@ -154,33 +158,34 @@ func (m *master) writeManifest(in *pb.NewJobRequest, base *stl.STL) error {
 	if err != nil {
 		return err
 	}
-	fmt.Fprintf(mf, `<?xml version="1.0"?>
+	if _, err := fmt.Fprintf(mf, `<?xml version="1.0"?>
 <grid version="1.0" gridSizeX="%v" gridSizeY="%v" gridSizeZ="%v" voxelSize="%v" subvoxelBits="8" originX="%v" originY="%v" originZ="%v" slicesOrientation="Y" >
   <channels>
     <channel type="DENSITY" bits="8" slices="%v/%v-%v-%v-%v-%v-%%04d.png" />
   </channels>
 </grid>
-`, base.ModelDimX+2, base.ModelDimZ+2, base.ModelDimY+2, base.MMPV*1e-3, base.MBB.Min.X, base.MBB.Min.Z, base.MBB.Min.Y, in.GetDim(), in.GetOutPrefix(), in.GetDim(), in.GetNX(), in.GetNY(), in.GetNZ())
+`, base.ModelDimX+2, base.ModelDimZ+2, base.ModelDimY+2, base.MMPV*1e-3, base.MBB.Min.X, base.MBB.Min.Z, base.MBB.Min.Y, in.GetDim(), in.GetOutPrefix(), in.GetDim(), in.GetNX(), in.GetNY(), in.GetNZ()); err != nil {
+		return err
+	}
 	return nil
 }
 
-func (m *master) writeBlankImages(in *pb.NewJobRequest, base *stl.STL) {
+func (m *master) writeBlankImages(in *pb.NewJobRequest, base *stl.STL) error {
 	// For Shapeways, create a black base and a black top.
 	rect := image.Rect(0, 0, int(in.GetDim()+2), int(in.GetDim()+2))
 	img := image.NewGray(rect)
 	draw.Draw(img, rect, image.Black, image.ZP, draw.Over)
 	m.zmu.Lock()
 	defer m.zmu.Unlock()
-	outf := func(fn string) {
+	outf := func(fn string) error {
 		f, err := m.zipFile.Create(fn)
 		if err != nil {
-			log.Printf("error: %v", err)
-			return
-		}
-		if err := png.Encode(f, img); err != nil {
-			log.Printf("error: %v", err)
+			return err
 		}
+		return png.Encode(f, img)
+	}
+	if err := outf(fmt.Sprintf("%v/%v-%v-%v-%v-%v-%04d.png", in.GetDim(), in.GetOutPrefix(), in.GetDim(), in.GetNX(), in.GetNY(), in.GetNZ(), 0)); err != nil {
+		return err
 	}
-	outf(fmt.Sprintf("%v/%v-%v-%v-%v-%v-%04d.png", in.GetDim(), in.GetOutPrefix(), in.GetDim(), in.GetNX(), in.GetNY(), in.GetNZ(), 0))
-	outf(fmt.Sprintf("%v/%v-%v-%v-%v-%v-%04d.png", in.GetDim(), in.GetOutPrefix(), in.GetDim(), in.GetNX(), in.GetNY(), in.GetNZ(), base.ModelDimZ+1))
+	return outf(fmt.Sprintf("%v/%v-%v-%v-%v-%v-%04d.png", in.GetDim(), in.GetOutPrefix(), in.GetDim(), in.GetNX(), in.GetNY(), in.GetNZ(), base.ModelDimZ+1))
 }
-- 
2.43.0


From 5bfa62ba458a85bbe47ed3604e54731ac953f297 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:27:06 +0000
Subject: [PATCH 35/53] fix: stl2svx: report a job with a failed slice as
 failed

---
 stl2svx/master/master.go | 19 ++++++++++++-------
 1 file changed, 12 insertions(+), 7 deletions(-)

diff --git a/stl2svx/master/master.go b/stl2svx/master/master.go
index 0ffd34f..9fb7265 100644
--- a/stl2svx/master/master.go
+++ b/stl2svx/master/master.go
@@ -62,14 +62,20 @@ func (m *master) NewJob(ctx context.Context, in *pb.NewJobRequest) (*pb.NewJobRe
 	}
 
 	var wg sync.WaitGroup
+	errs := make([]error, base.ModelDimZ) // one per slice
 	for z := 0; z < base.ModelDimZ; z++ {
 		wg.Add(1)
 		go func(z int) {
-			m.runAgent(ctx, in, z)
+			errs[z] = m.runAgent(ctx, in, z)
 			wg.Done()
 		}(z)
 	}
 	wg.Wait()
+	for z, err := range errs {
+		if err != nil {
+			return nil, fmt.Errorf("slice z=%v: %v", z, err)
+		}
+	}
 
 	if err := m.zipFile.Close(); err != nil {
 		return nil, err
@@ -89,7 +95,7 @@ func (m *master) RegisterAgent(ctx context.Context, in *pb.RegisterAgentRequest)
 }
 
 // runAgent runs the agent on the given z slice.
-func (m *master) runAgent(ctx context.Context, in *pb.NewJobRequest, z int) {
+func (m *master) runAgent(ctx context.Context, in *pb.NewJobRequest, z int) error {
 	req := &pb.SliceJobRequest{NewJobRequest: in, Z: int64(z)}
 	var conn *grpc.ClientConn
 	var address string
@@ -108,8 +114,7 @@ func (m *master) runAgent(ctx context.Context, in *pb.NewJobRequest, z int) {
 	c := pb.NewAgentClient(conn)
 	resp, err := c.SliceJob(ctx, req)
 	if err != nil {
-		log.Printf("Error running SliceJob with agent %v: %v", address, err)
-		return
+		return fmt.Errorf("error running SliceJob with agent %v: %v", address, err)
 	}
 	m.amu.Lock()
 	m.idleAgents[address] = struct{}{} // Mark agent as idle
@@ -123,12 +128,12 @@ func (m *master) runAgent(ctx context.Context, in *pb.NewJobRequest, z int) {
 	defer m.zmu.Unlock()
 	f, err := m.zipFile.Create(outFile)
 	if err != nil {
-		log.Printf("runAgent(%v) error: %v", z, err)
-		return
+		return err
 	}
 	if _, err := f.Write(resp.GetPngFile()); err != nil {
-		log.Printf("runAgent(%v) error: %v", z, err)
+		return err
 	}
+	return nil
 }
 
 // getIdleAgent sits in a loop waiting for an agent to become idle, then marks it busy and returns its address.
-- 
2.43.0


From 8339282dfeca691aff88272de7909765f6175201 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:27:08 +0000
Subject: [PATCH 36/53] fix: stl2svx-server: exit with an error when serving
 fails

---
 stl2svx/stl2svx-server/stl2svx-server.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/stl2svx/stl2svx-server/stl2svx-server.go b/stl2svx/stl2svx-server/stl2svx-server.go
index c916a7d..b2f4eec 100644
--- a/stl2svx/stl2svx-server/stl2svx-server.go
+++ b/stl2svx/stl2svx-server/stl2svx-server.go
@@ -47,7 +47,9 @@ func main() {
 		}
 		pb.RegisterAgentServer(s, agent)
 	}
-	s.Serve(lis)
+	if err := s.Serve(lis); err != nil {
+		log.Fatalf("serve: %v", err)
+	}
 }
 
 func getAddress(tcpAddr *net.TCPAddr) string {
-- 
2.43.0


From aa1ddadbcecf8829740f74aadb0aa45463814874 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:28:09 +0000
Subject: [PATCH 37/53] fix: stldice-slave: return the mesh that was asked for

---
 server/stldice-slave/stldice-slave.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/server/stldice-slave/stldice-slave.go b/server/stldice-slave/stldice-slave.go
index 0efa300..d3418d4 100644
--- a/server/stldice-slave/stldice-slave.go
+++ b/server/stldice-slave/stldice-slave.go
@@ -125,7 +125,7 @@ func (s *server) GetSTLMesh(ctx context.Context, in *pb.GetSTLMeshRequest) (*pb.
 			return nil, err
 		}
 	}
-	return &pb.GetSTLMeshReply{}, nil
+	return &pb.GetSTLMeshReply{StlFile: buf.Bytes()}, nil
 }
 
 func main() {
-- 
2.43.0


From 8dd67502f7254874577ea2c7b4d19c335bce38d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:28:11 +0000
Subject: [PATCH 38/53] fix: stldice-slave: return an error for operations that
 are not implemented

---
 server/stldice-slave/stldice-slave.go | 16 ++++++++++++----
 1 file changed, 12 insertions(+), 4 deletions(-)

diff --git a/server/stldice-slave/stldice-slave.go b/server/stldice-slave/stldice-slave.go
index d3418d4..52d07a8 100644
--- a/server/stldice-slave/stldice-slave.go
+++ b/server/stldice-slave/stldice-slave.go
@@ -6,6 +6,7 @@ import (
 	"bufio"
 	"bytes"
 	"encoding/binary"
+	"errors"
 	"flag"
 	"fmt"
 	"io"
@@ -53,7 +54,10 @@ func (s *server) AddSTLMesh(ctx context.Context, in *pb.AddSTLMeshRequest) (*pb.
 
 	// If there already is a model on disk, load it, add the newly-generated voxels to it, then save it back out,
 	// overwriting the old version.
-	newBase := voxelOp(base, addBV, true)
+	newBase, err := voxelOp(base, addBV, true)
+	if err != nil {
+		return nil, err
+	}
 	if err := newBase.Write(modelFilename, 0, 0, 0, 0, 0, 0); err != nil {
 		return nil, err
 	}
@@ -81,7 +85,10 @@ func (s *server) SubSTLMesh(ctx context.Context, in *pb.SubSTLMeshRequest) (*pb.
 	}
 
 	// Cut the base model with this mesh, then save it back out, overwriting the old version.
-	newBase := voxelOp(base, subBV, false)
+	newBase, err := voxelOp(base, subBV, false)
+	if err != nil {
+		return nil, err
+	}
 	if err := newBase.Write(modelFilename, 0, 0, 0, 0, 0, 0); err != nil {
 		return nil, err
 	}
@@ -224,6 +231,7 @@ func voxelize(voxelRegion *pb.VoxelRegion, mesh *gl.Mesh) (*binvox.BinVOX, error
 }
 
 // voxelOp performs a boolean union or a boolean difference on the two meshes and returns the result.
-func voxelOp(base, opVoxels *binvox.BinVOX, union bool) *binvox.BinVOX {
-	return nil
+func voxelOp(base, opVoxels *binvox.BinVOX, union bool) (*binvox.BinVOX, error) {
+	// TODO(gmlewis): write this.
+	return nil, errors.New("voxelOp: not implemented")
 }
-- 
2.43.0


From f09479711ba7861dbc38b4f5ef69582ce32be4cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:28:14 +0000
Subject: [PATCH 39/53] fix: stldice-slave: reject an STL file with an
 incomplete triangle

---
 server/stldice-slave/stldice-slave.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/server/stldice-slave/stldice-slave.go b/server/stldice-slave/stldice-slave.go
index 52d07a8..a82d9f1 100644
--- a/server/stldice-slave/stldice-slave.go
+++ b/server/stldice-slave/stldice-slave.go
@@ -189,6 +189,9 @@ func loadSTLA(r io.Reader) (*gl.Mesh, error) {
 			vertexes = append(vertexes, gl.Vector{f[0], f[1], f[2]})
 		}
 	}
+	if len(vertexes)%3 != 0 {
+		return nil, fmt.Errorf("number of STL vertices (%v) is not a multiple of three", len(vertexes))
+	}
 	var triangles []*gl.Triangle
 	for i := 0; i < len(vertexes); i += 3 {
 		t := gl.Triangle{}
-- 
2.43.0


From cf83503c1be0df9c00cacdb3967897e2fe64e9a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:28:16 +0000
Subject: [PATCH 40/53] fix: stldice-master: exit with an error when serving
 fails

---
 server/stldice-master/stldice-master.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/server/stldice-master/stldice-master.go b/server/stldice-master/stldice-master.go
index cf892de..5f44aa9 100644
--- a/server/stldice-master/stldice-master.go
+++ b/server/stldice-master/stldice-master.go
@@ -43,5 +43,7 @@ func main() {
 	}
 	s := grpc.NewServer()
 	pb.RegisterSTLDiceServer(s, &server{})
-	s.Serve(lis)
+	if err := s.Serve(lis); err != nil {
+		log.Fatalf("serve: %v", err)
+	}
 }
-- 
2.43.0


From 2b4afca37559e1151249484622126f16277dca23 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:28:18 +0000
Subject: [PATCH 41/53] fix: stldice-slave: exit with an error when serving
 fails

---
 server/stldice-slave/stldice-slave.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/server/stldice-slave/stldice-slave.go b/server/stldice-slave/stldice-slave.go
index a82d9f1..43f0257 100644
--- a/server/stldice-slave/stldice-slave.go
+++ b/server/stldice-slave/stldice-slave.go
@@ -142,7 +142,9 @@ func main() {
 	}
 	s := grpc.NewServer()
 	pb.RegisterSTLDiceServer(s, &server{})
-	s.Serve(lis)
+	if err := s.Serve(lis); err != nil {
+		log.Fatalf("serve: %v", err)
+	}
 }
 
 // filename returns the model filename for the given VoxelRegion.
-- 
2.43.0


From 66f2c1f35d5d25364de2cd993510a4ace4b99120 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:28:20 +0000
Subject: [PATCH 42/53] fix: stldice: cover the whole model when the divisions
 are uneven

---
 cmd/stldice/stldice.go | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/cmd/stldice/stldice.go b/cmd/stldice/stldice.go
index 030334e..83b40d3 100644
--- a/cmd/stldice/stldice.go
+++ b/cmd/stldice/stldice.go
@@ -134,12 +134,13 @@ func diceMesh(mesh *gl.Mesh, mbb *gl.Box, scale float64, dim, nx, ny, nz int, ou
 	log.Printf("number of voxels needed along each axis to cover entire model: [%v,%v,%v]", newModelDimX, newModelDimY, newModelDimZ)
 
 	// subregion dimensions
-	dimX := newModelDimX / nx
-	dimY := newModelDimY / ny
-	dimZ := newModelDimZ / nz
-	if dimX == 0 || dimY == 0 || dimZ == 0 {
-		return nil, fmt.Errorf("too many divisions: region dimensions = (%v,%v,%v)", dimX, dimY, dimZ)
+	if newModelDimX < nx || newModelDimY < ny || newModelDimZ < nz {
+		return nil, fmt.Errorf("too many divisions: model dimensions = (%v,%v,%v)", newModelDimX, newModelDimY, newModelDimZ)
 	}
+	// Round up so that the regions cover the whole model.
+	dimX := (newModelDimX + nx - 1) / nx
+	dimY := (newModelDimY + ny - 1) / ny
+	dimZ := (newModelDimZ + nz - 1) / nz
 
 	maxDim := dimX
 	if dimY > maxDim {
-- 
2.43.0


From 53e8ed3393c3079685906a5ecaa3a9411941c4de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:28:23 +0000
Subject: [PATCH 43/53] fix: stldice-mr: cover the whole model when the
 divisions are uneven

---
 cmd/stldice-mr/stldice-mr.go | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/cmd/stldice-mr/stldice-mr.go b/cmd/stldice-mr/stldice-mr.go
index 979da4a..ed654c6 100644
--- a/cmd/stldice-mr/stldice-mr.go
+++ b/cmd/stldice-mr/stldice-mr.go
@@ -112,12 +112,13 @@ func generateMR(args []string) (chan interface{}, error) {
 				newModelDimX := int(math.Ceil(modelDimInMM.X * vpmm))
 				newModelDimY := int(math.Ceil(modelDimInMM.Y * vpmm))
 				newModelDimZ := int(math.Ceil(modelDimInMM.Z * vpmm))
-				dimX = newModelDimX / *nX
-				dimY = newModelDimY / *nY
-				dimZ = newModelDimZ / *nZ
-				if dimX == 0 || dimY == 0 || dimZ == 0 {
-					log.Fatalf("too many divisions: region dimensions = (%v,%v,%v)", dimX, dimY, dimZ)
+				if newModelDimX < *nX || newModelDimY < *nY || newModelDimZ < *nZ {
+					log.Fatalf("too many divisions: model dimensions = (%v,%v,%v)", newModelDimX, newModelDimY, newModelDimZ)
 				}
+				// Round up so that the regions cover the whole model.
+				dimX = (newModelDimX + *nX - 1) / *nX
+				dimY = (newModelDimY + *nY - 1) / *nY
+				dimZ = (newModelDimZ + *nZ - 1) / *nZ
 				maxDim := dimX
 				if dimY > maxDim {
 					maxDim = dimY
-- 
2.43.0


From c4155ac88aa8adb25b3b9f5c39cc2f30c837576e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:28:25 +0000
Subject: [PATCH 44/53] fix: stldice: process regions that were diced by an
 earlier run

---
 cmd/stldice/stldice.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/cmd/stldice/stldice.go b/cmd/stldice/stldice.go
index 83b40d3..a84e32d 100644
--- a/cmd/stldice/stldice.go
+++ b/cmd/stldice/stldice.go
@@ -162,6 +162,7 @@ func diceMesh(mesh *gl.Mesh, mbb *gl.Box, scale float64, dim, nx, ny, nz int, ou
 				outFile := newPrefix + ".binvox"
 				if _, err := os.Stat(outFile); err == nil || os.IsExist(err) {
 					log.Printf("Skipping writing existing file %v", outFile)
+					prefixes = append(prefixes, strings.TrimPrefix(newPrefix, outPrefix))
 					continue
 				}
 
-- 
2.43.0


From f53e23e33e74884e7b9b506d6d1f4c42cf7589a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:28:28 +0000
Subject: [PATCH 45/53] fix: stldice-mr: close the image when encoding fails

---
 cmd/stldice-mr/stldice-mr.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/cmd/stldice-mr/stldice-mr.go b/cmd/stldice-mr/stldice-mr.go
index ed654c6..be1e1d1 100644
--- a/cmd/stldice-mr/stldice-mr.go
+++ b/cmd/stldice-mr/stldice-mr.go
@@ -271,6 +271,7 @@ func imager(row []interface{}) error {
 	}
 	log.Printf("Writing file %v ...", outFile)
 	if err := png.Encode(f, img); err != nil {
+		f.Close()
 		return err
 	}
 	if err := f.Close(); err != nil {
-- 
2.43.0


From 84c804fcdcb8f102f7c0a781deb0ce815665bb32 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:28:30 +0000
Subject: [PATCH 46/53] fix: svx2stl: close archive entries that cannot be used

---
 cmd/svx2stl/main.go | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/cmd/svx2stl/main.go b/cmd/svx2stl/main.go
index 833b2af..7e4c0e3 100644
--- a/cmd/svx2stl/main.go
+++ b/cmd/svx2stl/main.go
@@ -68,23 +68,24 @@ func read(filename string) (*binvox.BinVOX, error) {
 
 		if f.Name == "manifest.xml" {
 			model, sliceNameFmt, err = parseManifest(rc)
+			rc.Close()
 			if err != nil {
 				return nil, fmt.Errorf("parseManifest: %v", err)
 			}
-			rc.Close()
 			continue
 		}
 
 		var sliceNum int
 		if n, err := fmt.Sscanf(f.Name, sliceNameFmt, &sliceNum); err != nil || n != 1 {
+			rc.Close()
 			return nil, fmt.Errorf("unable to parse %q using %q", f.Name, sliceNameFmt)
 		}
 
 		img, err := png.Decode(rc)
+		rc.Close()
 		if err != nil {
 			return nil, fmt.Errorf("png.Decode: %v", err)
 		}
-		rc.Close()
 
 		scanImage(img, model, sliceNum)
 	}
-- 
2.43.0


From 9ae7f5a3a59491b810f4790c5cef0c1352b0b839 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:28:33 +0000
Subject: [PATCH 47/53] fix: svx2stl: report an archive without a manifest

---
 cmd/svx2stl/main.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/cmd/svx2stl/main.go b/cmd/svx2stl/main.go
index 7e4c0e3..c6bc666 100644
--- a/cmd/svx2stl/main.go
+++ b/cmd/svx2stl/main.go
@@ -89,6 +89,9 @@ func read(filename string) (*binvox.BinVOX, error) {
 
 		scanImage(img, model, sliceNum)
 	}
+	if model == nil {
+		return nil, fmt.Errorf("no manifest.xml in %q", filename)
+	}
 
 	return model, nil
 }
-- 
2.43.0


From 84871ad6bfb3230389fe64036a08ed0f6b1d3cf9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:28:35 +0000
Subject: [PATCH 48/53] fix: voxcut-dice: refuse a size that is not positive

---
 cmd/voxcut-dice/voxcut-dice.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/cmd/voxcut-dice/voxcut-dice.go b/cmd/voxcut-dice/voxcut-dice.go
index 41afde7..537dcd8 100644
--- a/cmd/voxcut-dice/voxcut-dice.go
+++ b/cmd/voxcut-dice/voxcut-dice.go
@@ -32,6 +32,9 @@ func main() {
 	if flag.NArg() < 1 {
 		log.Fatal("Must supply at least one filename")
 	}
+	if *size < 1 {
+		log.Fatalf("size (%v) must be positive", *size)
+	}
 	if *binVOXPrefix == "" && *stlPrefix == "" && *voxPrefix == "" {
 		log.Fatal("Must specify at least one of -obinvox, -ostl, or -ovox")
 	}
-- 
2.43.0


From f5a4ddb78904640470344d92c3acc1d5853c45fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:05:29 +0000
Subject: [PATCH 49/53] fix: stldice-slave: do not replace a model that cannot
 be read

---
 server/stldice-slave/stldice-slave.go | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/server/stldice-slave/stldice-slave.go b/server/stldice-slave/stldice-slave.go
index 43f0257..2ab6de1 100644
--- a/server/stldice-slave/stldice-slave.go
+++ b/server/stldice-slave/stldice-slave.go
@@ -12,6 +12,7 @@ import (
 	"io"
 	"log"
 	"net"
+	"os"
 	"strings"
 
 	gl "github.com/fogleman/fauxgl"
@@ -44,8 +45,7 @@ func (s *server) AddSTLMesh(ctx context.Context, in *pb.AddSTLMeshRequest) (*pb.
 
 	// If there is no model on disk with the same coordinates, write the new binvox file.
 	modelFilename := filename(in.GetVoxelRegion())
-	base, err := binvox.Read(modelFilename, 0, 0, 0, 0, 0, 0)
-	if err != nil { // No existing model of the same name. Write the new one.
+	if _, err := os.Stat(modelFilename); os.IsNotExist(err) { // No existing model of the same name. Write the new one.
 		if err := mesh.SaveSTL(modelFilename); err != nil {
 			return nil, err
 		}
@@ -54,6 +54,10 @@ func (s *server) AddSTLMesh(ctx context.Context, in *pb.AddSTLMeshRequest) (*pb.
 
 	// If there already is a model on disk, load it, add the newly-generated voxels to it, then save it back out,
 	// overwriting the old version.
+	base, err := binvox.Read(modelFilename, 0, 0, 0, 0, 0, 0)
+	if err != nil {
+		return nil, err
+	}
 	newBase, err := voxelOp(base, addBV, true)
 	if err != nil {
 		return nil, err
-- 
2.43.0


From 393f323b652833e474b1f38e41728714612f08ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:05:31 +0000
Subject: [PATCH 50/53] fix: stldice-mr: report a voxel that cannot be sent to
 the imager

---
 cmd/stldice-mr/stldice-mr.go | 14 +++++++++-----
 1 file changed, 9 insertions(+), 5 deletions(-)

diff --git a/cmd/stldice-mr/stldice-mr.go b/cmd/stldice-mr/stldice-mr.go
index be1e1d1..267a4ae 100644
--- a/cmd/stldice-mr/stldice-mr.go
+++ b/cmd/stldice-mr/stldice-mr.go
@@ -207,18 +207,22 @@ func voxelize(row []interface{}) error {
 	}
 	log.Printf("voxelize: sending %v %v voxels to imager...", len(bv.WhiteVoxels), vType)
 
-	keyFunc := func(k binvox.Key) {
+	keyFunc := func(k binvox.Key) error {
 		if k.X < 0 || k.Y < 0 || k.Z < 0 {
 			// log.Printf("key %v out-of-bounds (%v,%v,%v)", k, *nX, *nY, *nZ)
-			return // common for a cut to extend beyond the bounds of the base.
+			return nil // common for a cut to extend beyond the bounds of the base.
 		}
-		gio.Emit(k.Z, voxelInfo{k.X, k.Y, m.Base})
+		return gio.Emit(k.Z, voxelInfo{k.X, k.Y, m.Base})
 	}
 	for k := range bv.WhiteVoxels {
-		keyFunc(k)
+		if err := keyFunc(k); err != nil {
+			return err
+		}
 	}
 	for k := range bv.ColorVoxels {
-		keyFunc(k)
+		if err := keyFunc(k); err != nil {
+			return err
+		}
 	}
 	return nil
 }
-- 
2.43.0


From 18c645e2edc531c9f15b8247f8589632417f26f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:56:12 +0000
Subject: [PATCH 51/53] fix: voxcut: read the cut models whole, as the window
 applies to base indices only

---
 cmd/voxcut/voxcut.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/cmd/voxcut/voxcut.go b/cmd/voxcut/voxcut.go
index 94a0cbb..e0560be 100644
--- a/cmd/voxcut/voxcut.go
+++ b/cmd/voxcut/voxcut.go
@@ -62,7 +62,8 @@ func main() {
 	}
 
 	for i := 1; i < flag.NArg(); i++ {
-		cut, err := binvox.Read(flag.Arg(i), *startX, *startY, *startZ, *countX, *countY, *countZ)
+		// The window is in base indices, so with another translation it says nothing about the cut model.
+		cut, err := binvox.Read(flag.Arg(i), 0, 0, 0, 0, 0, 0)
 		if err != nil {
 			log.Printf("skipping: %v", err)
 			continue
-- 
2.43.0


From d1ba94a20ba5f04acb6ae9b383cb26e10104261b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:10:38 +0000
Subject: [PATCH 52/53] fix: orient the manifold faces of the g167 and g02345
 cells

The cell with corners 1, 6 and 7 is that with corners 2, 3 and 4 turned around the Y axis; mirrored along X it has corners 2, 3 and 5.
---
 binvox/manifold.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/binvox/manifold.go b/binvox/manifold.go
index 7213aa7..8ca6f7e 100644
--- a/binvox/manifold.go
+++ b/binvox/manifold.go
@@ -439,9 +439,9 @@ func grid2tris(k Key, n neighborBitMap, v2v voxelToVectorFunc) (tris []*gl.Trian
 	case g1 | g2 | g3 | g4 | g5: // (inverse = g067 = case g0 | g6 | g7:)
 		return apply(k, mirrorZ(v2v), g234)
 	case g1 | g6 | g7: // (inverse = g02345 = case g0 | g2 | g3 | g4 | g5:)
-		return apply(k, mirrorX(v2v), flipNormals(g234))
+		return apply(k, rotateTris180Y(v2v), g234)
 	case g0 | g2 | g3 | g4 | g5: // (inverse = g167 = case g1 | g6 | g7:)
-		return apply(k, mirrorX(v2v), g234)
+		return apply(k, rotateTris180Y(v2v), flipNormals(g234))
 	case g0 | g1 | g6: // (inverse = g23457 = case g2 | g3 | g4 | g5 | g7:)
 		return apply(k, rotateTris180Z(v2v), g234)
 	case g2 | g3 | g4 | g5 | g7: // (inverse = g016 = case g0 | g1 | g6:)
-- 
2.43.0


From 0fcacad7870a1c2139fcf325538929b6f3b6e73f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:12:49 +0000
Subject: [PATCH 53/53] fix: stl2svx: name the slices right in the manifest for
 any output prefix

---
 stl2svx/master/master.go | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/stl2svx/master/master.go b/stl2svx/master/master.go
index 9fb7265..31e3001 100644
--- a/stl2svx/master/master.go
+++ b/stl2svx/master/master.go
@@ -5,10 +5,12 @@ import (
 	"archive/zip"
 	"bytes"
 	"fmt"
+	"html"
 	"image"
 	"image/draw"
 	"image/png"
 	"log"
+	"strings"
 	"sync"
 	"time"
 
@@ -156,6 +158,8 @@ func (m *master) getIdleAgent() string {
 
 func (m *master) writeManifest(in *pb.NewJobRequest, base *stl.STL) error {
 	const outFile = "manifest.xml"
+	// The names of the slices are given as a pattern, in an XML attribute.
+	outPrefix := html.EscapeString(strings.Replace(in.GetOutPrefix(), "%", "%%", -1))
 	log.Printf("Writing file %v ... need %v agents for job...", outFile, base.ModelDimZ)
 	m.zmu.Lock()
 	defer m.zmu.Unlock()
@@ -169,7 +173,7 @@ func (m *master) writeManifest(in *pb.NewJobRequest, base *stl.STL) error {
     <channel type="DENSITY" bits="8" slices="%v/%v-%v-%v-%v-%v-%%04d.png" />
   </channels>
 </grid>
-`, base.ModelDimX+2, base.ModelDimZ+2, base.ModelDimY+2, base.MMPV*1e-3, base.MBB.Min.X, base.MBB.Min.Z, base.MBB.Min.Y, in.GetDim(), in.GetOutPrefix(), in.GetDim(), in.GetNX(), in.GetNY(), in.GetNZ()); err != nil {
+`, base.ModelDimX+2, base.ModelDimZ+2, base.ModelDimY+2, base.MMPV*1e-3, base.MBB.Min.X, base.MBB.Min.Z, base.MBB.Min.Y, in.GetDim(), outPrefix, in.GetDim(), in.GetNX(), in.GetNY(), in.GetNZ()); err != nil {
 		return err
 	}
 	return nil
-- 
2.43.0

