From c30463d7802a30267c358df00af8278cd53a4011 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:18:48 +0000
Subject: [PATCH 01/56] fix: do not rely on spare capacity of []byte(string)
 when naming created lumps

[]byte(LUMP_SORT_ORDER[key])[:8] panics for names shorter than 8 characters
whenever the compiler converts the string without copying it (Go 1.22+), so
every level lacking one of SEGS, NODES or REJECT crashed the program.
---
 wad.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/wad.go b/wad.go
index 4b59b29..f94d0d0 100644
--- a/wad.go
+++ b/wad.go
@@ -254,7 +254,7 @@ func UpdateDirectoryAndSchedule(le []LumpEntry, scheduleRoot **ScheduledLump,
 							FilePos: 0,
 							Size:    0,
 						}
-						copy(leOut[curOut].Name[:], []byte(LUMP_SORT_ORDER[key])[:8])
+						copy(leOut[curOut].Name[:], LUMP_SORT_ORDER[key])
 						oldIdxsToNew[-1*inss] = curOut
 						curOut++
 						inss++
-- 
2.43.0


From e6a4ba66c15fde11ddb1b832f9245e5ff1d77e67 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:19:19 +0000
Subject: [PATCH 02/56] fix: check BSPNOSEG of the back side on the back
 sidedef

The second sidedef's seg was suppressed (or not) by the lower texture of the
first sidedef, contrary to the documentation; a linedef without first sidedef
crashed the program.
---
 node_intro.go | 2 +-
 znodegen.go   | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/node_intro.go b/node_intro.go
index 8b46ac3..5e4dced 100755
--- a/node_intro.go
+++ b/node_intro.go
@@ -346,7 +346,7 @@ func addSegsPerLine(myVertices []NodeVertex, i uint16, lines WriteableLines, vid
 		Log.Printf("Warning: linedef %d doesn't have front sidedef\n", i)
 	}
 	if secondSdef != SIDEDEF_NONE {
-		if !bytes.Equal(sidedefs[firstSdef].LoName[:], []byte("BSPNOSEG")) {
+		if !bytes.Equal(sidedefs[secondSdef].LoName[:], []byte("BSPNOSEG")) {
 			// Action = 1084 is do not render back side (zokumbsp)
 			if action == 1084 {
 				Log.Verbose(1, "Will not create seg for BACK sidedef of linedef %d - instructed so by action's numeric code set to 1084 on linedef.\n",
diff --git a/znodegen.go b/znodegen.go
index 40f11f7..2228021 100755
--- a/znodegen.go
+++ b/znodegen.go
@@ -1487,7 +1487,7 @@ func ZExt_addSegsPerLine(myVertices []ZExt_NodeVertex, i uint16, lines Writeable
 		Log.Printf("Warning: linedef %d doesn't have front sidedef\n", i)
 	}
 	if secondSdef != SIDEDEF_NONE {
-		if !bytes.Equal(sidedefs[firstSdef].LoName[:], []byte("BSPNOSEG")) {
+		if !bytes.Equal(sidedefs[secondSdef].LoName[:], []byte("BSPNOSEG")) {
 
 			if action == 1084 {
 				Log.Verbose(1, "Will not create seg for BACK sidedef of linedef %d - instructed so by action's numeric code set to 1084 on linedef.\n",
-- 
2.43.0


From 6f557a66176cc8430384398e203a48e8ddbfe1aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:20:21 +0000
Subject: [PATCH 03/56] fix: cover lines without segs in the blockmap used by
 IsTooDetailed

The bounds were those of the segs only: a line that gets no segs (tag 998,
action 1084-1086, BSPNOSEG) and reaches outside of them crashed the program.
---
 node_intro.go | 21 ++++++++++++++++++++-
 1 file changed, 20 insertions(+), 1 deletion(-)

diff --git a/node_intro.go b/node_intro.go
index 5e4dced..9ac2d20 100755
--- a/node_intro.go
+++ b/node_intro.go
@@ -118,9 +118,28 @@ func MinorCmpFuncFromOption(userOption int) MinorIsBetterFunc {
 // which means it is not advised to be used for vanilla maps unless absolutely
 // necessary
 func IsTooDetailed(lines AbstractLines, linesToIgnore []bool, bounds *NodeBounds) bool {
+	// bounds were computed from segs, but lines that got no segs are going to
+	// be placed on this blockmap as well, and they might be outside of bounds
+	lvlBounds := *NodeBoundsToLevelBounds(bounds)
+	for i, cnt := uint16(0), lines.Len(); i < cnt; i++ {
+		x1, y1, x2, y2 := lines.GetAllXY(i)
+		b := GetBounds([]Vertex{{int16(x1), int16(y1)}, {int16(x2), int16(y2)}})
+		if b.Xmin < lvlBounds.Xmin {
+			lvlBounds.Xmin = b.Xmin
+		}
+		if b.Ymin < lvlBounds.Ymin {
+			lvlBounds.Ymin = b.Ymin
+		}
+		if b.Xmax > lvlBounds.Xmax {
+			lvlBounds.Xmax = b.Xmax
+		}
+		if b.Ymax > lvlBounds.Ymax {
+			lvlBounds.Ymax = b.Ymax
+		}
+	}
 	bmi := &BlockmapInput{
 		lines:           lines,
-		bounds:          *NodeBoundsToLevelBounds(bounds),
+		bounds:          lvlBounds,
 		XOffset:         0,
 		YOffset:         0,
 		useZeroHeader:   false,
-- 
2.43.0


From a4cf0e146585c33a2e4deba5ea5f9d465e61bfa9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:21:32 +0000
Subject: [PATCH 04/56] fix: multi-tree without linedefs of the requested kind

With -nm=2 on a level without two-sided lines (or -nm=1 on one without
one-sided ones) no tree was built and the program crashed on a nil pointer.
---
 multitree_plain.go | 7 +++++++
 znodegen.go        | 6 ++++++
 2 files changed, 13 insertions(+)

diff --git a/multitree_plain.go b/multitree_plain.go
index ce1bc53..cb9d3e0 100755
--- a/multitree_plain.go
+++ b/multitree_plain.go
@@ -129,6 +129,13 @@ func MTPSentinel_MakeBestBSPTree(w *NodesWork, bbox *NodeBounds,
 	if config.Roots == 0 { // reference to global: config
 		rootSegCandidates = MTPSentinel_GetRootSegCandidates(w.allSegs,
 			rootChoiceMethod)
+		if len(rootSegCandidates) == 0 {
+			// no lines of the requested kind have segs, but some root has to be
+			// picked regardless
+			Log.Printf("Multi-tree: no linedefs of the requested kind, will try every linedef for root.\n")
+			rootSegCandidates = MTPSentinel_GetRootSegCandidates(w.allSegs,
+				MROOT_EVERY)
+		}
 	} else {
 		// code tree will pick from global config directly the needed things
 		// not a good API, admittedly
diff --git a/znodegen.go b/znodegen.go
index 2228021..ae0a79e 100755
--- a/znodegen.go
+++ b/znodegen.go
@@ -4278,6 +4278,12 @@ func ZExt_MTPSentinel_MakeBestBSPTree(w *ZExt_NodesWork, bbox *NodeBounds,
 	if config.Roots == 0 {
 		rootSegCandidates = ZExt_MTPSentinel_GetRootSegCandidates(w.allSegs,
 			rootChoiceMethod)
+		if len(rootSegCandidates) == 0 {
+
+			Log.Printf("Multi-tree: no linedefs of the requested kind, will try every linedef for root.\n")
+			rootSegCandidates = ZExt_MTPSentinel_GetRootSegCandidates(w.allSegs,
+				MROOT_EVERY)
+		}
 	} else {
 
 		rootSegCandidates = ZExt_MTP_ZenRootEnumerate(w, bbox)
-- 
2.43.0


From 4d124571cbca3235d76b28f539424b9d5a48327a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:25:20 +0000
Subject: [PATCH 05/56] fix: blockmap buffers were sized with 16-bit arithmetic

On maps whose grid has about 65536 blocks or more, the size wrapped around and
blockmap generation crashed instead of reporting that the blockmap is too big.
---
 blockmapgen.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/blockmapgen.go b/blockmapgen.go
index 6f65a5b..dbd9550 100755
--- a/blockmapgen.go
+++ b/blockmapgen.go
@@ -589,7 +589,7 @@ func BMBeeMaxSize(b LevelBounds) int {
 	ymax := int(b.Ymax)
 	xblocks := uint16(xmax-xmin)>>BLOCK_BITS + 1
 	yblocks := uint16(ymax-ymin)>>BLOCK_BITS + 1
-	return int((xblocks + 1) * (yblocks + 1))
+	return (int(xblocks) + 1) * (int(yblocks) + 1)
 }
 
 func StatBlockmap(bm *Blockmap) {
-- 
2.43.0


From 3e1354144d4037473bff2d2a1672878939fe9169 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:27:44 +0000
Subject: [PATCH 06/56] fix: blockmaps whose block table exceeds a slot of the
 lump pool

---
 bblocks.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/bblocks.go b/bblocks.go
index 8a9fdf0..c03d7f2 100755
--- a/bblocks.go
+++ b/bblocks.go
@@ -1379,5 +1379,9 @@ func (gcs *BlockmapGCShield) GetLumpFromPool(expectedSize, expectedCapacity int)
 	unusedSlot := gcs.getUnusedSlot()
 	start := int(unusedSlot) * MAX_ADDRESSABLE_BLOCKMAP_SIZE
 	gcs.lumpPool.lastSlot = unusedSlot
+	if expectedSize > expectedCapacity {
+		// Header and table of blocks alone don't fit into the slot
+		return make([]byte, expectedSize)
+	}
 	return gcs.lumpPool.pool[start : start+expectedSize : start+expectedCapacity]
 }
-- 
2.43.0


From db80a3be97f8621007bce042073aac6f9bd40c41 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:34:02 +0000
Subject: [PATCH 07/56] fix: zero-filled reject size was looked up by an
 outdated directory index

---
 level.go | 4 ++--
 wad.go   | 2 +-
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/level.go b/level.go
index 5870a50..f888c31 100755
--- a/level.go
+++ b/level.go
@@ -112,9 +112,9 @@ func (l *Level) DoLevel(le []LumpEntry, idx int, rejectsize map[int]uint32,
 		if bytes.Equal(bname, []byte("REJECT")) && config.Reject != REJECT_DONTTOUCH {
 			l.RejectLumpIdx = idx
 			if config.Reject == REJECT_ZEROFILLED {
-				calcrejectsize, leidx_ok := rejectsize[action.DirIndex]
+				calcrejectsize, leidx_ok := rejectsize[action.id]
 				if !leidx_ok {
-					panic("Rejectsize was not stored for key = <level marker lump DirIndex>")
+					panic("Rejectsize was not stored for key = <level marker lump id>")
 				}
 				le[idx].Size = calcrejectsize
 				private_offset := troll.PopOffset(calcrejectsize)
diff --git a/wad.go b/wad.go
index f94d0d0..9d3cc06 100644
--- a/wad.go
+++ b/wad.go
@@ -442,7 +442,7 @@ func LoadWadDirectory(isInputWad bool, le []LumpEntry, rejectsize map[int]uint32
 			fracBytes := float64(numSectors) * float64(numSectors) / 8.0
 			numRejectSize := uint32(math.Ceil(fracBytes))
 			troll.AddSize(numRejectSize)
-			rejectsize[action.DirIndex] = numRejectSize
+			rejectsize[action.id] = numRejectSize
 		}
 	}
 
-- 
2.43.0


From 924b2794c418388657e14750a1399675eb01cb64 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:34:04 +0000
Subject: [PATCH 08/56] fix: SCRIPTS lump of a level was lost

---
 wad.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/wad.go b/wad.go
index 9d3cc06..c35b0dd 100644
--- a/wad.go
+++ b/wad.go
@@ -26,7 +26,7 @@ import (
 	"os"
 )
 
-var LUMP_SORT_ORDER = []string{"THINGS", "LINEDEFS", "SIDEDEFS", "VERTEXES", "SEGS", "SSECTORS", "NODES", "SECTORS", "REJECT", "BLOCKMAP", "BEHAVIOR"}
+var LUMP_SORT_ORDER = []string{"THINGS", "LINEDEFS", "SIDEDEFS", "VERTEXES", "SEGS", "SSECTORS", "NODES", "SECTORS", "REJECT", "BLOCKMAP", "BEHAVIOR", "SCRIPTS"}
 var LUMP_MUSTEXIST = []string{"THINGS", "LINEDEFS", "SIDEDEFS", "VERTEXES", "SECTORS"}
 var LUMP_CREATE = []string{"SEGS", "SSECTORS", "NODES", "REJECT", "BLOCKMAP"}
 
-- 
2.43.0


From 158e8f81ad33361e8f19aea2efe27710777c04e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:35:13 +0000
Subject: [PATCH 09/56] fix: duplicates removed from a level kept being
 processed as directory entry 0

---
 wad.go | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/wad.go b/wad.go
index c35b0dd..4ffc6d2 100644
--- a/wad.go
+++ b/wad.go
@@ -264,9 +264,16 @@ func UpdateDirectoryAndSchedule(le []LumpEntry, scheduleRoot **ScheduledLump,
 						curOut++
 					} // else can happen - BEHAVIOR is HEXEN-specific, not needs to be present otherwise
 				}
+				kept := make([]*ScheduledLump, 0, len(scheduleEntry.Level))
 				for _, subEntry := range scheduleEntry.Level {
-					subEntry.DirIndex = oldIdxsToNew[subEntry.DirIndex]
+					newIdx, copied := oldIdxsToNew[subEntry.DirIndex]
+					if copied { // false if this is a duplicate that got removed
+						subEntry.DirIndex = newIdx
+						kept = append(kept, subEntry)
+					}
 				}
+				scheduleEntry.Level = kept
+				deltaCur = curOut - (oldMainEntryIdx + 1 + oldLevelLen)
 			} else {
 				// Level is not valid, cannot be processed, will copy verbatim.
 				// To do this, a level record in schedule needs to be converted
@@ -293,7 +300,7 @@ func UpdateDirectoryAndSchedule(le []LumpEntry, scheduleRoot **ScheduledLump,
 		}
 		scheduleEntry = nextScheduleEntry
 	}
-	leOut = leOut[:nSize]
+	leOut = leOut[:curOut]
 	*scheduleRoot = newScheduleRoot
 	return leOut
 }
-- 
2.43.0


From 02adc974a3beb8bdeae542b5c45fd5b1f7e6df6e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:37:31 +0000
Subject: [PATCH 10/56] fix: directory moved back by wrong amount when few
 zeros are needed for reject

---
 vigilantbsp.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/vigilantbsp.go b/vigilantbsp.go
index ef5d7b8..e78fec4 100755
--- a/vigilantbsp.go
+++ b/vigilantbsp.go
@@ -213,7 +213,7 @@ func main() {
 		if zerosToInsert > 8 {
 			zerosToInsert = uint32(zerosToInsert - 8)
 		} else {
-			decr = 8 - zerosToInsert // how much to move directory back
+			decr = zerosToInsert // how much to move directory back
 			zerosToInsert = 0
 		}
 		wh.DirectoryStart = wh.DirectoryStart - decr
-- 
2.43.0


From c51f8093da60e82a7c4e840f9315e269cf425d73 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:43:14 +0000
Subject: [PATCH 11/56] fix: errors when writing lumps were ignored, damaged
 data replaced the input

Input file was overwritten with incomplete data when the temporary file could
not be written (no space left, etc), and the exit status was zero
---
 lumpwrite.go   | 21 ++++++++++++++-------
 vigilantbsp.go | 31 ++++++++++++++++++++++++++-----
 wad.go         |  4 +++-
 writebus.go    | 24 +++++++++++++++++-------
 4 files changed, 60 insertions(+), 20 deletions(-)

diff --git a/lumpwrite.go b/lumpwrite.go
index fe02e47..e103446 100755
--- a/lumpwrite.go
+++ b/lumpwrite.go
@@ -30,9 +30,10 @@ import (
 // as a valid byte array (also already converted to file endianness) ready to be
 // written
 func WriteSliceLump(data []byte, curPos *uint32, fout *os.File, le []LumpEntry,
-	lumpIdx int, s string, postfix string) {
+	lumpIdx int, s string, postfix string) error {
+	var err error
 	if data != nil {
-		fout.Write(data)
+		_, err = fout.Write(data)
 	}
 	le[lumpIdx].FilePos = *curPos
 	le[lumpIdx].Size = uint32(len(data))
@@ -45,14 +46,15 @@ func WriteSliceLump(data []byte, curPos *uint32, fout *os.File, le []LumpEntry,
 			s, postfix, le[lumpIdx].Size, hashSuffix)
 	}
 	*curPos = *curPos + uint32(len(data))
+	return err
 }
 
 // Write lump from a typed array of structures that represent game data but need
 // conversion before going to file
 func ConvertAndWriteGenericLump(data interface{}, curPos *uint32, fout *os.File,
-	le []LumpEntry, lumpIdx int, s string, postfix string) {
+	le []LumpEntry, lumpIdx int, s string, postfix string) error {
 	hashSuffix := ""
-	binary.Write(fout, binary.LittleEndian, data)
+	err := binary.Write(fout, binary.LittleEndian, data)
 	if config.HashLumps {
 		hashSuffix = fmt.Sprintf(" (HASH: %s)", HashIntf(data))
 	}
@@ -62,13 +64,17 @@ func ConvertAndWriteGenericLump(data interface{}, curPos *uint32, fout *os.File,
 	Log.Printf("Lump #%d (%s)%s has its size set to %d bytes.%s\n", lumpIdx, s,
 		postfix, le[lumpIdx].Size, hashSuffix)
 	*curPos = *curPos + uint32(dataLen)
+	return err
 }
 
 func ConvertAndWriteDeepNodes(data []DeepNode, curPos *uint32, fout *os.File,
-	le []LumpEntry, lumpIdx int, s string, postfix string) {
+	le []LumpEntry, lumpIdx int, s string, postfix string) error {
 	hashSuffix := ""
-	sigCnt, _ := fout.Write(DEEPNODES_SIG[:])
-	binary.Write(fout, binary.LittleEndian, data)
+	sigCnt, err := fout.Write(DEEPNODES_SIG[:])
+	err2 := binary.Write(fout, binary.LittleEndian, data)
+	if err == nil {
+		err = err2
+	}
 	if config.HashLumps {
 		hashSuffix = fmt.Sprintf(" (HASH: %s)", HashIntf(data))
 	}
@@ -78,6 +84,7 @@ func ConvertAndWriteDeepNodes(data []DeepNode, curPos *uint32, fout *os.File,
 	Log.Printf("Lump #%d (%s)%s has its size set to %d bytes.%s\n", lumpIdx, s,
 		postfix, le[lumpIdx].Size, hashSuffix)
 	*curPos = *curPos + uint32(dataLen+sigCnt)
+	return err
 }
 
 // non-threadsafe encode of cryptographic hash, I presume
diff --git a/vigilantbsp.go b/vigilantbsp.go
index e78fec4..ee70910 100755
--- a/vigilantbsp.go
+++ b/vigilantbsp.go
@@ -241,14 +241,17 @@ func main() {
 	err = binary.Write(fout, binary.LittleEndian, wh)
 	if err != nil {
 		Log.Error("An error has occured while trying to create/modify %s: %s\n", outFileName, err)
+		mainFileControl.Shutdown()
 		os.Exit(1)
 	}
 
 	if zerosToInsert > 0 {
-		WriteNZerosOrFail(fout, zerosToInsert, outFileName)
+		WriteNZerosOrFail(fout, zerosToInsert, outFileName,
+			mainFileControl.Shutdown)
 	}
 	// skip directory also
-	WriteNZerosOrFail(fout, uint32(binary.Size(le)), outFileName)
+	WriteNZerosOrFail(fout, uint32(binary.Size(le)), outFileName,
+		mainFileControl.Shutdown)
 	action := ScheduleRoot
 	curPos := uint32(binary.Size(wh)) + zerosToInsert + uint32(binary.Size(le))
 	wriBus := StartWriteBus(fout, le, curPos)
@@ -288,9 +291,20 @@ func main() {
 		}
 		action = action.Next
 	}
-	wriBus.Shutdown()
-	fout.Seek(int64(wh.DirectoryStart), 0)
-	binary.Write(fout, binary.LittleEndian, le)
+	err = wriBus.Shutdown()
+	if err == nil {
+		_, err = fout.Seek(int64(wh.DirectoryStart), 0)
+	}
+	if err == nil {
+		err = binary.Write(fout, binary.LittleEndian, le)
+	}
+	if err != nil {
+		// the output is not complete, so the input file must not be replaced
+		// with it
+		Log.Error("An error has occured while writing %s: %s\n", outFileName, err)
+		mainFileControl.Shutdown()
+		os.Exit(1)
+	}
 	suc := mainFileControl.Success()
 	if suc {
 		trFileName := outFileName
@@ -311,6 +325,13 @@ func main() {
 		DumpMemoryProfile(config.MemProfilePath)
 	}
 	Log.Printf("Total time: %s\n", time.Since(timeStart))
+	if !suc {
+		if config.Profile {
+			pprof.StopCPUProfile()
+		}
+		mainFileControl.Shutdown()
+		os.Exit(1)
+	}
 }
 
 func GetBounds(vertices []Vertex) LevelBounds {
diff --git a/wad.go b/wad.go
index 4ffc6d2..73ae9da 100644
--- a/wad.go
+++ b/wad.go
@@ -102,14 +102,16 @@ func FindValidLevels(root *ScheduledLump) int {
 	return res
 }
 
-func WriteNZerosOrFail(a io.Writer, n uint32, fname string) {
+func WriteNZerosOrFail(a io.Writer, n uint32, fname string, onFail func()) {
 	zb := make([]byte, n, n)
 	written, err := a.Write(zb)
 	if err != nil {
 		Log.Error("An error has occured while trying to write %s: %s\n", fname, err)
+		onFail()
 		os.Exit(1)
 	} else if uint32(written) != n {
 		Log.Error("The number of written bytes %d doesn't match the number of bytes that were to be written: %d\n", written, n)
+		onFail()
 		os.Exit(1)
 	}
 }
diff --git a/writebus.go b/writebus.go
index d9c5317..0799e34 100755
--- a/writebus.go
+++ b/writebus.go
@@ -43,6 +43,7 @@ type WriteBus struct {
 	fout   *os.File
 	le     []LumpEntry
 	curPos uint32
+	err    error // first error that happened when writing, if any
 }
 
 type WriteBusControl struct {
@@ -76,18 +77,18 @@ func (b *WriteBus) WriteBusLoop(ch <-chan WriteBusRequest, chFinish chan<- bool,
 		switch req.tpeIndex {
 		case WRI_TYPE_BYTES:
 			{
-				WriteSliceLump(req.bData, &(b.curPos), b.fout, b.le, req.lumpIdx,
-					req.lumpName, req.postfix)
+				b.noteError(WriteSliceLump(req.bData, &(b.curPos), b.fout, b.le,
+					req.lumpIdx, req.lumpName, req.postfix))
 			}
 		case WRI_TYPE_INTERFACE:
 			{
-				ConvertAndWriteGenericLump(req.intfData, &(b.curPos), b.fout,
-					b.le, req.lumpIdx, req.lumpName, req.postfix)
+				b.noteError(ConvertAndWriteGenericLump(req.intfData, &(b.curPos),
+					b.fout, b.le, req.lumpIdx, req.lumpName, req.postfix))
 			}
 		case WRI_TYPE_DEEPNODES:
 			{
-				ConvertAndWriteDeepNodes(req.deepData, &(b.curPos), b.fout,
-					b.le, req.lumpIdx, req.lumpName, req.postfix)
+				b.noteError(ConvertAndWriteDeepNodes(req.deepData, &(b.curPos),
+					b.fout, b.le, req.lumpIdx, req.lumpName, req.postfix))
 			}
 		case WRI_TYPE_SYNC:
 			{
@@ -103,6 +104,12 @@ func (b *WriteBus) WriteBusLoop(ch <-chan WriteBusRequest, chFinish chan<- bool,
 	chFinish <- true
 }
 
+func (b *WriteBus) noteError(err error) {
+	if b.err == nil {
+		b.err = err
+	}
+}
+
 // Asynchronous calls that instruct bus to write lump data, stored in varied
 // forms before writing
 
@@ -150,9 +157,12 @@ func (c *WriteBusControl) SendDeepNodesLump(data []DeepNode, lumpIdx int,
 	c.ch <- envl
 }
 
-func (c *WriteBusControl) Shutdown() {
+// Shutdown waits until everything is written. Returns the first error that
+// happened when writing lumps, if any
+func (c *WriteBusControl) Shutdown() error {
 	close(c.ch)
 	<-c.finisher
+	return c.bus.err
 }
 
 // This service call is needed to prevent actions pertaining to the previous
-- 
2.43.0


From f099cc1a907899e6458e78adb657599ef67d0fad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:43:14 +0000
Subject: [PATCH 12/56] fix: keep the temporary file when overwriting the
 original file fails

By that moment it is the only place with complete data
---
 filecontrol.go | 17 ++++++++++++++++-
 1 file changed, 16 insertions(+), 1 deletion(-)

diff --git a/filecontrol.go b/filecontrol.go
index b573f5b..94d617c 100644
--- a/filecontrol.go
+++ b/filecontrol.go
@@ -137,6 +137,7 @@ func (fc *FileControl) Success() bool {
 	}
 	errFin := fc.fin.Close()
 	errFout := fc.fout.Close()
+	fc.fin, fc.fout = nil, nil // so that Shutdown won't close them again
 	sucReport := fc.CloseReportFile(true)
 	hasError := errFin != nil || errFout != nil || !sucReport
 	if hasError {
@@ -183,7 +184,20 @@ func (fc *FileControl) tempFileReplacesInput() bool {
 			Log.Error("Error when overwriting the original file: %s.\n",
 				err.Error())
 		}
-		fout.Close()
+		err = fout.Close()
+		if err != nil {
+			success = false
+			Log.Error("Error when closing the original file after overwriting it: %s.\n",
+				err.Error())
+		}
+		if !success {
+			// The temporary file is now the only place where the data is
+			// complete, so don't delete it
+			fin.Close()
+			Log.Error("The temporary file '%s' was kept, it contains the complete result.\n",
+				fc.outputFileName)
+			return false
+		}
 	}
 	fin.Close()
 	// Now delete the temporary file
@@ -435,6 +449,7 @@ func (fc *FileControl) PinExternalWad(wadFileName string) *PinnedWad {
 	if err != nil {
 		Log.Error("An error has occured while trying to open %s: %s\n",
 			wadFileName, err)
+		fc.Shutdown()
 		os.Exit(1)
 	}
 
-- 
2.43.0


From 5cf671d695923c54235e58c24964f94476186f72 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:46:08 +0000
Subject: [PATCH 13/56] fix: stale directory entries when nodes or reject can't
 be built for a level

Happens when SIDEDEFS or SECTORS is empty
---
 level.go | 24 ++++++++++++++++++++++++
 1 file changed, 24 insertions(+)

diff --git a/level.go b/level.go
index f888c31..65c46ed 100755
--- a/level.go
+++ b/level.go
@@ -421,6 +421,30 @@ func (l *Level) DoLevel(le []LumpEntry, idx int, rejectsize map[int]uint32,
 	// Wait for channels to deliver results of node/reject/blockmap building,
 	// write them
 	l.WaitForAndWriteData()
+
+	// Nodes and reject can't be built if level has no sidedefs or no sectors.
+	// Directory entries of the lumps that were supposed to receive the result
+	// must still be made valid for the output file
+	if config.RebuildNodes && l.NodesChan == nil {
+		Log.Printf("Level %s has no sidedefs or no sectors, so nodes are not built.\n",
+			l.mapName)
+		for _, subaction := range action.Level {
+			idx = subaction.DirIndex
+			switch idx {
+			case l.LinedefsLumpIdx, l.VerticesLumpIdx:
+				tmpBuf := make([]byte, le[idx].Size, le[idx].Size)
+				f.ReadAt(tmpBuf, int64(le[idx].FilePos))
+				wriBus.SendRawLump(tmpBuf, idx, "", "")
+			case l.SegsLumpIdx, l.SSectorsLumpIdx, l.NodesLumpIdx:
+				wriBus.SendRawLump(nil, idx, "", " [empty]")
+			}
+		}
+	}
+	if !rejectSkip && l.RejectChan == nil {
+		// everything is visible
+		wriBus.SendRawLump(make([]byte, rejectLumpSize_nonUDMF(len(sectors))),
+			l.RejectLumpIdx, "REJECT", "")
+	}
 }
 
 // This will receive results of work from other threads via channels, then write
-- 
2.43.0


From ec3e47eff34e0d46e63439923f5fa0f5241d53fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:46:08 +0000
Subject: [PATCH 14/56] fix: reject must be zero-filled when no two-sided lines
 separate sectors

It was filled with ones instead, sectors couldn't even see themselves
---
 reject.go     | 7 +++++++
 rejectFAST.go | 6 ++++++
 rejectSYMM.go | 6 ++++++
 3 files changed, 19 insertions(+)

diff --git a/reject.go b/reject.go
index 745a7e4..1bfe34e 100755
--- a/reject.go
+++ b/reject.go
@@ -840,6 +840,13 @@ func (r *RejectWork) setupLines(rsetup *RejectInternalSetup) (setupDone bool,
 	r.solidLines = r.solidLines[:numSolidLines]
 	r.transLines = r.transLines[:numTransLines]
 	r.seenLines = make([]uint8, numSolidLines>>3+1)
+	if numTransLines == 0 {
+		// Make it zero-filled (everything is visible) like the message says.
+		// Sectors must at the very least be visible to themselves
+		for i := range r.rejectTable {
+			r.rejectTable[i] = VIS_VISIBLE
+		}
+	}
 	// the second return value (message) will be displayed if numTransLines == 0
 	return numTransLines > 0, "Reject builder: not a single two-sided linedef between two distinct sectors was found. You will have a zero-filled REJECT.\n"
 }
diff --git a/rejectFAST.go b/rejectFAST.go
index b6886c5..ba11544 100755
--- a/rejectFAST.go
+++ b/rejectFAST.go
@@ -482,6 +482,12 @@ func (r *FastRejectWork) setupLines(rsetup *RejectInternalSetup) (setupDone bool
 	r.solidLines = r.solidLines[:numSolidLines]
 	r.transLines = r.transLines[:numTransLines]
 	r.seenLines = make([]uint8, numSolidLines>>3+1)
+	if numTransLines == 0 {
+
+		for i := range r.rejectTable {
+			r.rejectTable[i] = VIS_VISIBLE
+		}
+	}
 
 	return numTransLines > 0, "Reject builder: not a single two-sided linedef between two distinct sectors was found. You will have a zero-filled REJECT.\n"
 }
diff --git a/rejectSYMM.go b/rejectSYMM.go
index b8cec01..fafff95 100755
--- a/rejectSYMM.go
+++ b/rejectSYMM.go
@@ -430,6 +430,12 @@ func (r *SymmetricRejectWork) setupLines(rsetup *RejectInternalSetup) (setupDone
 	r.solidLines = r.solidLines[:numSolidLines]
 	r.transLines = r.transLines[:numTransLines]
 	r.seenLines = make([]uint8, numSolidLines>>3+1)
+	if numTransLines == 0 {
+
+		for i := range r.rejectTable {
+			r.rejectTable[i] = VIS_VISIBLE
+		}
+	}
 
 	return numTransLines > 0, "Reject builder: not a single two-sided linedef between two distinct sectors was found. You will have a zero-filled REJECT.\n"
 }
-- 
2.43.0


From 424be62e17e9a1cc7a29f8b8f298b11d95acf242 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:46:31 +0000
Subject: [PATCH 15/56] fix: errors when reading lumps were ignored

Lumps that couldn't be read (I/O error, or a truncated wad) were replaced with
zeros, also in the original file if it was being overwritten
---
 level.go       | 16 ++++++++--------
 udmf_level.go  |  2 +-
 vigilantbsp.go |  2 +-
 wad.go         | 22 ++++++++++++++++++++++
 4 files changed, 32 insertions(+), 10 deletions(-)

diff --git a/level.go b/level.go
index 65c46ed..1b9a308 100755
--- a/level.go
+++ b/level.go
@@ -148,12 +148,12 @@ func (l *Level) DoLevel(le []LumpEntry, idx int, rejectsize map[int]uint32,
 					cntLinedefs := le[idx].Size / DOOM_LINEDEF_SIZE
 					linedefs = make([]Linedef, cntLinedefs, cntLinedefs)
 					f.Seek(int64(le[idx].FilePos), 0)
-					binary.Read(f, binary.LittleEndian, linedefs)
+					readLumpData(f, fileControl, linedefs)
 				} else { // FORMAT_HEXEN
 					cntLinedefs := le[idx].Size / HEXEN_LINEDEF_SIZE
 					hexenLinedefs = make([]HexenLinedef, cntLinedefs, cntLinedefs)
 					f.Seek(int64(le[idx].FilePos), 0)
-					binary.Read(f, binary.LittleEndian, hexenLinedefs)
+					readLumpData(f, fileControl, hexenLinedefs)
 				}
 				copyLump = !config.RebuildNodes // !!! linedefs' vertices might be renumbered by nodes builder
 			} else if bytes.Equal(bname, []byte("VERTEXES")) {
@@ -161,7 +161,7 @@ func (l *Level) DoLevel(le []LumpEntry, idx int, rejectsize map[int]uint32,
 				cntVertices := le[idx].Size >> 2
 				vertices = make([]Vertex, cntVertices, cntVertices)
 				f.Seek(int64(le[idx].FilePos), 0)
-				binary.Read(f, binary.LittleEndian, vertices)
+				readLumpData(f, fileControl, vertices)
 				// bounds
 				bounds = GetBounds(vertices)
 				copyLump = !config.RebuildNodes // vertices are created and renumbered by nodes builder
@@ -169,25 +169,25 @@ func (l *Level) DoLevel(le []LumpEntry, idx int, rejectsize map[int]uint32,
 				cntSidedefs := le[idx].Size / DOOM_SIDEDEF_SIZE
 				sidedefs = make([]Sidedef, cntSidedefs, cntSidedefs)
 				f.Seek(int64(le[idx].FilePos), 0)
-				binary.Read(f, binary.LittleEndian, sidedefs)
+				readLumpData(f, fileControl, sidedefs)
 				// this is kept intact, for now at least
 			} else if bytes.Equal(bname, []byte("SECTORS")) {
 				cntSectors := le[idx].Size / DOOM_SECTOR_SIZE
 				sectors = make([]Sector, cntSectors, cntSectors)
 				f.Seek(int64(le[idx].FilePos), 0)
-				binary.Read(f, binary.LittleEndian, sectors)
+				readLumpData(f, fileControl, sectors)
 				// this is kept intact
 			} else if action.LevelFormat == FORMAT_HEXEN && bytes.Equal(bname, []byte("THINGS")) {
 				vrThing := HexenThing{}
 				cntThings := le[idx].Size / uint32(binary.Size(vrThing))
 				hexenThings = make([]HexenThing, cntThings, cntThings)
 				f.Seek(int64(le[idx].FilePos), 0)
-				binary.Read(f, binary.LittleEndian, hexenThings)
+				readLumpData(f, fileControl, hexenThings)
 			} // this is kept intact
 			// copy along every entry that is not going to be modified
 			if copyLump {
 				tmpBuf := make([]byte, le[idx].Size, le[idx].Size)
-				f.ReadAt(tmpBuf, int64(le[idx].FilePos))
+				readLumpBytes(f, fileControl, tmpBuf, le[idx].FilePos)
 				wriBus.SendRawLump(tmpBuf, idx, "", "")
 			}
 		}
@@ -433,7 +433,7 @@ func (l *Level) DoLevel(le []LumpEntry, idx int, rejectsize map[int]uint32,
 			switch idx {
 			case l.LinedefsLumpIdx, l.VerticesLumpIdx:
 				tmpBuf := make([]byte, le[idx].Size, le[idx].Size)
-				f.ReadAt(tmpBuf, int64(le[idx].FilePos))
+				readLumpBytes(f, fileControl, tmpBuf, le[idx].FilePos)
 				wriBus.SendRawLump(tmpBuf, idx, "", "")
 			case l.SegsLumpIdx, l.SSectorsLumpIdx, l.NodesLumpIdx:
 				wriBus.SendRawLump(nil, idx, "", " [empty]")
diff --git a/udmf_level.go b/udmf_level.go
index b08ca86..846fc16 100644
--- a/udmf_level.go
+++ b/udmf_level.go
@@ -78,7 +78,7 @@ func (l *UDMF_Level) DoLevel(le []LumpEntry, idx int, action *ScheduledLump,
 			}
 			if copyLump {
 				tmpBuf := make([]byte, le[idx].Size, le[idx].Size)
-				f.ReadAt(tmpBuf, int64(le[idx].FilePos))
+				readLumpBytes(f, fileControl, tmpBuf, le[idx].FilePos)
 				wriBus.SendRawLump(tmpBuf, idx, "", "")
 			}
 		}
diff --git a/vigilantbsp.go b/vigilantbsp.go
index ee70910..66363f9 100755
--- a/vigilantbsp.go
+++ b/vigilantbsp.go
@@ -269,7 +269,7 @@ func main() {
 		idx := action.DirIndex
 		if le[idx].Size != 0 {
 			tmpBuf := make([]byte, le[idx].Size, le[idx].Size)
-			f.ReadAt(tmpBuf, int64(le[idx].FilePos))
+			readLumpBytes(f, &mainFileControl, tmpBuf, le[idx].FilePos)
 			wriBus.SendRawLump(tmpBuf, idx, "", "")
 		} else if (idx == 0) && ZeroOffsetFirstLump {
 			// first lump has zero size, if we set zero offset we can steal some bytes
diff --git a/wad.go b/wad.go
index 73ae9da..ab170e4 100644
--- a/wad.go
+++ b/wad.go
@@ -116,6 +116,28 @@ func WriteNZerosOrFail(a io.Writer, n uint32, fname string, onFail func()) {
 	}
 }
 
+// readLumpBytes reads contents of a lump. There is no way to continue when
+// the contents can't be read, since that would result in a damaged output wad
+func readLumpBytes(f *os.File, fc *FileControl, buf []byte, pos uint32) {
+	_, err := f.ReadAt(buf, int64(pos))
+	failIfNotRead(err, fc)
+}
+
+// readLumpData is same as readLumpBytes, but for a slice of structures that
+// are located at the current position in file
+func readLumpData(f *os.File, fc *FileControl, data interface{}) {
+	failIfNotRead(binary.Read(f, binary.LittleEndian, data), fc)
+}
+
+func failIfNotRead(err error, fc *FileControl) {
+	if err == nil {
+		return
+	}
+	Log.Error("Couldn't read a lump from %s: %s\n", fc.inputFileName, err)
+	fc.Shutdown()
+	os.Exit(1)
+}
+
 func SetValiditySocket(lumpName string, reference []string, validitySub *[]int,
 	val int, additive bool) {
 	target := -1
-- 
2.43.0


From 8d4e0151757e7cf3a7ac9fb3c68e6f34ebbaacb3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:25:41 +0000
Subject: [PATCH 16/56] fix: subsets of blocklists with linedef 0 were not
 recognised

---
 bblocks.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/bblocks.go b/bblocks.go
index c03d7f2..eb77e4e 100755
--- a/bblocks.go
+++ b/bblocks.go
@@ -599,7 +599,9 @@ func (bl BlockLines) Hash() uint {
 func (bl BlockLines) Hash2() uint64 {
 	hash := uint64(0) // ... and my hash is very, very big
 	for i := 0; i < len(bl); i++ {
-		hash = hash + uint64(bl[i])*uint64(bl[i])
+		// add one so that linedef 0 counts, too
+		v := uint64(bl[i]) + 1
+		hash = hash + v*v
 	}
 	return hash
 }
-- 
2.43.0


From 27c7e8c7e0de01d50c832805d2130d8bce39cd06 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:25:57 +0000
Subject: [PATCH 17/56] fix: largest blocklist was written twice when the last
 block has it

---
 bblocks.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/bblocks.go b/bblocks.go
index eb77e4e..c321076 100755
--- a/bblocks.go
+++ b/bblocks.go
@@ -431,7 +431,9 @@ func (bm *Blockmap) GetBytes() []byte {
 	lumpWriter.Seek(lumpInitial)
 
 	// If the last block's blocklist is written last, it can't be written first
-	if bm.stealOneWord && (split_idx == int(totalblocks-1)) {
+	// (the one written last may also belong to another block as well)
+	if bm.stealOneWord && (split_idx == int(totalblocks-1) ||
+		CompareBlocklist(bm.blocklist[split_idx], bm.blocklist[totalblocks-1])) {
 		bm.stealOneWord = false
 	}
 
-- 
2.43.0


From d483534752874e96eb512180dfea3eeb4d3880a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:26:40 +0000
Subject: [PATCH 18/56] fix: fewer and other blockmap offsets were tried near
 the coordinate limit

---
 blockmapgen.go | 15 +++++++++------
 1 file changed, 9 insertions(+), 6 deletions(-)

diff --git a/blockmapgen.go b/blockmapgen.go
index dbd9550..e5e215f 100755
--- a/blockmapgen.go
+++ b/blockmapgen.go
@@ -803,20 +803,23 @@ func ChooseModeWithCutoff(mode int, offsetXMax, offsetYMax, offsetStep *int16,
 			return BM_OFFSET_FIXED
 		}
 	}
+	// The limits must remain multiples of step, so that going from row to row
+	// (see BlockmapBee) hits the same offsets that are tried without cutoff
 	didCut := false
-	if *offsetXMax > cutOffX+1 {
-		*offsetXMax = cutOffX + 1
+	xLimit := (cutOffX/(*offsetStep) + 1) * (*offsetStep)
+	yLimit := (cutOffY/(*offsetStep) + 1) * (*offsetStep)
+	if *offsetXMax > xLimit {
+		*offsetXMax = xLimit
 		didCut = true
 	}
-	if *offsetYMax > cutOffY+1 {
-		*offsetYMax = cutOffY + 1
+	if *offsetYMax > yLimit {
+		*offsetYMax = yLimit
 		didCut = true
 	}
 	if didCut {
 		Log.Printf("Map bounds are such they would overflow with certain offsets. Limiting max X offset to %d, max Y offset to %d.\n",
-			*offsetXMax-1, *offsetYMax-1)
+			*offsetXMax-*offsetStep, *offsetYMax-*offsetStep)
 	}
-	// Currently the cutoff should work, but very suboptimally in some cases...
 	return mode
 }
 
-- 
2.43.0


From 130169bc5510941889cdfb9e360fca02081970d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:28:37 +0000
Subject: [PATCH 19/56] fix: subset compression when all lists but the empty
 one are merged into it

---
 bblocks.go | 9 ++++-----
 1 file changed, 4 insertions(+), 5 deletions(-)

diff --git a/bblocks.go b/bblocks.go
index c321076..57f7322 100755
--- a/bblocks.go
+++ b/bblocks.go
@@ -769,15 +769,14 @@ func (bm *Blockmap) GetBytesArcane(subsetMode int) []byte {
 	part_min := 0
 	part_max := 1
 	if identityToWriteLast == nil {
-		// single unique identity of zero size - write only once
+		// nothing is fit for being written last (there is a single unique
+		// identity of zero size, or it was merged into the only other one) -
+		// write only once
 		part_max = 0
 	}
 
 	if bm.stealOneWord {
 		part_min = -1
-		if part_max == 0 { // we have a single unique identity of zero size
-			part_max = -1
-		}
 	}
 
 	// 4. Write out
@@ -1084,7 +1083,7 @@ func (bm *Blockmap) IdentifyOrderAndSize(chunks []*BlocklistChunk, blocks []Bloc
 	if bm.stealOneWord {
 		bmSize -= 2
 	}
-	if bmSize > (VANILLA_BM_OFFSET_TOO_BIG << 1) {
+	if identityToWriteLast != nil && bmSize > (VANILLA_BM_OFFSET_TOO_BIG<<1) {
 		// Note that blockmap's SIZE is only an issue if there is OFFSET to blocklist
 		// that goes beyond it. If the greatest offset is within the limit, it is
 		// fine even if the end of that blocklist is beyond it.
-- 
2.43.0


From 31b4ee8550ef80a9b9f4b2ce41529d798d3c18a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:45:48 +0000
Subject: [PATCH 20/56] fix: crash when only one seg is created for a level

---
 nodegen.go  | 20 +++++++++++++++-----
 znodegen.go | 19 ++++++++++++++-----
 2 files changed, 29 insertions(+), 10 deletions(-)

diff --git a/nodegen.go b/nodegen.go
index 263c074..936ee28 100755
--- a/nodegen.go
+++ b/nodegen.go
@@ -611,7 +611,11 @@ func NodesGenerator(input *NodesInput) {
 	// The main act
 	var rootNode *NodeInProcess
 	treeCount := 0
-	if input.multiTreeMode == MULTITREE_NOTUSED { // This is a most commonly used single-tree mode
+	if rootSeg.next == nil {
+		// Just one seg, which can't be divided any further. The tree consists
+		// of one subsector and has no nodes
+		workData.CreateSSector(rootSeg)
+	} else if input.multiTreeMode == MULTITREE_NOTUSED { // This is a most commonly used single-tree mode
 		if cloneEarly {
 			// vanilla_or_zdoom* nodes format -- contrived operation here
 			// keep in mind that Zdoom generator branch won't reach here, this
@@ -743,10 +747,10 @@ func NodesGenerator(input *NodesInput) {
 	}
 	hLeft := 0
 	hRight := 0
-	if rootNode.nextL != nil {
+	if rootNode != nil && rootNode.nextL != nil {
 		hLeft = HeightOfNodes(rootNode.nextL) + 1
 	}
-	if rootNode.nextR != nil {
+	if rootNode != nil && rootNode.nextR != nil {
 		hRight = HeightOfNodes(rootNode.nextR) + 1
 	}
 
@@ -766,7 +770,7 @@ func NodesGenerator(input *NodesInput) {
 		AssertStkNodeIntegrity(workData.stkRoot)
 	}
 
-	if input.stkNode && (input.multiTreeMode == MULTITREE_NOTUSED ||
+	if input.stkNode && rootNode != nil && (input.multiTreeMode == MULTITREE_NOTUSED ||
 		input.multiTreeMode == MULTITREE_ROOT_ONLY) {
 		// If stknode mode was enabled through debug parameter, do perform
 		// rearrangement, so that can compare resulting wad with non-stknode build
@@ -809,7 +813,13 @@ func NodesGenerator(input *NodesInput) {
 	}
 
 	Log.Printf("Height of left and right subtrees = (%d,%d)\n", hLeft, hRight)
-	if workData.nodeType == NODETYPE_VANILLA {
+	if rootNode == nil {
+		// single subsector, no nodes
+		workData.nodes = make([]Node, 0)
+		if workData.nodeType != NODETYPE_VANILLA {
+			workData.deepNodes = make([]DeepNode, 0)
+		}
+	} else if workData.nodeType == NODETYPE_VANILLA {
 		workData.reverseNodes(rootNode)
 	} else {
 		// Same node structure for Deep, Extended and Compressed non-GL nodes
diff --git a/znodegen.go b/znodegen.go
index ae0a79e..f7fc43e 100755
--- a/znodegen.go
+++ b/znodegen.go
@@ -379,7 +379,10 @@ func ZExt_NodesGenerator(input *NodesInput) {
 
 	var rootNode *NodeInProcess
 	treeCount := 0
-	if input.multiTreeMode == MULTITREE_NOTUSED {
+	if rootSeg.next == nil {
+
+		workData.CreateSSector(rootSeg)
+	} else if input.multiTreeMode == MULTITREE_NOTUSED {
 		if cloneEarly {
 
 			passthrough := &ZExt_MultiformatPassthrough{
@@ -478,10 +481,10 @@ func ZExt_NodesGenerator(input *NodesInput) {
 	}
 	hLeft := 0
 	hRight := 0
-	if rootNode.nextL != nil {
+	if rootNode != nil && rootNode.nextL != nil {
 		hLeft = HeightOfNodes(rootNode.nextL) + 1
 	}
-	if rootNode.nextR != nil {
+	if rootNode != nil && rootNode.nextR != nil {
 		hRight = HeightOfNodes(rootNode.nextR) + 1
 	}
 
@@ -500,7 +503,7 @@ func ZExt_NodesGenerator(input *NodesInput) {
 		AssertStkNodeIntegrity(workData.stkRoot)
 	}
 
-	if input.stkNode && (input.multiTreeMode == MULTITREE_NOTUSED ||
+	if input.stkNode && rootNode != nil && (input.multiTreeMode == MULTITREE_NOTUSED ||
 		input.multiTreeMode == MULTITREE_ROOT_ONLY) {
 
 		if workData.stkRoot == nil {
@@ -520,7 +523,13 @@ func ZExt_NodesGenerator(input *NodesInput) {
 	}
 
 	Log.Printf("Height of left and right subtrees = (%d,%d)\n", hLeft, hRight)
-	if workData.nodeType == NODETYPE_VANILLA {
+	if rootNode == nil {
+
+		workData.nodes = make([]Node, 0)
+		if workData.nodeType != NODETYPE_VANILLA {
+			workData.deepNodes = make([]DeepNode, 0)
+		}
+	} else if workData.nodeType == NODETYPE_VANILLA {
 		workData.reverseNodes(rootNode)
 	} else {
 
-- 
2.43.0


From f7fc3e461e8db315a080a5c1977633695d904ceb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:49:14 +0000
Subject: [PATCH 21/56] fix: crash when segs of the subsector being moved end
 past 65535

---
 node_outro.go | 5 +++--
 znodegen.go   | 4 ++--
 2 files changed, 5 insertions(+), 4 deletions(-)

diff --git a/node_outro.go b/node_outro.go
index 9cd7243..c86d4e0 100755
--- a/node_outro.go
+++ b/node_outro.go
@@ -145,8 +145,9 @@ func (w *NodesWork) fitSegsToTarget(maxSegIndex uint16, dryRun bool) (bool, int)
 			w.subsectors[biggestSubsector-1].SegCount
 	}
 
-	pivot := w.subsectors[biggestSubsector].FirstSeg
-	pivot2 := pivot + w.subsectors[biggestSubsector].SegCount
+	// the end of the subsector may be beyond what 16-bit value can represent
+	pivot := uint32(w.subsectors[biggestSubsector].FirstSeg)
+	pivot2 := pivot + uint32(w.subsectors[biggestSubsector].SegCount)
 	// Move pivot:pivot2 subslice to the end of w.segs slice
 	w.segs = append(w.segs[:pivot], append(w.segs[pivot2:], w.segs[pivot:pivot2]...)...)
 	for i := biggestSubsector + 1; i < len(w.subsectors); i++ {
diff --git a/znodegen.go b/znodegen.go
index f7fc43e..fe2ef42 100755
--- a/znodegen.go
+++ b/znodegen.go
@@ -1972,8 +1972,8 @@ func (w *ZExt_NodesWork) fitSegsToTarget(maxSegIndex uint16, dryRun bool) (bool,
 			w.subsectors[biggestSubsector-1].SegCount
 	}
 
-	pivot := w.subsectors[biggestSubsector].FirstSeg
-	pivot2 := pivot + w.subsectors[biggestSubsector].SegCount
+	pivot := uint32(w.subsectors[biggestSubsector].FirstSeg)
+	pivot2 := pivot + uint32(w.subsectors[biggestSubsector].SegCount)
 
 	w.segs = append(w.segs[:pivot], append(w.segs[pivot2:], w.segs[pivot:pivot2]...)...)
 	for i := biggestSubsector + 1; i < len(w.subsectors); i++ {
-- 
2.43.0


From 1c45f8043be43a4995dd23a63563ec8195865138 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:49:16 +0000
Subject: [PATCH 22/56] fix: vanilla nodes referred to wrong vertices when
 there are more than 65536

---
 nodegen.go  | 6 ++++++
 znodegen.go | 6 ++++++
 2 files changed, 12 insertions(+)

diff --git a/nodegen.go b/nodegen.go
index 936ee28..74354b8 100755
--- a/nodegen.go
+++ b/nodegen.go
@@ -864,6 +864,12 @@ func NodesGenerator(input *NodesInput) {
 				workData.totals.numSSectors)
 		}
 		workData.emptyNodesLumps()
+	} else if workData.nodeType == NODETYPE_VANILLA && len(workData.vertices) > 65536 {
+		if !cloneEarly {
+			Log.Error("Number of vertices is too large (%d) for this format. Lumps NODES, SEGS, SSECTORS will be emptied.\n",
+				len(workData.vertices))
+		}
+		workData.emptyNodesLumps()
 	} else if workData.tooManySegsCantFix(false) {
 		if !cloneEarly {
 			Log.Error("Number of segs is too large (%d) for this format. Lumps NODES, SEGS, SSECTORS will be emptied.\n",
diff --git a/znodegen.go b/znodegen.go
index fe2ef42..9fff8ac 100755
--- a/znodegen.go
+++ b/znodegen.go
@@ -554,6 +554,12 @@ func ZExt_NodesGenerator(input *NodesInput) {
 				workData.totals.numSSectors)
 		}
 		workData.emptyNodesLumps()
+	} else if workData.nodeType == NODETYPE_VANILLA && len(workData.vertices) > 65536 {
+		if !cloneEarly {
+			Log.Error("Number of vertices is too large (%d) for this format. Lumps NODES, SEGS, SSECTORS will be emptied.\n",
+				len(workData.vertices))
+		}
+		workData.emptyNodesLumps()
 	} else if workData.tooManySegsCantFix(false) {
 		if !cloneEarly {
 			Log.Error("Number of segs is too large (%d) for this format. Lumps NODES, SEGS, SSECTORS will be emptied.\n",
-- 
2.43.0


From 9a31adb8a9fbff4cb033fd9b4efebc88a4a6cc77 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:29:26 +0000
Subject: [PATCH 23/56] fix: --roots without linedefs of the requested kind

---
 multitree_plain.go | 17 ++++++++++-------
 znodegen.go        | 15 +++++++++------
 2 files changed, 19 insertions(+), 13 deletions(-)

diff --git a/multitree_plain.go b/multitree_plain.go
index cb9d3e0..4d1946c 100755
--- a/multitree_plain.go
+++ b/multitree_plain.go
@@ -129,18 +129,21 @@ func MTPSentinel_MakeBestBSPTree(w *NodesWork, bbox *NodeBounds,
 	if config.Roots == 0 { // reference to global: config
 		rootSegCandidates = MTPSentinel_GetRootSegCandidates(w.allSegs,
 			rootChoiceMethod)
-		if len(rootSegCandidates) == 0 {
-			// no lines of the requested kind have segs, but some root has to be
-			// picked regardless
-			Log.Printf("Multi-tree: no linedefs of the requested kind, will try every linedef for root.\n")
-			rootSegCandidates = MTPSentinel_GetRootSegCandidates(w.allSegs,
-				MROOT_EVERY)
-		}
 	} else {
 		// code tree will pick from global config directly the needed things
 		// not a good API, admittedly
 		rootSegCandidates = MTP_ZenRootEnumerate(w, bbox)
 	}
+	if len(rootSegCandidates) == 0 {
+		// no lines of the requested kind have segs, but some root has to be
+		// picked regardless
+		Log.Printf("Multi-tree: no linedefs of the requested kind, will try every linedef for root.\n")
+		rootSegCandidates = MTPSentinel_GetRootSegCandidates(w.allSegs,
+			MROOT_EVERY)
+		if config.Roots > 0 && len(rootSegCandidates) > config.Roots { // reference to global: config
+			rootSegCandidates = rootSegCandidates[:config.Roots]
+		}
+	}
 	// whether vanilla nodes format is required or preferred, AND we should be
 	// choosing best tree among specifically vanilla whenever any vanilla-compatible
 	// tree exists
diff --git a/znodegen.go b/znodegen.go
index 9fff8ac..be71606 100755
--- a/znodegen.go
+++ b/znodegen.go
@@ -4293,16 +4293,19 @@ func ZExt_MTPSentinel_MakeBestBSPTree(w *ZExt_NodesWork, bbox *NodeBounds,
 	if config.Roots == 0 {
 		rootSegCandidates = ZExt_MTPSentinel_GetRootSegCandidates(w.allSegs,
 			rootChoiceMethod)
-		if len(rootSegCandidates) == 0 {
-
-			Log.Printf("Multi-tree: no linedefs of the requested kind, will try every linedef for root.\n")
-			rootSegCandidates = ZExt_MTPSentinel_GetRootSegCandidates(w.allSegs,
-				MROOT_EVERY)
-		}
 	} else {
 
 		rootSegCandidates = ZExt_MTP_ZenRootEnumerate(w, bbox)
 	}
+	if len(rootSegCandidates) == 0 {
+
+		Log.Printf("Multi-tree: no linedefs of the requested kind, will try every linedef for root.\n")
+		rootSegCandidates = ZExt_MTPSentinel_GetRootSegCandidates(w.allSegs,
+			MROOT_EVERY)
+		if config.Roots > 0 && len(rootSegCandidates) > config.Roots {
+			rootSegCandidates = rootSegCandidates[:config.Roots]
+		}
+	}
 
 	vanillaBias := w.nodeType == NODETYPE_VANILLA && !config.Ableist
 
-- 
2.43.0


From 28a745b2a642203230fab77868e096a261f4bc50 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:40:00 +0000
Subject: [PATCH 24/56] fix: reject ignored that bisecting and bisected line
 were to be swapped

adjustLinePair swapped its local pointers only, so that its caller went
on with the lines in the wrong roles
---
 reject.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/reject.go b/reject.go
index 1bfe34e..34a407b 100755
--- a/reject.go
+++ b/reject.go
@@ -1602,7 +1602,7 @@ func adjustLinePair(src, tgt *TransLine, bisects *bool) bool {
 	// Make sure that src doesn't bi-sect tgt
 	if ((y1 > 0) && (y2 < 0)) || ((y1 < 0) && (y2 > 0)) {
 		// Swap src & tgt then recalculate the endpoints
-		src, tgt = tgt, src
+		*src, *tgt = *tgt, *src
 
 		y1 = src.DX*(tgt.start.Y-src.start.Y) - src.DY*(tgt.start.X-src.start.X)
 		y2 = src.DX*(tgt.end.Y-src.start.Y) - src.DY*(tgt.end.X-src.start.X)
-- 
2.43.0


From 948820aa805b949a5ef046ee8693ef0bd02ca524 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:40:00 +0000
Subject: [PATCH 25/56] fix: reject line orientation when one line extended
 hits the other at its start

The region between the lines was a crossed one then, which could hide
sectors that can be seen
---
 reject.go     | 7 +++++++
 rejectFAST.go | 6 ++++++
 rejectSYMM.go | 6 ++++++
 3 files changed, 19 insertions(+)

diff --git a/reject.go b/reject.go
index 34a407b..491f851 100755
--- a/reject.go
+++ b/reject.go
@@ -1737,6 +1737,13 @@ func (r *RejectWork) divideRegion(src, tgt *TransLine) bool {
 	// See if we ran into an integer truncation problem (shortcut if we did)
 	if (crossPoint == *(src.start)) || (crossPoint == *(src.end)) {
 		Log.Verbose(3, "Reject: integer truncation detected in divideRegion for lines %d & %d\n", src.index, tgt.index)
+		if crossPoint == *(src.start) {
+			// all of src is on the side that requires tgt to be reversed
+			// (see below)
+			tgt.start, tgt.end = tgt.end, tgt.start
+			tgt.DX = -tgt.DX
+			tgt.DY = -tgt.DY
+		}
 		return r.checkLOS(src, tgt)
 	}
 
diff --git a/rejectFAST.go b/rejectFAST.go
index ba11544..fb022e6 100755
--- a/rejectFAST.go
+++ b/rejectFAST.go
@@ -1035,6 +1035,12 @@ func (r *FastRejectWork) divideRegion(src, tgt *TransLine) bool {
 
 	if (crossPoint == *(src.start)) || (crossPoint == *(src.end)) {
 		Log.Verbose(3, "Reject: integer truncation detected in divideRegion for lines %d & %d\n", src.index, tgt.index)
+		if crossPoint == *(src.start) {
+
+			tgt.start, tgt.end = tgt.end, tgt.start
+			tgt.DX = -tgt.DX
+			tgt.DY = -tgt.DY
+		}
 		return r.checkLOS(src, tgt)
 	}
 
diff --git a/rejectSYMM.go b/rejectSYMM.go
index fafff95..d0d91ec 100755
--- a/rejectSYMM.go
+++ b/rejectSYMM.go
@@ -967,6 +967,12 @@ func (r *SymmetricRejectWork) divideRegion(src, tgt *TransLine) bool {
 
 	if (crossPoint == *(src.start)) || (crossPoint == *(src.end)) {
 		Log.Verbose(3, "Reject: integer truncation detected in divideRegion for lines %d & %d\n", src.index, tgt.index)
+		if crossPoint == *(src.start) {
+
+			tgt.start, tgt.end = tgt.end, tgt.start
+			tgt.DX = -tgt.DX
+			tgt.DY = -tgt.DY
+		}
 		return r.checkLOS(src, tgt)
 	}
 
-- 
2.43.0


From 179ca4ce94cdfc92f66d2b6a0aa6a317b5286353 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:43:35 +0000
Subject: [PATCH 26/56] fix: pedantic self-referencing sector trace took the
 wrong side of the line it hit

It also walked the trace in the wrong direction past other
self-referencing sectors, and took the edge of the blockmap for line 0
---
 reject.go     | 62 ++++++++++++++++-----------------------------------
 rejectFAST.go | 41 +++++++++++++---------------------
 rejectSYMM.go | 41 +++++++++++++---------------------
 3 files changed, 51 insertions(+), 93 deletions(-)

diff --git a/reject.go b/reject.go
index 491f851..1381ee6 100755
--- a/reject.go
+++ b/reject.go
@@ -851,9 +851,6 @@ func (r *RejectWork) setupLines(rsetup *RejectInternalSetup) (setupDone bool,
 	return numTransLines > 0, "Reject builder: not a single two-sided linedef between two distinct sectors was found. You will have a zero-filled REJECT.\n"
 }
 
-// FIXME there remain errors in this function. Traces one of the sectors in
-// first map of Hexen as self-referencing because it picks wrong side of the
-// line by mistake. Looks like there are things to improve...
 func (r *RejectWork) traceSelfRefLines(numTransLines *int, numSolidLines *int,
 	sector uint16, perimeter []uint16, it *BlockityLines,
 	lineTraces map[[2]IntOrientedVertex]IntCollinearOrientedVertices,
@@ -1013,15 +1010,9 @@ func (r *RejectWork) traceSelfRefLines(numTransLines *int, numSolidLines *int,
 			// Try next line
 			continue
 		}
-		// Pick any point (let's take the first one) of currently traced line
-		// segment to evaluate which side this point is from line segment
-		// intersecting the trace
-		nv3 := &NodeVertex{
-			X: Number(X1),
-			Y: Number(Y1),
-		}
 		lineThatWasTraced := i
-		for i := leftStart; i >= 0; i++ {
+		// Element 0 of trace is where it enters the blockmap, not a line
+		for i := leftStart; i > 0; i-- {
 			aline := uint16(trace[i].v.idx)
 			// Multiple self-referencing sectors can coexist inside one sector
 			// that surrounds them. So, make sure line didn't come from another
@@ -1034,7 +1025,7 @@ func (r *RejectWork) traceSelfRefLines(numTransLines *int, numSolidLines *int,
 			if uint16(r.input.lines.GetFlags(aline))&LF_TWOSIDED == LF_TWOSIDED {
 				fSide := r.input.lines.GetSidedefIndex(aline, true)
 				bSide := r.input.lines.GetSidedefIndex(aline, false)
-				if fSide != SIDEDEF_NONE || bSide != SIDEDEF_NONE {
+				if fSide != SIDEDEF_NONE && bSide != SIDEDEF_NONE {
 					fSector := r.input.sidedefs[fSide].Sector
 					bSector := r.input.sidedefs[bSide].Sector
 					if fSector == bSector {
@@ -1044,39 +1035,24 @@ func (r *RejectWork) traceSelfRefLines(numTransLines *int, numSolidLines *int,
 			}
 			// Ok, we are hitting a good line it seems
 			TX1, TY1, TX2, TY2 := r.input.lines.GetAllXY(aline)
-			nv1 := &NodeVertex{
-				X: Number(TX1),
-				Y: Number(TY1),
-			}
-			nv2 := &NodeVertex{
-				X: Number(TX2),
-				Y: Number(TY2),
+			hX, hY := int(trace[i].v.X), int(trace[i].v.Y)
+			if (Abs(hX-TX1) <= 1 && Abs(hY-TY1) <= 1) ||
+				(Abs(hX-TX2) <= 1 && Abs(hY-TY2) <= 1) {
+				// It is hit at its end, where several lines may meet (and hit
+				// coordinates are rounded): can't tell which one is to decide
+				Log.Verbose(2, "Reject: sector %d traced line %d hit line %d at its end, ignoring the trace.\n",
+					sector, lineThatWasTraced, aline)
+				break
 			}
-			// FIXME there may still be an error here somewhere. Not to say that
-			// apparently changes in selfref.go are warranted. Something to
-			// rule out polygon of 2-sided lines nested in regular sector's true
-			// perimeter becoming a "self-referencing" perimeter
-			// Now calculate which side of line the point is. Whether line goes
-			// AB or BA, there shouldn't be a difference of where the point is
-			// relative to it. The calculation, however, depends on us starting
-			// triangle by walking the line in specific direction so that
-			// nv1'<nv2', which may or may not match the vector direction of
-			// line segment
-			if (nv1.X > nv2.X) || (nv1.X == nv2.X && nv1.Y > nv2.Y) {
-				// Swap the points
-				nv1, nv2 = nv2, nv1
-			} else if nv1.X < nv2.X && nv1.Y > nv2.Y { // recent addition!
-				// Also swap? This seems to fix Hexen map01 (no sectors shall
-				// be self-referencing), but I'm afraid of breaking something
-				// else. Without this, 210 is becoming self-referencing with
-				// 207 assigned to the interior 2-sided lines
-				nv1, nv2 = nv2, nv1
+			// Now calculate on which side of the line being hit the traced
+			// line segment is (any its point will do)
+			side := (TX2-TX1)*(Y1-TY1) - (TY2-TY1)*(X1-TX1)
+			Log.Verbose(3, "Reject: sector %d traced line %d hit line %d, side = %d.\n",
+				sector, lineThatWasTraced, aline, side)
+			if side == 0 {
+				break
 			}
-			isLeft := !IntIsClockwiseTriangle(nv1, nv2, nv3)
-			Log.Verbose(3, "Reject: sector %d traced line %d hit line %d, left = %t, traceLeft = %t.\n",
-				sector, lineThatWasTraced, aline, isLeft, trace[i].left)
-			// Compare where the point is to where the intersecting line looks
-			if isLeft == trace[i].left { // line is looking towards the point
+			if side < 0 { // line is looking towards the point
 				// front side is where our sector is
 				fSide := r.input.lines.GetSidedefIndex(aline, true)
 				if fSide == SIDEDEF_NONE {
diff --git a/rejectFAST.go b/rejectFAST.go
index fb022e6..7847e02 100755
--- a/rejectFAST.go
+++ b/rejectFAST.go
@@ -632,19 +632,15 @@ func (r *FastRejectWork) traceSelfRefLines(numTransLines *int, numSolidLines *in
 
 			continue
 		}
-
-		nv3 := &NodeVertex{
-			X: Number(X1),
-			Y: Number(Y1),
-		}
 		lineThatWasTraced := i
-		for i := leftStart; i >= 0; i++ {
+
+		for i := leftStart; i > 0; i-- {
 			aline := uint16(trace[i].v.idx)
 
 			if uint16(r.input.lines.GetFlags(aline))&LF_TWOSIDED == LF_TWOSIDED {
 				fSide := r.input.lines.GetSidedefIndex(aline, true)
 				bSide := r.input.lines.GetSidedefIndex(aline, false)
-				if fSide != SIDEDEF_NONE || bSide != SIDEDEF_NONE {
+				if fSide != SIDEDEF_NONE && bSide != SIDEDEF_NONE {
 					fSector := r.input.sidedefs[fSide].Sector
 					bSector := r.input.sidedefs[bSide].Sector
 					if fSector == bSector {
@@ -654,27 +650,22 @@ func (r *FastRejectWork) traceSelfRefLines(numTransLines *int, numSolidLines *in
 			}
 
 			TX1, TY1, TX2, TY2 := r.input.lines.GetAllXY(aline)
-			nv1 := &NodeVertex{
-				X: Number(TX1),
-				Y: Number(TY1),
-			}
-			nv2 := &NodeVertex{
-				X: Number(TX2),
-				Y: Number(TY2),
-			}
+			hX, hY := int(trace[i].v.X), int(trace[i].v.Y)
+			if (Abs(hX-TX1) <= 1 && Abs(hY-TY1) <= 1) ||
+				(Abs(hX-TX2) <= 1 && Abs(hY-TY2) <= 1) {
 
-			if (nv1.X > nv2.X) || (nv1.X == nv2.X && nv1.Y > nv2.Y) {
-
-				nv1, nv2 = nv2, nv1
-			} else if nv1.X < nv2.X && nv1.Y > nv2.Y {
-
-				nv1, nv2 = nv2, nv1
+				Log.Verbose(2, "Reject: sector %d traced line %d hit line %d at its end, ignoring the trace.\n",
+					sector, lineThatWasTraced, aline)
+				break
 			}
-			isLeft := !IntIsClockwiseTriangle(nv1, nv2, nv3)
-			Log.Verbose(3, "Reject: sector %d traced line %d hit line %d, left = %t, traceLeft = %t.\n",
-				sector, lineThatWasTraced, aline, isLeft, trace[i].left)
 
-			if isLeft == trace[i].left {
+			side := (TX2-TX1)*(Y1-TY1) - (TY2-TY1)*(X1-TX1)
+			Log.Verbose(3, "Reject: sector %d traced line %d hit line %d, side = %d.\n",
+				sector, lineThatWasTraced, aline, side)
+			if side == 0 {
+				break
+			}
+			if side < 0 {
 
 				fSide := r.input.lines.GetSidedefIndex(aline, true)
 				if fSide == SIDEDEF_NONE {
diff --git a/rejectSYMM.go b/rejectSYMM.go
index d0d91ec..677ad02 100755
--- a/rejectSYMM.go
+++ b/rejectSYMM.go
@@ -580,19 +580,15 @@ func (r *SymmetricRejectWork) traceSelfRefLines(numTransLines *int, numSolidLine
 
 			continue
 		}
-
-		nv3 := &NodeVertex{
-			X: Number(X1),
-			Y: Number(Y1),
-		}
 		lineThatWasTraced := i
-		for i := leftStart; i >= 0; i++ {
+
+		for i := leftStart; i > 0; i-- {
 			aline := uint16(trace[i].v.idx)
 
 			if uint16(r.input.lines.GetFlags(aline))&LF_TWOSIDED == LF_TWOSIDED {
 				fSide := r.input.lines.GetSidedefIndex(aline, true)
 				bSide := r.input.lines.GetSidedefIndex(aline, false)
-				if fSide != SIDEDEF_NONE || bSide != SIDEDEF_NONE {
+				if fSide != SIDEDEF_NONE && bSide != SIDEDEF_NONE {
 					fSector := r.input.sidedefs[fSide].Sector
 					bSector := r.input.sidedefs[bSide].Sector
 					if fSector == bSector {
@@ -602,27 +598,22 @@ func (r *SymmetricRejectWork) traceSelfRefLines(numTransLines *int, numSolidLine
 			}
 
 			TX1, TY1, TX2, TY2 := r.input.lines.GetAllXY(aline)
-			nv1 := &NodeVertex{
-				X: Number(TX1),
-				Y: Number(TY1),
-			}
-			nv2 := &NodeVertex{
-				X: Number(TX2),
-				Y: Number(TY2),
-			}
+			hX, hY := int(trace[i].v.X), int(trace[i].v.Y)
+			if (Abs(hX-TX1) <= 1 && Abs(hY-TY1) <= 1) ||
+				(Abs(hX-TX2) <= 1 && Abs(hY-TY2) <= 1) {
 
-			if (nv1.X > nv2.X) || (nv1.X == nv2.X && nv1.Y > nv2.Y) {
-
-				nv1, nv2 = nv2, nv1
-			} else if nv1.X < nv2.X && nv1.Y > nv2.Y {
-
-				nv1, nv2 = nv2, nv1
+				Log.Verbose(2, "Reject: sector %d traced line %d hit line %d at its end, ignoring the trace.\n",
+					sector, lineThatWasTraced, aline)
+				break
 			}
-			isLeft := !IntIsClockwiseTriangle(nv1, nv2, nv3)
-			Log.Verbose(3, "Reject: sector %d traced line %d hit line %d, left = %t, traceLeft = %t.\n",
-				sector, lineThatWasTraced, aline, isLeft, trace[i].left)
 
-			if isLeft == trace[i].left {
+			side := (TX2-TX1)*(Y1-TY1) - (TY2-TY1)*(X1-TX1)
+			Log.Verbose(3, "Reject: sector %d traced line %d hit line %d, side = %d.\n",
+				sector, lineThatWasTraced, aline, side)
+			if side == 0 {
+				break
+			}
+			if side < 0 {
 
 				fSide := r.input.lines.GetSidedefIndex(aline, true)
 				if fSide == SIDEDEF_NONE {
-- 
2.43.0


From 5e75de38d9e965cdb700862a1b75fcd9ee948388 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:47:14 +0000
Subject: [PATCH 27/56] fix: sectors with lines that reference them on both
 sides were hidden from closed rooms

The self-referencing sector may be inside the room, being all there is in
it; whether it stayed visible depended on the order of sector numbers
---
 reject.go     | 52 ++++++++++++++++++++++++---------------------------
 rejectFAST.go | 36 ++++++++++++++++-------------------
 rejectSYMM.go | 36 ++++++++++++++++-------------------
 3 files changed, 56 insertions(+), 68 deletions(-)

diff --git a/reject.go b/reject.go
index 1381ee6..59c190c 100755
--- a/reject.go
+++ b/reject.go
@@ -1410,41 +1410,37 @@ func (r *RejectWork) eliminateTrivialCases(rsetup *RejectInternalSetup) {
 		}
 	}
 
+	// VigilantDoomer: self-referencing sectors must not be hidden. This is
+	// the way they are kept visible in modes other than pedantic, and as
+	// a fallback in pedantic mode. This also acknowledges that one of remotely
+	// located parts of sector can be self-referencing - made of only sly lines
+	// - the other may be a normal one. Thus anything with suspicious lines is
+	// marked as visible to all (and seeing all) sectors
+	// Must come before any sector gets hidden, as self-referencing sector may
+	// be all there is in a room that has no other see-through lines
+	for i := 0; i < r.numSectors; i++ {
+		sly, _ := rsetup.slyLinesInSector[uint16(i)]
+		if sly {
+			hackType := 2
+			if r.sectors[i].numLines == 0 {
+				hackType = 1
+			}
+			Log.Verbose(1, "REJECT: HACK Sector %d marked as visible to all (type: %d).\n", i, hackType)
+			for j := 0; j < r.numSectors; j++ {
+				r.markVisibilitySector(i, j, VIS_VISIBLE)
+			}
+		}
+	}
+
 	for i := 0; i < r.numSectors; i++ {
 		// each sector can see itself
 		*(r.rejectTableIJ(i, i)) = VIS_VISIBLE
 
 		// zennode thinks: all sectors with no seethrough lines can't see
 		// (be seen by) others
-		// VigilantDoomer: self-referencing sectors must not be hidden. This is
-		// the way they are kept visible in modes other than pedantic, and as
-		// a fallback in pedantic mode
 		if r.sectors[i].numLines == 0 {
-			sly, _ := rsetup.slyLinesInSector[uint16(i)]
-			if !sly {
-				for j := 0; j < r.numSectors; j++ {
-					r.markVisibilitySector(i, j, VIS_HIDDEN)
-				}
-			} else {
-				// If any non-solid lines with both references set to same
-				// sector exist, assume this could be self-referencing sector
-				// and keep it visible to ALL
-				Log.Verbose(1, "REJECT: HACK Sector %d marked as visible to all (type: 1).\n", i)
-				for j := 0; j < r.numSectors; j++ {
-					r.markVisibilitySector(i, j, VIS_VISIBLE)
-				}
-			}
-		} else {
-			// This acknowledges that one of remotely located parts of sector
-			// can be self-referencing - made of only sly lines - the other may
-			// be a normal one. Thus anything with suspicious lines is marked
-			// as visible to all (and seeing all) sectors
-			sly, _ := rsetup.slyLinesInSector[uint16(i)]
-			if sly {
-				Log.Verbose(1, "REJECT: HACK Sector %d marked as visible to all (type: 2).\n", i)
-				for j := 0; j < r.numSectors; j++ {
-					r.markVisibilitySector(i, j, VIS_VISIBLE)
-				}
+			for j := 0; j < r.numSectors; j++ {
+				r.markVisibilitySector(i, j, VIS_HIDDEN)
 			}
 		}
 
diff --git a/rejectFAST.go b/rejectFAST.go
index 7847e02..3d6c573 100755
--- a/rejectFAST.go
+++ b/rejectFAST.go
@@ -850,31 +850,27 @@ func (r *FastRejectWork) eliminateTrivialCases(rsetup *RejectInternalSetup) {
 		}
 	}
 
+	for i := 0; i < r.numSectors; i++ {
+		sly, _ := rsetup.slyLinesInSector[uint16(i)]
+		if sly {
+			hackType := 2
+			if r.sectors[i].numLines == 0 {
+				hackType = 1
+			}
+			Log.Verbose(1, "REJECT: HACK Sector %d marked as visible to all (type: %d).\n", i, hackType)
+			for j := 0; j < r.numSectors; j++ {
+				r.markVisibilitySector(i, j, VIS_VISIBLE)
+			}
+		}
+	}
+
 	for i := 0; i < r.numSectors; i++ {
 
 		*(r.rejectTableIJ(i, i)) = VIS_VISIBLE
 
 		if r.sectors[i].numLines == 0 {
-			sly, _ := rsetup.slyLinesInSector[uint16(i)]
-			if !sly {
-				for j := 0; j < r.numSectors; j++ {
-					r.markVisibilitySector(i, j, VIS_HIDDEN)
-				}
-			} else {
-
-				Log.Verbose(1, "REJECT: HACK Sector %d marked as visible to all (type: 1).\n", i)
-				for j := 0; j < r.numSectors; j++ {
-					r.markVisibilitySector(i, j, VIS_VISIBLE)
-				}
-			}
-		} else {
-
-			sly, _ := rsetup.slyLinesInSector[uint16(i)]
-			if sly {
-				Log.Verbose(1, "REJECT: HACK Sector %d marked as visible to all (type: 2).\n", i)
-				for j := 0; j < r.numSectors; j++ {
-					r.markVisibilitySector(i, j, VIS_VISIBLE)
-				}
+			for j := 0; j < r.numSectors; j++ {
+				r.markVisibilitySector(i, j, VIS_HIDDEN)
 			}
 		}
 
diff --git a/rejectSYMM.go b/rejectSYMM.go
index 677ad02..6451a7b 100755
--- a/rejectSYMM.go
+++ b/rejectSYMM.go
@@ -782,31 +782,27 @@ func (r *SymmetricRejectWork) eliminateTrivialCases(rsetup *RejectInternalSetup)
 		}
 	}
 
+	for i := 0; i < r.numSectors; i++ {
+		sly, _ := rsetup.slyLinesInSector[uint16(i)]
+		if sly {
+			hackType := 2
+			if r.sectors[i].numLines == 0 {
+				hackType = 1
+			}
+			Log.Verbose(1, "REJECT: HACK Sector %d marked as visible to all (type: %d).\n", i, hackType)
+			for j := 0; j < r.numSectors; j++ {
+				r.markVisibilitySector(i, j, VIS_VISIBLE)
+			}
+		}
+	}
+
 	for i := 0; i < r.numSectors; i++ {
 
 		*(r.rejectTableIJ(i, i)) = VIS_VISIBLE
 
 		if r.sectors[i].numLines == 0 {
-			sly, _ := rsetup.slyLinesInSector[uint16(i)]
-			if !sly {
-				for j := 0; j < r.numSectors; j++ {
-					r.markVisibilitySector(i, j, VIS_HIDDEN)
-				}
-			} else {
-
-				Log.Verbose(1, "REJECT: HACK Sector %d marked as visible to all (type: 1).\n", i)
-				for j := 0; j < r.numSectors; j++ {
-					r.markVisibilitySector(i, j, VIS_VISIBLE)
-				}
-			}
-		} else {
-
-			sly, _ := rsetup.slyLinesInSector[uint16(i)]
-			if sly {
-				Log.Verbose(1, "REJECT: HACK Sector %d marked as visible to all (type: 2).\n", i)
-				for j := 0; j < r.numSectors; j++ {
-					r.markVisibilitySector(i, j, VIS_VISIBLE)
-				}
+			for j := 0; j < r.numSectors; j++ {
+				r.markVisibilitySector(i, j, VIS_HIDDEN)
 			}
 		}
 
-- 
2.43.0


From e9d01f4ca09c3368597f46a12448c601dd83e6b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:07:56 +0000
Subject: [PATCH 28/56] fix: NOPROCESS could not take the table from a level of
 the input wad that is not rebuilt

The schedule and directory used to look it up were those of the levels to
be rebuilt, and got changed while output was being arranged.
---
 vigilantbsp.go | 16 ++++++++++++----
 1 file changed, 12 insertions(+), 4 deletions(-)

diff --git a/vigilantbsp.go b/vigilantbsp.go
index 66363f9..5d70eea 100755
--- a/vigilantbsp.go
+++ b/vigilantbsp.go
@@ -136,10 +136,18 @@ func main() {
 	wadDir := LoadWadDirectory(true, le, rejectsize, troll, config.Eject, RMB)
 	ScheduleRoot, validities, lvls := wadDir.scheduleRoot, wadDir.validities,
 		wadDir.lvls
-	mainFileControl.inputWad = &PinnedWad{
-		le:           le,
-		scheduleRoot: ScheduleRoot,
-		readerAt:     f,
+	if RMB != nil {
+		// Any level in the input wad can be a source for NOPROCESS, including
+		// those that won't be rebuilt themselves, and both directory and
+		// schedule used to look it up must not be affected by changes that
+		// happen when output is being arranged and written
+		leCopy := append([]LumpEntry(nil), le...)
+		mainFileControl.inputWad = &PinnedWad{
+			le: leCopy,
+			scheduleRoot: LoadWadDirectory(false, leCopy, nil, nil, false,
+				nil).scheduleRoot,
+			readerAt: f,
+		}
 	}
 
 	if ScheduleRoot == nil {
-- 
2.43.0


From cfe8406c486e79ef2c1123472c353fff501919af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:09:19 +0000
Subject: [PATCH 29/56] fix: INVERT BAND BLIND and INVERT BAND SAFE hid
 everything

Limits were assigned the same as for normal BAND, so the two halves
covered every distance instead of those outside of the band.
---
 rejectFAST.go | 14 ++++++++++----
 rejectRMB.go  | 16 ++++++++++++----
 rejectSYMM.go | 14 ++++++++++----
 3 files changed, 32 insertions(+), 12 deletions(-)

diff --git a/rejectFAST.go b/rejectFAST.go
index 3d6c573..d6713fc 100755
--- a/rejectFAST.go
+++ b/rejectFAST.go
@@ -1132,12 +1132,15 @@ func (r *FastRejectWork) prepareBlind(command RMBCommand, sectors []SectorRMB) {
 					continue
 				}
 				if command.Invert {
+
 					sector.Blind = 7
+					sector.BlindLo = command.Data[1]
+					sector.BlindHi = command.Data[0]
 				} else {
 					sector.Blind = 4
+					sector.BlindLo = command.Data[0]
+					sector.BlindHi = command.Data[1]
 				}
-				sector.BlindLo = command.Data[0]
-				sector.BlindHi = command.Data[1]
 			}
 		}
 	} else {
@@ -1172,12 +1175,15 @@ func (r *FastRejectWork) prepareSafe(command RMBCommand, sectors []SectorRMB) {
 					continue
 				}
 				if command.Invert {
+
 					sector.Safe = 7
+					sector.SafeLo = command.Data[1]
+					sector.SafeHi = command.Data[0]
 				} else {
 					sector.Safe = 4
+					sector.SafeLo = command.Data[0]
+					sector.SafeHi = command.Data[1]
 				}
-				sector.SafeLo = command.Data[0]
-				sector.SafeHi = command.Data[1]
 			}
 		}
 	} else {
diff --git a/rejectRMB.go b/rejectRMB.go
index 1b65028..11677c8 100755
--- a/rejectRMB.go
+++ b/rejectRMB.go
@@ -325,12 +325,16 @@ func (r *RejectWork) prepareBlind(command RMBCommand, sectors []SectorRMB) {
 					continue
 				}
 				if command.Invert {
+					// everything outside of band: what is closer than its
+					// start, and what is not closer than its end
 					sector.Blind = 7
+					sector.BlindLo = command.Data[1]
+					sector.BlindHi = command.Data[0]
 				} else {
 					sector.Blind = 4
+					sector.BlindLo = command.Data[0]
+					sector.BlindHi = command.Data[1]
 				}
-				sector.BlindLo = command.Data[0]
-				sector.BlindHi = command.Data[1]
 			}
 		}
 	} else {
@@ -366,12 +370,16 @@ func (r *RejectWork) prepareSafe(command RMBCommand, sectors []SectorRMB) {
 					continue
 				}
 				if command.Invert {
+					// everything outside of band: what is closer than its
+					// start, and what is not closer than its end
 					sector.Safe = 7
+					sector.SafeLo = command.Data[1]
+					sector.SafeHi = command.Data[0]
 				} else {
 					sector.Safe = 4
+					sector.SafeLo = command.Data[0]
+					sector.SafeHi = command.Data[1]
 				}
-				sector.SafeLo = command.Data[0]
-				sector.SafeHi = command.Data[1]
 			}
 		}
 	} else {
diff --git a/rejectSYMM.go b/rejectSYMM.go
index 6451a7b..34cedfd 100755
--- a/rejectSYMM.go
+++ b/rejectSYMM.go
@@ -1064,12 +1064,15 @@ func (r *SymmetricRejectWork) prepareBlind(command RMBCommand, sectors []SectorR
 					continue
 				}
 				if command.Invert {
+
 					sector.Blind = 7
+					sector.BlindLo = command.Data[1]
+					sector.BlindHi = command.Data[0]
 				} else {
 					sector.Blind = 4
+					sector.BlindLo = command.Data[0]
+					sector.BlindHi = command.Data[1]
 				}
-				sector.BlindLo = command.Data[0]
-				sector.BlindHi = command.Data[1]
 			}
 		}
 	} else {
@@ -1104,12 +1107,15 @@ func (r *SymmetricRejectWork) prepareSafe(command RMBCommand, sectors []SectorRM
 					continue
 				}
 				if command.Invert {
+
 					sector.Safe = 7
+					sector.SafeLo = command.Data[1]
+					sector.SafeHi = command.Data[0]
 				} else {
 					sector.Safe = 4
+					sector.SafeLo = command.Data[0]
+					sector.SafeHi = command.Data[1]
 				}
-				sector.SafeLo = command.Data[0]
-				sector.SafeHi = command.Data[1]
 			}
 		}
 	} else {
-- 
2.43.0


From a797b30a49959f945ec4bfd34f1dee1a225e89e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:09:25 +0000
Subject: [PATCH 30/56] fix: BLIND combined with INVERT BLIND (same for SAFE)
 hid everything when only the overlap has to be hidden

The condition was reversed, and simple variants (0 and 1) had none.
---
 rejectFAST.go | 24 ++++++++++++++----------
 rejectRMB.go  | 26 ++++++++++++++++----------
 rejectSYMM.go | 24 ++++++++++++++----------
 3 files changed, 44 insertions(+), 30 deletions(-)

diff --git a/rejectFAST.go b/rejectFAST.go
index d6713fc..04852b1 100755
--- a/rejectFAST.go
+++ b/rejectFAST.go
@@ -1222,11 +1222,9 @@ func (r *FastRejectWork) rmbGetGroup(sectors []SectorRMB, num int, command RMBCo
 }
 
 func (r *FastRejectWork) applyBlind(sector SectorRMB, i int) {
-	if sector.Blind == 3 {
-		if sector.BlindLo > sector.BlindHi {
-			sector.BlindLo, sector.BlindHi = sector.BlindHi, sector.BlindLo
-			sector.Blind = 4
-		}
+	if sector.Blind == 3 && sector.BlindLo < sector.BlindHi {
+
+		sector.Blind = 4
 	}
 
 	for j := 0; j < r.numSectors; j++ {
@@ -1255,11 +1253,9 @@ func (r *FastRejectWork) applyBlind(sector SectorRMB, i int) {
 }
 
 func (r *FastRejectWork) applySafe(sector SectorRMB, i int) {
-	if sector.Safe == 3 {
-		if sector.SafeLo > sector.SafeHi {
-			sector.SafeLo, sector.SafeHi = sector.SafeHi, sector.SafeLo
-			sector.Safe = 4
-		}
+	if sector.Safe == 3 && sector.SafeLo < sector.SafeHi {
+
+		sector.Safe = 4
 	}
 
 	for j := 0; j < r.numSectors; j++ {
@@ -1602,6 +1598,10 @@ func (fr *RMBFrame) FastprocessSimpleBlindSafeOptions(r *FastRejectWork, sectors
 }
 
 func (r *FastRejectWork) applySimpleBlind(sector SectorRMB, i int) {
+	if sector.Blind == 3 && sector.BlindLo == 0 && sector.BlindHi == 1 {
+
+		sector.Blind = 2
+	}
 
 	grI := r.groups[i].parent
 	for j := 0; j < r.numSectors; j++ {
@@ -1627,6 +1627,10 @@ func (r *FastRejectWork) applySimpleBlind(sector SectorRMB, i int) {
 }
 
 func (r *FastRejectWork) applySimpleSafe(sector SectorRMB, i int) {
+	if sector.Safe == 3 && sector.SafeLo == 0 && sector.SafeHi == 1 {
+
+		sector.Safe = 2
+	}
 
 	grI := r.groups[i].parent
 	for j := 0; j < r.numSectors; j++ {
diff --git a/rejectRMB.go b/rejectRMB.go
index 11677c8..3481984 100755
--- a/rejectRMB.go
+++ b/rejectRMB.go
@@ -434,11 +434,10 @@ func rmbCheckSectorInRange(numSectors, i int, command RMBCommand) bool {
 }
 
 func (r *RejectWork) applyBlind(sector SectorRMB, i int) {
-	if sector.Blind == 3 {
-		if sector.BlindLo > sector.BlindHi {
-			sector.BlindLo, sector.BlindHi = sector.BlindHi, sector.BlindLo
-			sector.Blind = 4
-		}
+	if sector.Blind == 3 && sector.BlindLo < sector.BlindHi {
+		// Ranges of normal and inverse overlap: RMB manual says it is only the
+		// overlap that is affected then
+		sector.Blind = 4
 	}
 
 	for j := 0; j < r.numSectors; j++ {
@@ -474,11 +473,10 @@ func (r *RejectWork) applyBlind(sector SectorRMB, i int) {
 }
 
 func (r *RejectWork) applySafe(sector SectorRMB, i int) {
-	if sector.Safe == 3 {
-		if sector.SafeLo > sector.SafeHi {
-			sector.SafeLo, sector.SafeHi = sector.SafeHi, sector.SafeLo
-			sector.Safe = 4
-		}
+	if sector.Safe == 3 && sector.SafeLo < sector.SafeHi {
+		// Ranges of normal and inverse overlap: RMB manual says it is only the
+		// overlap that is affected then
+		sector.Safe = 4
 	}
 
 	for j := 0; j < r.numSectors; j++ {
@@ -1185,6 +1183,10 @@ func (fr *RMBFrame) processSimpleBlindSafeOptions(r *RejectWork,
 }
 
 func (r *RejectWork) applySimpleBlind(sector SectorRMB, i int) {
+	if sector.Blind == 3 && sector.BlindLo == 0 && sector.BlindHi == 1 {
+		// Ranges overlap, and only the overlap is affected, see applyBlind
+		sector.Blind = 2
+	}
 	// Not relying on distanceTable means having to account for groups here
 	grI := r.groups[i].parent
 	for j := 0; j < r.numSectors; j++ {
@@ -1211,6 +1213,10 @@ func (r *RejectWork) applySimpleBlind(sector SectorRMB, i int) {
 }
 
 func (r *RejectWork) applySimpleSafe(sector SectorRMB, i int) {
+	if sector.Safe == 3 && sector.SafeLo == 0 && sector.SafeHi == 1 {
+		// Ranges overlap, and only the overlap is affected, see applySafe
+		sector.Safe = 2
+	}
 	// Not relying on distanceTable means having to account for groups here
 	grI := r.groups[i].parent
 	for j := 0; j < r.numSectors; j++ {
diff --git a/rejectSYMM.go b/rejectSYMM.go
index 34cedfd..35f72ff 100755
--- a/rejectSYMM.go
+++ b/rejectSYMM.go
@@ -1154,11 +1154,9 @@ func (r *SymmetricRejectWork) rmbGetGroup(sectors []SectorRMB, num int, command
 }
 
 func (r *SymmetricRejectWork) applyBlind(sector SectorRMB, i int) {
-	if sector.Blind == 3 {
-		if sector.BlindLo > sector.BlindHi {
-			sector.BlindLo, sector.BlindHi = sector.BlindHi, sector.BlindLo
-			sector.Blind = 4
-		}
+	if sector.Blind == 3 && sector.BlindLo < sector.BlindHi {
+
+		sector.Blind = 4
 	}
 
 	for j := 0; j < r.numSectors; j++ {
@@ -1187,11 +1185,9 @@ func (r *SymmetricRejectWork) applyBlind(sector SectorRMB, i int) {
 }
 
 func (r *SymmetricRejectWork) applySafe(sector SectorRMB, i int) {
-	if sector.Safe == 3 {
-		if sector.SafeLo > sector.SafeHi {
-			sector.SafeLo, sector.SafeHi = sector.SafeHi, sector.SafeLo
-			sector.Safe = 4
-		}
+	if sector.Safe == 3 && sector.SafeLo < sector.SafeHi {
+
+		sector.Safe = 4
 	}
 
 	for j := 0; j < r.numSectors; j++ {
@@ -1519,6 +1515,10 @@ func (fr *RMBFrame) SymmetricprocessSimpleBlindSafeOptions(r *SymmetricRejectWor
 }
 
 func (r *SymmetricRejectWork) applySimpleBlind(sector SectorRMB, i int) {
+	if sector.Blind == 3 && sector.BlindLo == 0 && sector.BlindHi == 1 {
+
+		sector.Blind = 2
+	}
 
 	grI := r.groups[i].parent
 	for j := 0; j < r.numSectors; j++ {
@@ -1544,6 +1544,10 @@ func (r *SymmetricRejectWork) applySimpleBlind(sector SectorRMB, i int) {
 }
 
 func (r *SymmetricRejectWork) applySimpleSafe(sector SectorRMB, i int) {
+	if sector.Safe == 3 && sector.SafeLo == 0 && sector.SafeHi == 1 {
+
+		sector.Safe = 2
+	}
 
 	grI := r.groups[i].parent
 	for j := 0; j < r.numSectors; j++ {
-- 
2.43.0


From 064ec251a488776b5e1328fa35decf6867603a94 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:09:30 +0000
Subject: [PATCH 31/56] fix: DISTANCE option compared a plain distance with the
 square of the limit, ignoring lines on one side

Distance from a point to the middle of a line was signed, and not a distance
at all (cross product divided by square of line length).
---
 rejectFAST.go | 7 ++-----
 rejectRMB.go  | 9 ++++-----
 rejectSYMM.go | 7 ++-----
 3 files changed, 8 insertions(+), 15 deletions(-)

diff --git a/rejectFAST.go b/rejectFAST.go
index 04852b1..ea4f30d 100755
--- a/rejectFAST.go
+++ b/rejectFAST.go
@@ -1478,11 +1478,8 @@ func (r *FastRejectWork) pointTooFar(p *IntVertex, line *TransLine) bool {
 		return !(r.mapDistance(p, p2) < r.maxDistance)
 	}
 
-	d := (int64(line.DX)*int64(p.Y-p1.Y) - int64(line.DY)*int64(p.X-p1.X)) / int64(line.H)
-	if d < 0 {
-		return false
-	}
-	return !(uint64(d) < r.maxDistance)
+	cross := float64(int64(line.DX)*int64(p.Y-p1.Y) - int64(line.DY)*int64(p.X-p1.X))
+	return !(cross*cross/float64(line.H) < float64(r.maxDistance))
 }
 
 func (r *FastRejectWork) mapDistance(p1, p2 *IntVertex) uint64 {
diff --git a/rejectRMB.go b/rejectRMB.go
index 3481984..a57be06 100755
--- a/rejectRMB.go
+++ b/rejectRMB.go
@@ -814,11 +814,10 @@ func (r *RejectWork) pointTooFar(p *IntVertex, line *TransLine) bool {
 		return !(r.mapDistance(p, p2) < r.maxDistance)
 	}
 
-	d := (int64(line.DX)*int64(p.Y-p1.Y) - int64(line.DY)*int64(p.X-p1.X)) / int64(line.H)
-	if d < 0 {
-		return false // guaranteed d < r.maxDistance, since maxDistance is non-negative
-	}
-	return !(uint64(d) < r.maxDistance)
+	// maxDistance is a square, so must be the distance to line (floating point
+	// because square of cross product might not fit in int64)
+	cross := float64(int64(line.DX)*int64(p.Y-p1.Y) - int64(line.DY)*int64(p.X-p1.X))
+	return !(cross*cross/float64(line.H) < float64(r.maxDistance))
 }
 
 func (r *RejectWork) mapDistance(p1, p2 *IntVertex) uint64 {
diff --git a/rejectSYMM.go b/rejectSYMM.go
index 35f72ff..237f204 100755
--- a/rejectSYMM.go
+++ b/rejectSYMM.go
@@ -1410,11 +1410,8 @@ func (r *SymmetricRejectWork) pointTooFar(p *IntVertex, line *TransLine) bool {
 		return !(r.mapDistance(p, p2) < r.maxDistance)
 	}
 
-	d := (int64(line.DX)*int64(p.Y-p1.Y) - int64(line.DY)*int64(p.X-p1.X)) / int64(line.H)
-	if d < 0 {
-		return false
-	}
-	return !(uint64(d) < r.maxDistance)
+	cross := float64(int64(line.DX)*int64(p.Y-p1.Y) - int64(line.DY)*int64(p.X-p1.X))
+	return !(cross*cross/float64(line.H) < float64(r.maxDistance))
 }
 
 func (r *SymmetricRejectWork) mapDistance(p1, p2 *IntVertex) uint64 {
-- 
2.43.0


From 91d5296b7b6a763ce994b8e9656604cc7703148f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:09:52 +0000
Subject: [PATCH 32/56] fix: DISTANCE option hid sectors separated by just one
 sector

RMB manual says no setting prevents such sectors from seeing each other.
---
 rejectFAST.go | 10 ++++++++++
 rejectRMB.go  | 12 ++++++++++++
 rejectSYMM.go | 10 ++++++++++
 3 files changed, 32 insertions(+)

diff --git a/rejectFAST.go b/rejectFAST.go
index ea4f30d..7af781d 100755
--- a/rejectFAST.go
+++ b/rejectFAST.go
@@ -1453,6 +1453,7 @@ func (r *FastRejectWork) distanceTableIJ(i, j int) *uint16 {
 
 func (r *FastRejectWork) linesTooFarApart(srcLine, tgtLine *TransLine) bool {
 	if r.maxDistance != UNLIMITED_DISTANCE &&
+		!r.linesShareSector(srcLine, tgtLine) &&
 		r.pointTooFar(srcLine.start, tgtLine) &&
 		r.pointTooFar(srcLine.end, tgtLine) &&
 		r.pointTooFar(tgtLine.start, srcLine) &&
@@ -1464,6 +1465,15 @@ func (r *FastRejectWork) linesTooFarApart(srcLine, tgtLine *TransLine) bool {
 	return false
 }
 
+func (r *FastRejectWork) linesShareSector(line1, line2 *TransLine) bool {
+	front1 := r.groups[line1.frontSector].parent
+	back1 := r.groups[line1.backSector].parent
+	front2 := r.groups[line2.frontSector].parent
+	back2 := r.groups[line2.backSector].parent
+	return front1 == front2 || front1 == back2 || back1 == front2 ||
+		back1 == back2
+}
+
 func (r *FastRejectWork) pointTooFar(p *IntVertex, line *TransLine) bool {
 	p1 := line.start
 	p2 := line.end
diff --git a/rejectRMB.go b/rejectRMB.go
index a57be06..1e2c421 100755
--- a/rejectRMB.go
+++ b/rejectRMB.go
@@ -789,6 +789,7 @@ func (r *RejectWork) distanceTableIJ(i, j int) *uint16 {
 
 func (r *RejectWork) linesTooFarApart(srcLine, tgtLine *TransLine) bool {
 	if r.maxDistance != UNLIMITED_DISTANCE &&
+		!r.linesShareSector(srcLine, tgtLine) &&
 		r.pointTooFar(srcLine.start, tgtLine) &&
 		r.pointTooFar(srcLine.end, tgtLine) &&
 		r.pointTooFar(tgtLine.start, srcLine) &&
@@ -800,6 +801,17 @@ func (r *RejectWork) linesTooFarApart(srcLine, tgtLine *TransLine) bool {
 	return false
 }
 
+// According to RMB manual, DISTANCE never prevents sectors from seeing each other
+// when there is just one sector between them
+func (r *RejectWork) linesShareSector(line1, line2 *TransLine) bool {
+	front1 := r.groups[line1.frontSector].parent
+	back1 := r.groups[line1.backSector].parent
+	front2 := r.groups[line2.frontSector].parent
+	back2 := r.groups[line2.backSector].parent
+	return front1 == front2 || front1 == back2 || back1 == front2 ||
+		back1 == back2
+}
+
 func (r *RejectWork) pointTooFar(p *IntVertex, line *TransLine) bool {
 	p1 := line.start
 	p2 := line.end
diff --git a/rejectSYMM.go b/rejectSYMM.go
index 237f204..52b9f26 100755
--- a/rejectSYMM.go
+++ b/rejectSYMM.go
@@ -1385,6 +1385,7 @@ func (r *SymmetricRejectWork) distanceTableIJ(i, j int) *uint16 {
 
 func (r *SymmetricRejectWork) linesTooFarApart(srcLine, tgtLine *TransLine) bool {
 	if r.maxDistance != UNLIMITED_DISTANCE &&
+		!r.linesShareSector(srcLine, tgtLine) &&
 		r.pointTooFar(srcLine.start, tgtLine) &&
 		r.pointTooFar(srcLine.end, tgtLine) &&
 		r.pointTooFar(tgtLine.start, srcLine) &&
@@ -1396,6 +1397,15 @@ func (r *SymmetricRejectWork) linesTooFarApart(srcLine, tgtLine *TransLine) bool
 	return false
 }
 
+func (r *SymmetricRejectWork) linesShareSector(line1, line2 *TransLine) bool {
+	front1 := r.groups[line1.frontSector].parent
+	back1 := r.groups[line1.backSector].parent
+	front2 := r.groups[line2.frontSector].parent
+	back2 := r.groups[line2.backSector].parent
+	return front1 == front2 || front1 == back2 || back1 == front2 ||
+		back1 == back2
+}
+
 func (r *SymmetricRejectWork) pointTooFar(p *IntVertex, line *TransLine) bool {
 	p1 := line.start
 	p2 := line.end
-- 
2.43.0


From 02457429e07a82ab2b864d8e2fe94896969125a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:10:43 +0000
Subject: [PATCH 33/56] fix: RMB options that use sector distances had no
 effect on a level without two-sided lines

And REPORT wrote nothing for it.
---
 reject.go     | 10 ++++++++++
 rejectFAST.go |  9 +++++++++
 rejectSYMM.go |  9 +++++++++
 3 files changed, 28 insertions(+)

diff --git a/reject.go b/reject.go
index 59c190c..28087b4 100755
--- a/reject.go
+++ b/reject.go
@@ -467,6 +467,16 @@ func (r *RejectWork) main(input RejectInput, hasGroups bool, groupShareVis bool,
 		// this is ok thing if it is result of NOPROCESS applying, and doesn't then
 		// mean an error
 		Log.Printf(causeSkip)
+		// not set if NOPROCESS applies
+		if rsetup.needDistances {
+			// The only distances are those within sector groups. Still, options
+			// that use them must not lose their effect
+			r.sectors = createSectorInfo(r.numSectors, r.transLines)
+			if r.hasGroups {
+				computeGroupNeighbors(r.groups, r.sectors)
+			}
+			r.CreateDistanceTable()
+		}
 	}
 
 	// Apply special RMB rules (now that all physical LOS calculations are either
diff --git a/rejectFAST.go b/rejectFAST.go
index 7af781d..95eee43 100755
--- a/rejectFAST.go
+++ b/rejectFAST.go
@@ -176,6 +176,15 @@ func (r *FastRejectWork) main(input RejectInput, hasGroups bool, groupShareVis b
 		r.NoNeedSolidBlockmap()
 
 		Log.Printf(causeSkip)
+
+		if rsetup.needDistances {
+
+			r.sectors = createSectorInfo(r.numSectors, r.transLines)
+			if r.hasGroups {
+				computeGroupNeighbors(r.groups, r.sectors)
+			}
+			r.CreateDistanceTable()
+		}
 	}
 
 	r.rmbFrame.FastProcessOptionsRMB(r)
diff --git a/rejectSYMM.go b/rejectSYMM.go
index 52b9f26..23af751 100755
--- a/rejectSYMM.go
+++ b/rejectSYMM.go
@@ -176,6 +176,15 @@ func (r *SymmetricRejectWork) main(input RejectInput, hasGroups bool, groupShare
 		r.NoNeedSolidBlockmap()
 
 		Log.Printf(causeSkip)
+
+		if rsetup.needDistances {
+
+			r.sectors = createSectorInfo(r.numSectors, r.transLines)
+			if r.hasGroups {
+				computeGroupNeighbors(r.groups, r.sectors)
+			}
+			r.CreateDistanceTable()
+		}
 	}
 
 	r.rmbFrame.SymmetricProcessOptionsRMB(r)
-- 
2.43.0


From cafe833bedccf2e844b4e6b2586eb3b1759faf50 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:12:25 +0000
Subject: [PATCH 34/56] fix: GROUP that includes head of another group lost the
 other sectors of that group

They kept referring to a group that was no longer legal.
---
 rejectRMB.go | 15 ++++++++++-----
 1 file changed, 10 insertions(+), 5 deletions(-)

diff --git a/rejectRMB.go b/rejectRMB.go
index 1e2c421..a8b0700 100755
--- a/rejectRMB.go
+++ b/rejectRMB.go
@@ -112,12 +112,17 @@ func (fr *RMBFrame) loadGroupsForFrame(groups []RejGroup) bool {
 					continue // ignore duplicate
 				}
 				b1 = true
-				groups[grI].sectors = append(groups[grI].sectors, v)
-				if v < groups[grI].minRepresentative {
-					groups[grI].minRepresentative = v
+				// If this sector has its own group defined earlier, then that
+				// entire group joins
+				for _, member := range groups[v].sectors {
+					groups[grI].sectors = append(groups[grI].sectors, member)
+					if member < groups[grI].minRepresentative {
+						groups[grI].minRepresentative = member
+					}
+					groups[member].legal = false
+					groups[member].parent = grI
 				}
-				groups[v].legal = false
-				groups[v].parent = grI
+				groups[v].sectors = []int{v}
 				dupChecker[v] = true
 			}
 		}
-- 
2.43.0


From 6d095e925b4983985a44efe9cfb4ce9fba6b22c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:19:12 +0000
Subject: [PATCH 35/56] fix: visibility of a group (GROUP with DISTANCE or
 LINE) not shared by its sectors without see-through lines

They were hidden from everything but the group itself. Neighbors of one
sector were not visible to the rest of group, either.
---
 reject.go     | 19 +++++++++++++++++--
 rejectFAST.go | 16 ++++++++++++++--
 rejectSYMM.go | 16 ++++++++++++++--
 3 files changed, 45 insertions(+), 6 deletions(-)

diff --git a/reject.go b/reject.go
index 28087b4..46de8fe 100755
--- a/reject.go
+++ b/reject.go
@@ -1448,7 +1448,8 @@ func (r *RejectWork) eliminateTrivialCases(rsetup *RejectInternalSetup) {
 
 		// zennode thinks: all sectors with no seethrough lines can't see
 		// (be seen by) others
-		if r.sectors[i].numLines == 0 {
+		// VigilantDoomer: unless they share visibility of other sectors in group
+		if r.sectors[i].numLines == 0 && !r.groupHasLines(i) {
 			for j := 0; j < r.numSectors; j++ {
 				r.markVisibilitySector(i, j, VIS_HIDDEN)
 			}
@@ -1462,12 +1463,26 @@ func (r *RejectWork) eliminateTrivialCases(rsetup *RejectInternalSetup) {
 		for j := 0; j < sec.numNeighbors; j++ {
 			nei := sec.neighbors[j]
 			if nei.index > sec.index {
-				r.markVisibilitySector(sec.index, nei.index, VIS_VISIBLE)
+				r.markVisibility(sec.index, nei.index, VIS_VISIBLE)
 			}
 		}
 	}
 }
 
+// Returns whether visibility is shared within groups and some sector in the same
+// group as this one has see-through lines
+func (r *RejectWork) groupHasLines(i int) bool {
+	if !r.groupShareVis {
+		return false
+	}
+	for _, si := range r.groups[r.groups[i].parent].sectors {
+		if r.sectors[si].numLines > 0 {
+			return true
+		}
+	}
+	return false
+}
+
 func reSectorsCompare(x reSectorsType, i, j int) int {
 	sec1 := x[i]
 	sec2 := x[j]
diff --git a/rejectFAST.go b/rejectFAST.go
index 95eee43..efd22f7 100755
--- a/rejectFAST.go
+++ b/rejectFAST.go
@@ -877,7 +877,7 @@ func (r *FastRejectWork) eliminateTrivialCases(rsetup *RejectInternalSetup) {
 
 		*(r.rejectTableIJ(i, i)) = VIS_VISIBLE
 
-		if r.sectors[i].numLines == 0 {
+		if r.sectors[i].numLines == 0 && !r.groupHasLines(i) {
 			for j := 0; j < r.numSectors; j++ {
 				r.markVisibilitySector(i, j, VIS_HIDDEN)
 			}
@@ -887,12 +887,24 @@ func (r *FastRejectWork) eliminateTrivialCases(rsetup *RejectInternalSetup) {
 		for j := 0; j < sec.numNeighbors; j++ {
 			nei := sec.neighbors[j]
 			if nei.index > sec.index {
-				r.markVisibilitySector(sec.index, nei.index, VIS_VISIBLE)
+				r.markVisibility(sec.index, nei.index, VIS_VISIBLE)
 			}
 		}
 	}
 }
 
+func (r *FastRejectWork) groupHasLines(i int) bool {
+	if !r.groupShareVis {
+		return false
+	}
+	for _, si := range r.groups[r.groups[i].parent].sectors {
+		if r.sectors[si].numLines > 0 {
+			return true
+		}
+	}
+	return false
+}
+
 func (r *FastRejectWork) testLinePair(srcLine, tgtLine *TransLine) bool {
 	done := r.getLineVisibilityDone(srcLine, tgtLine)
 	if done || r.dontBother(srcLine, tgtLine) {
diff --git a/rejectSYMM.go b/rejectSYMM.go
index 23af751..a30094c 100755
--- a/rejectSYMM.go
+++ b/rejectSYMM.go
@@ -809,7 +809,7 @@ func (r *SymmetricRejectWork) eliminateTrivialCases(rsetup *RejectInternalSetup)
 
 		*(r.rejectTableIJ(i, i)) = VIS_VISIBLE
 
-		if r.sectors[i].numLines == 0 {
+		if r.sectors[i].numLines == 0 && !r.groupHasLines(i) {
 			for j := 0; j < r.numSectors; j++ {
 				r.markVisibilitySector(i, j, VIS_HIDDEN)
 			}
@@ -819,12 +819,24 @@ func (r *SymmetricRejectWork) eliminateTrivialCases(rsetup *RejectInternalSetup)
 		for j := 0; j < sec.numNeighbors; j++ {
 			nei := sec.neighbors[j]
 			if nei.index > sec.index {
-				r.markVisibilitySector(sec.index, nei.index, VIS_VISIBLE)
+				r.markVisibility(sec.index, nei.index, VIS_VISIBLE)
 			}
 		}
 	}
 }
 
+func (r *SymmetricRejectWork) groupHasLines(i int) bool {
+	if !r.groupShareVis {
+		return false
+	}
+	for _, si := range r.groups[r.groups[i].parent].sectors {
+		if r.sectors[si].numLines > 0 {
+			return true
+		}
+	}
+	return false
+}
+
 func (r *SymmetricRejectWork) testLinePair(srcLine, tgtLine *TransLine) bool {
 	done := r.getLineVisibilityDone(srcLine, tgtLine)
 	if done || r.dontBother(srcLine, tgtLine) {
-- 
2.43.0


From 5b26b83e1f6e415608ef392d020d896f8004a9fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:31:28 +0000
Subject: [PATCH 36/56] fix: reject graphs left some sectors unprocessed when
 visibility is shared in groups, hiding them

Depth-first search also goes from sector to the rest of its group, but when
walking the resulting tree these edges were ignored.
---
 rejectDFS.go  | 19 ++++++++++++-------
 rejectFAST.go | 19 ++++++++++++-------
 rejectSYMM.go | 19 ++++++++++++-------
 3 files changed, 36 insertions(+), 21 deletions(-)

diff --git a/rejectDFS.go b/rejectDFS.go
index e7240e2..7d9eb47 100755
--- a/rejectDFS.go
+++ b/rejectDFS.go
@@ -310,8 +310,10 @@ func (w *RejectWork) ProcessSectorLines(key, root, sector *RejSector,
 			// Yep. Hide ourself
 			w.HideSectorFromComponents(root, sector)
 
-			for i := 0; i < sector.numNeighbors; i++ {
-				child := sector.neighbors[i]
+			for _, child := range w.DFSGetNeighborsAndGroupsiblings(sector) {
+				if child == nil {
+					break
+				}
 				if child.graphParent == sector {
 					// Hide any child components that aren't in the loop
 					if child.loDFS >= sector.indexDFS {
@@ -330,8 +332,10 @@ func (w *RejectWork) ProcessSectorLines(key, root, sector *RejSector,
 
 done:
 	// Continue checking all of our children
-	for i := 0; i < sector.numNeighbors; i++ {
-		child := sector.neighbors[i]
+	for _, child := range w.DFSGetNeighborsAndGroupsiblings(sector) {
+		if child == nil {
+			break
+		}
 		if child.graphParent == sector {
 			w.ProcessSectorLines(key, root, child, lines)
 		}
@@ -346,9 +350,10 @@ func (w *RejectWork) ProcessSector(sector *RejSector) {
 
 		lines := make([]*TransLine, sector.numLines+1)
 
-		for i := 0; i < sector.numNeighbors; i++ {
-
-			child := sector.neighbors[i]
+		for i, child := range w.DFSGetNeighborsAndGroupsiblings(sector) {
+			if child == nil {
+				break
+			}
 
 			// Find each child that is the start of a component of this sector
 			if child.graphParent == sector {
diff --git a/rejectFAST.go b/rejectFAST.go
index efd22f7..ba4c1ef 100755
--- a/rejectFAST.go
+++ b/rejectFAST.go
@@ -2115,8 +2115,10 @@ func (w *FastRejectWork) ProcessSectorLines(key, root, sector *RejSector,
 
 			w.HideSectorFromComponents(root, sector)
 
-			for i := 0; i < sector.numNeighbors; i++ {
-				child := sector.neighbors[i]
+			for _, child := range w.DFSGetNeighborsAndGroupsiblings(sector) {
+				if child == nil {
+					break
+				}
 				if child.graphParent == sector {
 
 					if child.loDFS >= sector.indexDFS {
@@ -2135,8 +2137,10 @@ func (w *FastRejectWork) ProcessSectorLines(key, root, sector *RejSector,
 
 done:
 
-	for i := 0; i < sector.numNeighbors; i++ {
-		child := sector.neighbors[i]
+	for _, child := range w.DFSGetNeighborsAndGroupsiblings(sector) {
+		if child == nil {
+			break
+		}
 		if child.graphParent == sector {
 			w.ProcessSectorLines(key, root, child, lines)
 		}
@@ -2150,9 +2154,10 @@ func (w *FastRejectWork) ProcessSector(sector *RejSector) {
 
 		lines := make([]*TransLine, sector.numLines+1)
 
-		for i := 0; i < sector.numNeighbors; i++ {
-
-			child := sector.neighbors[i]
+		for i, child := range w.DFSGetNeighborsAndGroupsiblings(sector) {
+			if child == nil {
+				break
+			}
 
 			if child.graphParent == sector {
 
diff --git a/rejectSYMM.go b/rejectSYMM.go
index a30094c..540c28d 100755
--- a/rejectSYMM.go
+++ b/rejectSYMM.go
@@ -2032,8 +2032,10 @@ func (w *SymmetricRejectWork) ProcessSectorLines(key, root, sector *RejSector,
 
 			w.HideSectorFromComponents(root, sector)
 
-			for i := 0; i < sector.numNeighbors; i++ {
-				child := sector.neighbors[i]
+			for _, child := range w.DFSGetNeighborsAndGroupsiblings(sector) {
+				if child == nil {
+					break
+				}
 				if child.graphParent == sector {
 
 					if child.loDFS >= sector.indexDFS {
@@ -2052,8 +2054,10 @@ func (w *SymmetricRejectWork) ProcessSectorLines(key, root, sector *RejSector,
 
 done:
 
-	for i := 0; i < sector.numNeighbors; i++ {
-		child := sector.neighbors[i]
+	for _, child := range w.DFSGetNeighborsAndGroupsiblings(sector) {
+		if child == nil {
+			break
+		}
 		if child.graphParent == sector {
 			w.ProcessSectorLines(key, root, child, lines)
 		}
@@ -2067,9 +2071,10 @@ func (w *SymmetricRejectWork) ProcessSector(sector *RejSector) {
 
 		lines := make([]*TransLine, sector.numLines+1)
 
-		for i := 0; i < sector.numNeighbors; i++ {
-
-			child := sector.neighbors[i]
+		for i, child := range w.DFSGetNeighborsAndGroupsiblings(sector) {
+			if child == nil {
+				break
+			}
 
 			if child.graphParent == sector {
 
-- 
2.43.0


From 62b380728338b0bfc9bd05ac34ee20e0ddc9ec56 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:33:46 +0000
Subject: [PATCH 37/56] fix: LENGTH combined with GROUP hid sectors that are
 close enough

Distances account for groups, but LOS computations, when it comes to graphs,
assumed that a sector can only be seen through those that are hidden because
of LENGTH. As with DISTANCE, groups have to be treated as one sector there.
---
 rejectRMB.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/rejectRMB.go b/rejectRMB.go
index a8b0700..a44a0e4 100755
--- a/rejectRMB.go
+++ b/rejectRMB.go
@@ -161,7 +161,7 @@ func (fr *RMBFrame) HasOptionTrickyForGroups() bool {
 	}
 	for _, cmd := range fr.Commands {
 		switch cmd.Type {
-		case RMB_DISTANCE, RMB_LINE:
+		case RMB_DISTANCE, RMB_LENGTH, RMB_LINE:
 			{
 				return true
 			}
-- 
2.43.0


From 89b5ed91da7e142a31b2211d79f8fed2fe5a6af7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:37:30 +0000
Subject: [PATCH 38/56] fix: distances between sectors without a path between
 them were left over from other sectors

Rows of the distance table overlap while it is being built.
---
 rejectRMB.go | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/rejectRMB.go b/rejectRMB.go
index a44a0e4..349d58c 100755
--- a/rejectRMB.go
+++ b/rejectRMB.go
@@ -644,6 +644,11 @@ func (r *RejectWork) CreateDistanceTable() {
 // computed using BFS, hence the name of function
 func BFS(sectors []RejSector, distanceRow []uint16, source uint16,
 	queue *RingU16) uint16 {
+	// Memory is shared with previous rows, what is not reached now might have
+	// been reached there
+	for i, _ := range distanceRow {
+		distanceRow[i] = 65535
+	}
 	visited := make([]bool, len(sectors))
 	visited[source] = true
 	distanceRow[source] = 0
@@ -728,6 +733,11 @@ func (r *RejectWork) distanceTableFromGroups(distanceTable []uint16,
 // from others in the row
 func GroupBFS(rejGroups []RejGroup, distanceRow []uint16, source uint16,
 	queue *RingU16) uint16 {
+	// Memory is shared with previous rows, what is not reached now might have
+	// been reached there
+	for i, _ := range distanceRow {
+		distanceRow[i] = 65535
+	}
 	visited := make([]bool, len(rejGroups))
 	visited[source] = true
 	distanceRow[source] = 0
-- 
2.43.0


From fb6f5fc80b739c56793a8ead82006d720359be62 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:05:37 +0000
Subject: [PATCH 39/56] fix: levels with references out of range and too big
 lump counts crashed the program

Such levels can't be rebuilt and are copied without changes, same as levels
with missing lumps
---
 vigilantbsp.go |   1 +
 wad.go         | 110 +++++++++++++++++++++++++++++++++++++++++++++++++
 2 files changed, 111 insertions(+)

diff --git a/vigilantbsp.go b/vigilantbsp.go
index 5d70eea..c1e0959 100755
--- a/vigilantbsp.go
+++ b/vigilantbsp.go
@@ -158,6 +158,7 @@ func main() {
 	// Now resize directory, add (or even delete) entries where needed, and place
 	// them in correct order. Levels missing mandatory lumps will be removed
 	// from processing and made to be just copied instead
+	FindDamagedLevels(f, le, validities)
 	le = UpdateDirectoryAndSchedule(le, &ScheduleRoot, validities)
 	wh.LumpCount = uint32(len(le))
 
diff --git a/wad.go b/wad.go
index ab170e4..2aaee6f 100644
--- a/wad.go
+++ b/wad.go
@@ -48,6 +48,7 @@ type LevelValidity struct {
 	currentOrder  []int
 	requisites    []int
 	creatable     []int
+	damage        string // what makes level data unusable, empty if nothing does
 }
 
 type PinnedWad struct {
@@ -238,6 +239,11 @@ func UpdateDirectoryAndSchedule(le []LumpEntry, scheduleRoot **ScheduledLump,
 					pendingDel += value - 1
 				}
 			}
+			if valid && validities[curLevel].damage != "" {
+				Log.Error("Level %s is not valid: %s\n", lvlName,
+					validities[curLevel].damage)
+				valid = false
+			}
 			oldLevelLen := len(scheduleEntry.Level)
 			if valid {
 				nSize -= pendingDel
@@ -538,6 +544,104 @@ func GetLumpName(le []LumpEntry, lump *ScheduledLump) string {
 	return string(ByteSliceBeforeTerm(le[lump.DirIndex].Name[:]))
 }
 
+// FindDamagedLevels marks the levels that refer to vertices, sidedefs or sectors
+// that don't exist, where these are going to be needed. Such levels can't be
+// rebuilt and are to be copied without changes
+func FindDamagedLevels(f io.ReaderAt, le []LumpEntry, validities []LevelValidity) {
+	needVertices := config.RebuildNodes || config.RebuildBlockmap ||
+		config.Reject == REJECT_NORMAL
+	needSidedefs := config.RebuildNodes || config.Reject == REJECT_NORMAL ||
+		(config.RebuildBlockmap && config.RemoveNonCollideable)
+	if !needVertices {
+		return
+	}
+	for i := range validities {
+		validity := &(validities[i])
+		if validity.scheduleEntry.LevelFormat == FORMAT_UDMF {
+			continue
+		}
+		validity.damage = findLevelDamage(f, le, validity, needSidedefs)
+	}
+}
+
+func findLevelDamage(f io.ReaderAt, le []LumpEntry, validity *LevelValidity,
+	needSidedefs bool) string {
+	getEntry := func(lumpName string) (LumpEntry, bool) {
+		for key, value := range validity.currentOrder {
+			if value >= 0 && LUMP_SORT_ORDER[key] == lumpName {
+				return le[value], true
+			}
+		}
+		return LumpEntry{}, false
+	}
+	eLines, ok1 := getEntry("LINEDEFS")
+	eSides, ok2 := getEntry("SIDEDEFS")
+	eVertices, ok3 := getEntry("VERTEXES")
+	eSectors, ok4 := getEntry("SECTORS")
+	if !ok1 || !ok2 || !ok3 || !ok4 {
+		return "" // is reported elsewhere
+	}
+	// NOTE failure to read a lump is not level damage and is handled when it
+	// needs to be copied
+	lineSize := uint32(DOOM_LINEDEF_SIZE)
+	if validity.scheduleEntry.LevelFormat == FORMAT_HEXEN {
+		lineSize = uint32(HEXEN_LINEDEF_SIZE)
+	}
+	lineData, err := readEntry(f, eLines)
+	if err != nil {
+		return ""
+	}
+	numVertices := eVertices.Size >> 2
+	numSides := eSides.Size / DOOM_SIDEDEF_SIZE
+	numSectors := eSectors.Size / DOOM_SECTOR_SIZE
+	numLines := eLines.Size / lineSize
+	// both line formats begin with vertices and end with sidedefs
+	for i := uint32(0); i < numLines; i++ {
+		for j := uint32(0); j < 4; j += 2 {
+			vertex := binary.LittleEndian.Uint16(lineData[i*lineSize+j:])
+			if uint32(vertex) >= numVertices {
+				return fmt.Sprintf("linedef %d refers to vertex %d that doesn't exist",
+					i, vertex)
+			}
+		}
+	}
+	if !needSidedefs {
+		return ""
+	}
+	sideData, err := readEntry(f, eSides)
+	if err != nil {
+		return ""
+	}
+	for i := uint32(0); i < numLines; i++ {
+		for j := uint32(2); j <= 4; j += 2 {
+			side := uint32(binary.LittleEndian.Uint16(lineData[(i+1)*lineSize-j:]))
+			if side == uint32(SIDEDEF_NONE) {
+				continue
+			}
+			if side >= numSides {
+				return fmt.Sprintf("linedef %d refers to sidedef %d that doesn't exist",
+					i, side)
+			}
+			// sector is the last field
+			sector := binary.LittleEndian.Uint16(sideData[(side+1)*DOOM_SIDEDEF_SIZE-2:])
+			if uint32(sector) >= numSectors {
+				return fmt.Sprintf("sidedef %d refers to sector %d that doesn't exist",
+					side, sector)
+			}
+		}
+	}
+	return ""
+}
+
+func readEntry(f io.ReaderAt, entry LumpEntry) ([]byte, error) {
+	data, err := io.ReadAll(io.NewSectionReader(f, int64(entry.FilePos),
+		int64(entry.Size)))
+	if err == nil && len(data) != int(entry.Size) {
+		err = io.ErrUnexpectedEOF
+	}
+	return data, err
+}
+
 func cloneSchedule(scheduleRoot *ScheduledLump) *ScheduledLump {
 	sch := scheduleRoot
 	newSch := &ScheduledLump{}
@@ -585,6 +689,12 @@ func TryReadWadDirectory(isInputFile bool, f *os.File,
 		return nil, errors.New(fmt.Sprintf("Couldn't move to wad's directory structure (%d offset): %s", wh.DirectoryStart, err.Error()))
 	}
 
+	fi, err := f.Stat()
+	if err == nil && int64(wh.LumpCount) > fi.Size()/int64(binary.Size(LumpEntry{})) {
+		return nil, errors.New(fmt.Sprintf("The directory of %d lumps can't fit in a file of %d bytes\n",
+			wh.LumpCount, fi.Size()))
+	}
+
 	// Read in whole directory at once
 	le := make([]LumpEntry, wh.LumpCount, wh.LumpCount)
 	err = binary.Read(f, binary.LittleEndian, le)
-- 
2.43.0


From 6ac96455a8b0a3d5b04f3118ad1813f92ced85d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:05:37 +0000
Subject: [PATCH 40/56] fix: command line arguments cut short crashed the
 program

---
 cmdparser.go | 27 ++++++++++++++++++---------
 1 file changed, 18 insertions(+), 9 deletions(-)

diff --git a/cmdparser.go b/cmdparser.go
index 05c03e5..e999819 100755
--- a/cmdparser.go
+++ b/cmdparser.go
@@ -156,19 +156,23 @@ func (c *ProgramConfig) FromCommandLine() bool {
 				if bytes.Equal([]byte(arg), []byte("--cpuprofile")) {
 					// Parameter: write cpu profile to file following this
 					// parameter
-					fileSatisfied = (len(arg) > (argIdx + 1)) &&
+					fileSatisfied = (len(args) > (argIdx + 1)) &&
 						(args[argIdx+1] != "")
-					c.Profile = true
-					c.ProfilePath = args[argIdx+1]
-					skip = true
+					if fileSatisfied {
+						c.Profile = true
+						c.ProfilePath = args[argIdx+1]
+						skip = true
+					}
 				} else if bytes.Equal([]byte(arg), []byte("--memprofile")) {
 					// Parameter: write memory allocations (Go "allocs")
 					// profile to file following this parameter
-					fileSatisfied = (len(arg) > (argIdx + 1)) &&
-						(args[argIdx] != "")
-					c.MemProfile = true
-					c.MemProfilePath = args[argIdx+1]
-					skip = true
+					fileSatisfied = (len(args) > (argIdx + 1)) &&
+						(args[argIdx+1] != "")
+					if fileSatisfied {
+						c.MemProfile = true
+						c.MemProfilePath = args[argIdx+1]
+						skip = true
+					}
 				} else if bytes.Equal([]byte(arg), []byte("--unreversenodes")) {
 					// Parameter: write BSP tree without the traditionally
 					// used reversal, keeping only root node at the last index
@@ -793,6 +797,11 @@ func (c *ProgramConfig) parseNodesParams(p []byte) {
 		case 'c':
 			{
 				displace := 0
+				if len(p) < 3 {
+					Log.Error("Unknown value for NODES format.\n")
+					p = p[:0]
+					break
+				}
 				if bytes.Equal(p[1:3], []byte("=v")) {
 					c.NodeType = NODETYPE_VANILLA
 				} else if bytes.Equal(p[1:3], []byte("=d")) {
-- 
2.43.0


From 879f860777e5e8a4b4a65de4ec4e0af90ed4180f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:05:42 +0000
Subject: [PATCH 41/56] fix: numbers out of range in RMB options GROUP,
 DISTANCE and LINE

---
 rejectRMB.go | 20 +++++++++++++++++---
 1 file changed, 17 insertions(+), 3 deletions(-)

diff --git a/rejectRMB.go b/rejectRMB.go
index 349d58c..8765496 100755
--- a/rejectRMB.go
+++ b/rejectRMB.go
@@ -78,7 +78,7 @@ func (fr *RMBFrame) loadGroupsForFrame(groups []RejGroup) bool {
 		if cmd.Type == RMB_GROUP {
 			grI := fr.Commands[i].Data[0]
 			dupChecker := make(map[int]bool)
-			if grI >= len(groups) {
+			if grI >= len(groups) || grI < 0 {
 				fr.Commands[i].Error("Map doesn't contain sector %d, it only has %d sectors\n",
 					grI, len(groups))
 				continue
@@ -96,7 +96,7 @@ func (fr *RMBFrame) loadGroupsForFrame(groups []RejGroup) bool {
 					fr.Commands[i].Error("You need not explicitly list sector in its own group - every group always includes sector with the same index\n")
 					continue // because each group already includes corresponding sector
 				}
-				if v >= len(groups) {
+				if v >= len(groups) || v < 0 {
 					fr.Commands[i].Error("Map doesn't contain sector %d, it only has %d sectors\n",
 						v, len(groups))
 					continue
@@ -230,7 +230,16 @@ func (fr *RMBFrame) GetDISTANCEValue() (bool, uint64) {
 	}
 	for i := len(fr.Commands) - 1; i >= 0; i-- {
 		if fr.Commands[i].Type == RMB_DISTANCE {
-			v := uint64(fr.Commands[i].Data[0])
+			chk := fr.Commands[i].Data[0]
+			if chk > 131072 {
+				// Nothing on the map is that far, and square of the value
+				// must not overflow
+				chk = 131072
+			} else if chk < 0 {
+				fr.Commands[i].Error("Negative DISTANCE truncated to 0\n")
+				chk = 0
+			}
+			v := uint64(chk)
 			// From Zennode: store the square of the distance (avoid floating
 			// point later on)
 			return true, v * v
@@ -967,6 +976,11 @@ func (r *RejectInternalSetup) loadLineEffectsForFrame(rmbFrame *RMBFrame) bool {
 	// that makes sense to me. Also, manual didn't say options LEFT, RIGHT and
 	// LINE can be overridden by anything
 	for _, cmd := range rmbFrame.Commands {
+		if (cmd.Type == RMB_LEFT || cmd.Type == RMB_RIGHT ||
+			cmd.Type == RMB_LINE) && int(uint16(cmd.Data[0])) != cmd.Data[0] {
+			cmd.Error("Map can't contain line %d, will be ignored\n", cmd.Data[0])
+			continue
+		}
 		switch cmd.Type {
 		case RMB_LEFT:
 			{
-- 
2.43.0


From babb58b1c0d9c2cf08518a9aff8336eaf254a535 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:11:12 +0000
Subject: [PATCH 42/56] fix: INVERT followed by nothing crashed the program, a
 bad MAP marker was taken

---
 rmbparse.go | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/rmbparse.go b/rmbparse.go
index bfd1f74..3a6a469 100755
--- a/rmbparse.go
+++ b/rmbparse.go
@@ -442,6 +442,13 @@ func ParseINVERT(context *ParseContext, tblIdx int, cmd *RMBCommand) bool {
 	// the cast to ParseContextRecursion is to avoid "loop initialization"
 	// compiler error. What am I really doing is calling parseRMBLine method on
 	// context
+	// An empty line (or a comment) is fine with parseRMBLine, but adds no
+	// command, then there would be nothing to invert
+	rest := bytes.TrimSpace(context.command)
+	if len(rest) == 0 || rest[0] == '#' {
+		context.LogError(NOT_INVERTIBLE)
+		return false
+	}
 	if ParseContextRecursion(context).parseRMBLine(context.command, true) {
 		// Hack (bad): need to extract last cmd so that invert flag is applied
 		// to it
@@ -745,6 +752,7 @@ func (c *ParseContext) parseRMBLine(line []byte, fromInvert bool) bool {
 				}
 				if len(command) != 3 && !MAP_SEQUEL.Match(command) {
 					c.LogError("unsupported map marker, expected MAP followed by 2 digits immediately, or followed by a space and a lump marker\n")
+					return false
 				}
 				fnd = true
 			}
-- 
2.43.0


From cf0b4be62f5f96af1b9120a81b263e00168cfb3e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:15:37 +0000
Subject: [PATCH 43/56] fix: references out of range in a lump that ends with a
 partial record past the end of file

---
 wad.go | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/wad.go b/wad.go
index 2aaee6f..4e12dd9 100644
--- a/wad.go
+++ b/wad.go
@@ -587,14 +587,17 @@ func findLevelDamage(f io.ReaderAt, le []LumpEntry, validity *LevelValidity,
 	if validity.scheduleEntry.LevelFormat == FORMAT_HEXEN {
 		lineSize = uint32(HEXEN_LINEDEF_SIZE)
 	}
-	lineData, err := readEntry(f, eLines)
-	if err != nil {
-		return ""
-	}
 	numVertices := eVertices.Size >> 2
 	numSides := eSides.Size / DOOM_SIDEDEF_SIZE
 	numSectors := eSectors.Size / DOOM_SECTOR_SIZE
 	numLines := eLines.Size / lineSize
+	// only whole records are ever read, same here
+	eLines.Size = numLines * lineSize
+	eSides.Size = numSides * DOOM_SIDEDEF_SIZE
+	lineData, err := readEntry(f, eLines)
+	if err != nil {
+		return ""
+	}
 	// both line formats begin with vertices and end with sidedefs
 	for i := uint32(0); i < numLines; i++ {
 		for j := uint32(0); j < 4; j += 2 {
-- 
2.43.0


From 6f9132d379d3fd0c84ffe1b0d98bbcb07711a9c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:34:01 +0000
Subject: [PATCH 44/56] fix: dummy lines of scrollers: crash when lines of
 several groups were removed, new ones not marked after that, wrong line taken
 for the real one, reject built alone

---
 level.go | 58 +++++++++++++++++++++++++++++++++++++++-----------------
 1 file changed, 41 insertions(+), 17 deletions(-)

diff --git a/level.go b/level.go
index 1b9a308..d288ddc 100755
--- a/level.go
+++ b/level.go
@@ -27,6 +27,7 @@ import (
 	"math"
 	"os"
 	"reflect"
+	"sort"
 )
 
 const BRANCH_NODES = 1
@@ -212,8 +213,10 @@ func (l *Level) DoLevel(le []LumpEntry, idx int, rejectsize map[int]uint32,
 				} else {
 					// Otherwise if either only blockmap or only nodes are
 					// being rebuilt, we still need to locate scrollers to mark
-					// them as omitted from either
-					if config.RebuildBlockmap || config.RebuildNodes {
+					// them as omitted from either. Same for reject, else dummy
+					// lines (they are one-sided) would block line of sight
+					if config.RebuildBlockmap || config.RebuildNodes ||
+						config.Reject == REJECT_NORMAL {
 						_, linesToIgnore = RefreshScrollerSpeed(linedefs,
 							vertices, true)
 					}
@@ -743,6 +746,9 @@ func RefreshScrollerSpeed(linedefs []Linedef, vertices []Vertex, dryRun bool) ([
 	backSdefForGroup := make([]uint16, 0) // not part of identity, but needs to be copied
 	// map from ScrollerGroup to array of producers (linedef indices)
 	scrollerToProducerMap := make(map[ScrollerGroup][]int)
+	// groups where the linedef to be scrolled has some other action of its own,
+	// all linedefs with action 48 are dummies there
+	remoteOnly := make(map[ScrollerGroup]bool)
 	for i, linedef := range linedefs {
 		if linedef.Action == 48 {
 			// Normal scroll action
@@ -779,14 +785,16 @@ func RefreshScrollerSpeed(linedefs []Linedef, vertices []Vertex, dryRun bool) ([
 				// needs to be scrolled, but the producer is the linedef with
 				// the remote scroll action
 				linedef2 := linedefs[nearest]
+				group := ScrollerGroup{
+					StartVertex: linedef2.StartVertex,
+					EndVertex:   linedef2.EndVertex,
+					FrontSdef:   linedef2.FrontSdef,
+				}
 				addProducer(&scrollerGroupList, &backSdefForGroup,
-					&scrollerToProducerMap,
-					ScrollerGroup{
-						StartVertex: linedef2.StartVertex,
-						EndVertex:   linedef2.EndVertex,
-						FrontSdef:   linedef2.FrontSdef,
-					},
-					i, linedef2.BackSdef)
+					&scrollerToProducerMap, group, i, linedef2.BackSdef)
+				if linedef2.Action != 48 {
+					remoteOnly[group] = true
+				}
 			} else {
 				Log.Verbose(1, "Linedef %d has action 1048 (remote scroll) and non-zero tag value of %d, but another linedef with same tag value doesn't exist.\n",
 					i, linedef.Tag)
@@ -805,8 +813,20 @@ func RefreshScrollerSpeed(linedefs []Linedef, vertices []Vertex, dryRun bool) ([
 
 	addLineCount := make([]uint16, len(scrollerGroupList))
 	linedefsToCull := make([]int, 0)
+	// the linedef with action 48 in the group that is not dummy, -1 if there is
+	// none
+	realLine := make([]int, len(scrollerGroupList))
 	for i, scrollerGroup := range scrollerGroupList {
 		producers := scrollerToProducerMap[scrollerGroup]
+		realLine[i] = -1
+		if !remoteOnly[scrollerGroup] {
+			for _, j := range producers {
+				if linedefs[j].Action == 48 {
+					realLine[i] = j
+					break
+				}
+			}
+		}
 		scrollPower := linedefs[producers[0]].Tag // the earliest takes precedence
 		if linedefs[producers[0]].Action == 1048 {
 			// 2 last digits decide scroll speed for Action = 1048, not
@@ -826,17 +846,18 @@ func RefreshScrollerSpeed(linedefs []Linedef, vertices []Vertex, dryRun bool) ([
 			scrollPower = 1
 		}
 		currPower := uint16(0)
-		for idx, j := range producers {
+		for _, j := range producers {
 			if linedefs[j].Action == 48 {
 				currPower++
 				// Also let's reset tag value (except for the first, of course)
-				if idx != 0 {
-					linedefs[j].Tag = 0
+				if j != realLine[i] {
 					// Only if dryRun == true are dummies recorded here rather
 					// than later, because if dryRun == false some may be
 					// removed
 					if dryRun {
 						dummies[j] = true
+					} else {
+						linedefs[j].Tag = 0
 					}
 				}
 			}
@@ -854,11 +875,11 @@ func RefreshScrollerSpeed(linedefs []Linedef, vertices []Vertex, dryRun bool) ([
 			addLineCount[i] = 0
 			remove := currPower - scrollPower
 			removed := uint16(0)
-			for idx, j := range producers {
+			for _, j := range producers {
 				if removed == remove {
 					break
 				}
-				if idx > 0 && linedefs[j].Action == 48 {
+				if j != realLine[i] && linedefs[j].Action == 48 {
 					linedefsToCull = append(linedefsToCull, j)
 					removed++
 				}
@@ -882,6 +903,8 @@ func RefreshScrollerSpeed(linedefs []Linedef, vertices []Vertex, dryRun bool) ([
 
 	// Create new array of linedefs
 	ret := make([]Linedef, len(linedefs))
+	// groups may be interleaved
+	sort.Ints(linedefsToCull)
 
 	// Remove linedefs first, via copying only those that are not removed
 	copyStart := 0
@@ -898,15 +921,16 @@ func RefreshScrollerSpeed(linedefs []Linedef, vertices []Vertex, dryRun bool) ([
 		copy(ret[copyStart-removed:], linedefs[copyStart:len(linedefs)])
 	}
 	ret = ret[:len(linedefs)-removed]
+	dummies = dummies[:len(ret)]
 
 	// Locate all remaining linedefs, add them to dummies. Remember that
 	// some may have changed index, so compute new index
-	for _, scrollerGroup := range scrollerGroupList {
+	for i, scrollerGroup := range scrollerGroupList {
 		producers := scrollerToProducerMap[scrollerGroup]
-		for idx, j := range producers {
+		for _, j := range producers {
 			if linedefs[j].Action == 48 {
 				// If it's the first line, is not dummy
-				if idx != 0 {
+				if j != realLine[i] {
 					// Actualize the number or skip altogether, if it is
 					// deleted
 					deleted := false
-- 
2.43.0


From 404273d098b8a7fb085bf3a20c6f1522a47cb741 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:51:55 +0000
Subject: [PATCH 45/56] fix: --roots crashed when no linedef could be scored
 (every one splits all the others)

---
 picknode.go | 2 +-
 znodegen.go | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/picknode.go b/picknode.go
index 60b6fcf..b640209 100755
--- a/picknode.go
+++ b/picknode.go
@@ -1989,7 +1989,7 @@ func PickNode_ZennodeDepth(w *NodesWork, ts *NodeSeg, bbox *NodeBounds,
 		if len(w.zenScores) == 0 { // hopefully never happens
 			w.mlog.Printf("Failed to score segs, falling back to scoreless pick.\n")
 			w.parts = make([]*NodeSeg, 1)
-			w.parts[1] = best
+			w.parts[0] = best
 			if best == nil {
 				Log.Merge(w.mlog, "") // ensure user sees the above error before panic
 				Log.Panic("Failed hard -- no pick at all, for root of all things!\n")
diff --git a/znodegen.go b/znodegen.go
index be71606..2f23a0c 100755
--- a/znodegen.go
+++ b/znodegen.go
@@ -3488,7 +3488,7 @@ func ZExt_PickNode_ZennodeDepth(w *ZExt_NodesWork, ts *ZExt_NodeSeg, bbox *NodeB
 		if len(w.zenScores) == 0 {
 			w.mlog.Printf("Failed to score segs, falling back to scoreless pick.\n")
 			w.parts = make([]*ZExt_NodeSeg, 1)
-			w.parts[1] = best
+			w.parts[0] = best
 			if best == nil {
 				Log.Merge(w.mlog, "")
 				Log.Panic("Failed hard -- no pick at all, for root of all things!\n")
-- 
2.43.0


From 712d37f7bc00dd3a3bd371f764a24b9b4aa12ec6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:56:55 +0000
Subject: [PATCH 46/56] fix: --roots ignored lines of the kind asked for when
 collinear with one of the other kind

---
 picknode.go | 38 ++++++++++++++++++++++++++++++--------
 znodegen.go | 28 +++++++++++++++++++++++-----
 2 files changed, 53 insertions(+), 13 deletions(-)

diff --git a/picknode.go b/picknode.go
index b640209..81825f6 100755
--- a/picknode.go
+++ b/picknode.go
@@ -2009,14 +2009,10 @@ func PickNode_ZennodeDepth(w *NodesWork, ts *NodeSeg, bbox *NodeBounds,
 			w.zenScores[0].equivSplit,
 			w.zenScores[0].segSplit
 		for ; j < len(w.zenScores) && i < rootN; j++ {
-			seg := w.zenScores[j].seg
-			if seg.partner == nil && (rootChoiceMethod&MROOT_ONESIDED == 0) {
-				continue
-			}
-			// If not choosing segs from two-sided lines, then all segs that have
-			// partner are assumed to have come from two-sided lines and thus skipped
-			// There should not be any no problem with this assumption
-			if seg.partner != nil && (rootChoiceMethod&MROOT_TWOSIDED == 0) {
+			// Collinear segs share one record in the score table, and the one
+			// that got it might be of the other kind
+			seg := collinearSegOfKind(ts, w.zenScores[j].seg, rootChoiceMethod)
+			if seg == nil {
 				continue
 			}
 			i++
@@ -2069,6 +2065,32 @@ func PickNode_ZennodeDepth(w *NodesWork, ts *NodeSeg, bbox *NodeBounds,
 	return best // All finished, return best Seg
 }
 
+// collinearSegOfKind returns seg if it is of the kind (one-sided or two-sided)
+// that rootChoiceMethod permits, otherwise some seg of such kind that is
+// collinear with it. Returns nil if there is none.
+// If not choosing segs from two-sided lines, then all segs that have partner are
+// assumed to have come from two-sided lines and thus skipped, and vice versa.
+func collinearSegOfKind(ts, seg *NodeSeg, rootChoiceMethod int) *NodeSeg {
+	permitted := func(s *NodeSeg) bool {
+		if s.partner == nil {
+			return rootChoiceMethod&MROOT_ONESIDED != 0
+		}
+		return rootChoiceMethod&MROOT_TWOSIDED != 0
+	}
+	if permitted(seg) {
+		return seg
+	}
+	if seg.alias == 0 {
+		return nil
+	}
+	for s := ts; s != nil; s = s.next {
+		if s.alias == seg.alias && permitted(s) {
+			return s
+		}
+	}
+	return nil
+}
+
 // If returns true, the partition &part must be skipped, because it produced
 // many splits early so that cost exceed bestcost
 // Worker for Zennode prefers not to quit early, though
diff --git a/znodegen.go b/znodegen.go
index 2f23a0c..a6ab559 100755
--- a/znodegen.go
+++ b/znodegen.go
@@ -3508,12 +3508,9 @@ func ZExt_PickNode_ZennodeDepth(w *ZExt_NodesWork, ts *ZExt_NodeSeg, bbox *NodeB
 			w.zenScores[0].equivSplit,
 			w.zenScores[0].segSplit
 		for ; j < len(w.zenScores) && i < rootN; j++ {
-			seg := w.zenScores[j].seg
-			if seg.partner == nil && (rootChoiceMethod&MROOT_ONESIDED == 0) {
-				continue
-			}
 
-			if seg.partner != nil && (rootChoiceMethod&MROOT_TWOSIDED == 0) {
+			seg := ZExt_collinearSegOfKind(ts, w.zenScores[j].seg, rootChoiceMethod)
+			if seg == nil {
 				continue
 			}
 			i++
@@ -3564,6 +3561,27 @@ func ZExt_PickNode_ZennodeDepth(w *ZExt_NodesWork, ts *ZExt_NodeSeg, bbox *NodeB
 	return best
 }
 
+func ZExt_collinearSegOfKind(ts, seg *ZExt_NodeSeg, rootChoiceMethod int) *ZExt_NodeSeg {
+	permitted := func(s *ZExt_NodeSeg) bool {
+		if s.partner == nil {
+			return rootChoiceMethod&MROOT_ONESIDED != 0
+		}
+		return rootChoiceMethod&MROOT_TWOSIDED != 0
+	}
+	if permitted(seg) {
+		return seg
+	}
+	if seg.alias == 0 {
+		return nil
+	}
+	for s := ts; s != nil; s = s.next {
+		if s.alias == seg.alias && permitted(s) {
+			return s
+		}
+	}
+	return nil
+}
+
 func (w *ZExt_NodesWork) evalPartitionWorker_ZennodeDepth(block *ZExt_Superblock, part *ZExt_NodeSeg, c *ZExt_IntersectionContext, cost *int, slen *ZNumber,
 	bundle *ZExt_DepthScoreBundle, inter *ZenIntermediary, minors *MinorCosts) bool {
 
-- 
2.43.0


From 878e073d67ab3fca64e1036afdb6a90bfc0fe369 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:40:08 +0000
Subject: [PATCH 47/56] fix: sector of a polyobject not found when the line
 cast from its spawn spot went through a vertex

---
 universal_interfaces.go | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/universal_interfaces.go b/universal_interfaces.go
index 8082cf6..04e6491 100755
--- a/universal_interfaces.go
+++ b/universal_interfaces.go
@@ -602,7 +602,10 @@ func (o *HexenLinedefs) markPolyobjPoint(thingNum int, x, y int16) {
 	//       intersect it, choosing the one with the closest distance.
 	//       If the point is sitting directly on a (two-sided) line,
 	//       then we mark the sectors on both sides.
-	yInt := int(y)
+	// The line is cast half a unit above the point, so that it never goes
+	// through a vertex: which of the linedefs meeting there would get chosen was
+	// a matter of luck. Nothing is between, per the check of the box above.
+	yCast := float64(y) + 0.5
 	bestDist := float64(99999999.0) // > maximum possible distance (max = 65536 * sqrt(2))
 	bestMatch := -1
 	for i, _ := range o.linedefs {
@@ -610,10 +613,10 @@ func (o *HexenLinedefs) markPolyobjPoint(thingNum int, x, y int16) {
 		if y1 == y2 {
 			continue
 		}
-		if (yInt > y1 && yInt > y2) || (yInt < y1 && yInt < y2) {
+		if (yCast > float64(y1)) == (yCast > float64(y2)) {
 			continue
 		}
-		xCut := float64(x1) + float64(x2-x1)*float64(yInt-y1)/
+		xCut := float64(x1) + float64(x2-x1)*(yCast-float64(y1))/
 			float64(y2-y1) - float64(x)
 		if math.Abs(xCut) < math.Abs(bestDist) {
 			bestMatch = i
-- 
2.43.0


From be40cab583b9a8b613a951a6e1f4364ef02d5c79 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:40:13 +0000
Subject: [PATCH 48/56] fix: precious linedefs were split needlessly where a
 non-convex part of a single sector was divided

---
 convexity.go | 4 ++++
 znodegen.go  | 4 ++++
 2 files changed, 8 insertions(+)

diff --git a/convexity.go b/convexity.go
index a28846c..319e71e 100755
--- a/convexity.go
+++ b/convexity.go
@@ -200,6 +200,10 @@ func PickNode_SingleSector(w *NodesWork, ts *NodeSeg, bbox *NodeBounds,
 			if ((val&2 != 0) && (val&64 != 0)) || ((val&4 != 0) && (val&32 != 0)) {
 				// splits are now double as bad as before
 				cost += PICKNODE_FACTOR << 1
+				if check.flags&SEG_FLAG_PRECIOUS != 0 {
+					// precious segs are still precious here
+					cost += PICKNODE_FACTOR * PRECIOUS_MULTIPLY
+				}
 				if cost >= bestcost {
 					prune = true // Lee Killough's master speed-up
 					break
diff --git a/znodegen.go b/znodegen.go
index a6ab559..365a409 100755
--- a/znodegen.go
+++ b/znodegen.go
@@ -4168,6 +4168,10 @@ func ZExt_PickNode_SingleSector(w *ZExt_NodesWork, ts *ZExt_NodeSeg, bbox *NodeB
 			if ((val&2 != 0) && (val&64 != 0)) || ((val&4 != 0) && (val&32 != 0)) {
 
 				cost += PICKNODE_FACTOR << 1
+				if check.flags&SEG_FLAG_PRECIOUS != 0 {
+
+					cost += PICKNODE_FACTOR * PRECIOUS_MULTIPLY
+				}
 				if cost >= bestcost {
 					prune = true
 					break
-- 
2.43.0


From eb5bb2a4aacbf3de74bf74adb491030689d4c96f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:29:51 +0000
Subject: [PATCH 49/56] fix: REJECT hid visible sectors where a sight region
 was cut at a point rounded to behind the line it is on

---
 reject.go     | 30 ++++++++++++++++++++++++++----
 rejectFAST.go |  5 +----
 rejectLOS.go  |  6 ++----
 rejectSYMM.go |  5 +----
 4 files changed, 30 insertions(+), 16 deletions(-)

diff --git a/reject.go b/reject.go
index 46de8fe..2a22f8a 100755
--- a/reject.go
+++ b/reject.go
@@ -19,6 +19,7 @@
 package main
 
 import (
+	"math"
 	"sort"
 	"time"
 )
@@ -1726,10 +1727,7 @@ func (r *RejectWork) divideRegion(src, tgt *TransLine) bool {
 	det := src.DX*tgt.DY - src.DY*tgt.DX
 	t := float64(num) / float64(det)
 
-	crossPoint := IntVertex{
-		X: int(int64(src.start.X) + int64(t*float64(src.DX))),
-		Y: int(int64(src.start.Y) + int64(t*float64(src.DY))),
-	}
+	crossPoint := roundOntoLine(src, t)
 
 	// See if we ran into an integer truncation problem (shortcut if we did)
 	if (crossPoint == *(src.start)) || (crossPoint == *(src.end)) {
@@ -1762,6 +1760,30 @@ func (r *RejectWork) divideRegion(src, tgt *TransLine) bool {
 	return isVisible
 }
 
+// roundOntoLine returns the point at fraction t of the line, rounded to the
+// nearest of those integer coordinates that are not behind (to the right of)
+// the line. If the point was behind, then walls that are behind the line as
+// well could cross the part of the line that is cut off at the point
+func roundOntoLine(line *TransLine, t float64) IntVertex {
+	x := t * float64(line.DX)
+	y := t * float64(line.DY)
+	best := IntVertex{}
+	bestDist := math.Inf(1)
+	for _, rx := range [2]float64{math.Floor(x), math.Ceil(x)} {
+		for _, ry := range [2]float64{math.Floor(y), math.Ceil(y)} {
+			dist := (rx-x)*(rx-x) + (ry-y)*(ry-y)
+			if line.DX*int(ry)-line.DY*int(rx) >= 0 && dist < bestDist {
+				best = IntVertex{
+					X: line.start.X + int(rx),
+					Y: line.start.Y + int(ry),
+				}
+				bestDist = dist
+			}
+		}
+	}
+	return best
+}
+
 type reSectorsType []*RejSector
 
 func (x reSectorsType) Len() int { return len(x) }
diff --git a/rejectFAST.go b/rejectFAST.go
index ba4c1ef..f78e3b6 100755
--- a/rejectFAST.go
+++ b/rejectFAST.go
@@ -1036,10 +1036,7 @@ func (r *FastRejectWork) divideRegion(src, tgt *TransLine) bool {
 	det := src.DX*tgt.DY - src.DY*tgt.DX
 	t := float64(num) / float64(det)
 
-	crossPoint := IntVertex{
-		X: int(int64(src.start.X) + int64(t*float64(src.DX))),
-		Y: int(int64(src.start.Y) + int64(t*float64(src.DY))),
-	}
+	crossPoint := roundOntoLine(src, t)
 
 	if (crossPoint == *(src.start)) || (crossPoint == *(src.end)) {
 		Log.Verbose(3, "Reject: integer truncation detected in divideRegion for lines %d & %d\n", src.index, tgt.index)
diff --git a/rejectLOS.go b/rejectLOS.go
index 1a027cf..550c778 100755
--- a/rejectLOS.go
+++ b/rejectLOS.go
@@ -990,8 +990,7 @@ func AdjustEndPoints(left, right *TransLine, upper, lower *PolyLine) bool {
 		}
 		if t < right.hi {
 			right.hi = t
-			right.hiPoint.X = right.start.X + int(t*float64(right.DX))
-			right.hiPoint.Y = right.start.Y + int(t*float64(right.DY))
+			*right.hiPoint = roundOntoLine(right, t)
 			changed = changed || CorrectForNewStart(upper)
 		}
 	}
@@ -1010,8 +1009,7 @@ func AdjustEndPoints(left, right *TransLine, upper, lower *PolyLine) bool {
 		}
 		if t > left.lo {
 			left.lo = t
-			left.loPoint.X = left.start.X + int(t*float64(left.DX))
-			left.loPoint.Y = left.start.Y + int(t*float64(left.DY))
+			*left.loPoint = roundOntoLine(left, t)
 			changed = changed || CorrectForNewEnd(upper)
 		}
 	}
diff --git a/rejectSYMM.go b/rejectSYMM.go
index 540c28d..f0897a6 100755
--- a/rejectSYMM.go
+++ b/rejectSYMM.go
@@ -968,10 +968,7 @@ func (r *SymmetricRejectWork) divideRegion(src, tgt *TransLine) bool {
 	det := src.DX*tgt.DY - src.DY*tgt.DX
 	t := float64(num) / float64(det)
 
-	crossPoint := IntVertex{
-		X: int(int64(src.start.X) + int64(t*float64(src.DX))),
-		Y: int(int64(src.start.Y) + int64(t*float64(src.DY))),
-	}
+	crossPoint := roundOntoLine(src, t)
 
 	if (crossPoint == *(src.start)) || (crossPoint == *(src.end)) {
 		Log.Verbose(3, "Reject: integer truncation detected in divideRegion for lines %d & %d\n", src.index, tgt.index)
-- 
2.43.0


From ec1314b0aaa43e317c6712e4c582e8b6d6929ca4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:50:23 +0000
Subject: [PATCH 50/56] fix: sideness cache let segs inherit the alias of a
 partition they are not collinear with

---
 picknode.go | 6 ++++++
 znodegen.go | 4 ++++
 2 files changed, 10 insertions(+)

diff --git a/picknode.go b/picknode.go
index 81825f6..47555ae 100755
--- a/picknode.go
+++ b/picknode.go
@@ -2173,6 +2173,12 @@ forblock:
 					// This algorithm caches doLinesIntersect values rather
 					// than computing them face to face so additional vetting
 					// is needed
+					// When the value is from cache, c is yet to be told what
+					// the checked seg is
+					c.lsx = check.psx
+					c.lsy = check.psy
+					c.lex = check.pex
+					c.ley = check.pey
 					if check.alias != part.alias && vetAliasTransfer(c) {
 						check.alias = part.alias
 					}
diff --git a/znodegen.go b/znodegen.go
index 365a409..c261357 100755
--- a/znodegen.go
+++ b/znodegen.go
@@ -3652,6 +3652,10 @@ forblock:
 				}
 				if val == SIDENESS_COLLINEAR {
 
+					c.lsx = check.psx
+					c.lsy = check.psy
+					c.lex = check.pex
+					c.ley = check.pey
 					if check.alias != part.alias && ZExt_vetAliasTransfer(c) {
 						check.alias = part.alias
 					}
-- 
2.43.0


From b7986dc8335646209fc096ec6257b90f55ac15c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:56:17 +0000
Subject: [PATCH 51/56] fix: sideness cache used one value for both directions
 of a linedef although rounding can make them differ

---
 zensideness.go | 8 ++++++++
 znodegen.go    | 6 ++++++
 2 files changed, 14 insertions(+)

diff --git a/zensideness.go b/zensideness.go
index eb7de7a..74f11c8 100755
--- a/zensideness.go
+++ b/zensideness.go
@@ -356,6 +356,14 @@ func (w *NodesWork) computeAndCacheSideness(part, check *NodeSeg, c *Intersectio
 		return
 	}
 	newRaw := w.WhichSideInternal(check, c)
+	if check.partner != nil && w.WhichSideInternal(check.partner, c) != newRaw {
+		// The cell is used for both segs of a linedef, but rounding of the
+		// intersection point depends on direction. Let them be computed anew
+		// each time
+		check.flags |= SEG_FLAG_NOCACHE
+		check.partner.flags |= SEG_FLAG_NOCACHE
+		return
+	}
 	negate := part.flags&SEG_FLAG_GLOBAL_FLIP != 0
 	if negate {
 		newRaw = flipVal(newRaw)
diff --git a/znodegen.go b/znodegen.go
index c261357..379f8ea 100755
--- a/znodegen.go
+++ b/znodegen.go
@@ -6585,6 +6585,12 @@ func (w *ZExt_NodesWork) computeAndCacheSideness(part, check *ZExt_NodeSeg, c *Z
 		return
 	}
 	newRaw := w.WhichSideInternal(check, c)
+	if check.partner != nil && w.WhichSideInternal(check.partner, c) != newRaw {
+
+		check.flags |= SEG_FLAG_NOCACHE
+		check.partner.flags |= SEG_FLAG_NOCACHE
+		return
+	}
 	negate := part.flags&SEG_FLAG_GLOBAL_FLIP != 0
 	if negate {
 		newRaw = flipVal(newRaw)
-- 
2.43.0


From bc0e471c4eefa01490ace32b84024296709158b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:16:02 +0000
Subject: [PATCH 52/56] fix: good partitions were refused for extended nodes
 because of floating point error where they touch other lines

---
 zdefs.go    | 15 +++++++++++++--
 znodegen.go | 11 +++++++++--
 2 files changed, 22 insertions(+), 4 deletions(-)

diff --git a/zdefs.go b/zdefs.go
index caa4251..69f946a 100755
--- a/zdefs.go
+++ b/zdefs.go
@@ -249,17 +249,28 @@ func (w *NodesWork) ZPassingTooClose_Proto(part, check *NodeSeg, cost *int,
 		y = math.FMA(frac, float64(check.pey)-y, y)
 		if math.Abs(x-float64(check.psx)) <= VERTEX_EPSILON &&
 			math.Abs(y-float64(check.psy)) <= VERTEX_EPSILON {
-			return true
+			return !isOnPartition(part, float64(check.psx), float64(check.psy))
 		}
 		if math.Abs(x-float64(check.pex)) <= VERTEX_EPSILON &&
 			math.Abs(y-float64(check.pey)) <= VERTEX_EPSILON {
-			return true
+			return !isOnPartition(part, float64(check.pex), float64(check.pey))
 		}
 		// TODO increase cost or minors?
 	}
 	return false
 }
 
+// isOnPartition returns whether the point is on the partition line as far as
+// ZdoLinesIntersect_Proto is concerned, thus the seg that ends there is not
+// going to be split. Segs which begin in the same vertex as a (previously split)
+// partition seg are not at zero distance from it because of floating point error
+func isOnPartition(part *NodeSeg, x, y float64) bool {
+	pdx := float64(part.pdx)
+	pdy := float64(part.pdy)
+	a := pdy*(x-float64(part.psx)) - pdx*(y-float64(part.psy))
+	return a*a/(pdx*pdx+pdy*pdy) < SIDE_EPSILON*SIDE_EPSILON
+}
+
 func InterceptVector(part, check *NodeSeg) float64 {
 	return InterceptVectorCoord(float64(part.psx), float64(part.psy),
 		float64(part.pdx), float64(part.pdy),
diff --git a/znodegen.go b/znodegen.go
index 379f8ea..a40f6eb 100755
--- a/znodegen.go
+++ b/znodegen.go
@@ -4947,17 +4947,24 @@ func (w *ZExt_NodesWork) PassingTooClose(part, check *ZExt_NodeSeg, cost *int,
 		y = math.FMA(frac, float64(check.pey)-y, y)
 		if math.Abs(x-float64(check.psx)) <= VERTEX_EPSILON &&
 			math.Abs(y-float64(check.psy)) <= VERTEX_EPSILON {
-			return true
+			return !ZExt_isOnPartition(part, float64(check.psx), float64(check.psy))
 		}
 		if math.Abs(x-float64(check.pex)) <= VERTEX_EPSILON &&
 			math.Abs(y-float64(check.pey)) <= VERTEX_EPSILON {
-			return true
+			return !ZExt_isOnPartition(part, float64(check.pex), float64(check.pey))
 		}
 
 	}
 	return false
 }
 
+func ZExt_isOnPartition(part *ZExt_NodeSeg, x, y float64) bool {
+	pdx := float64(part.pdx)
+	pdy := float64(part.pdy)
+	a := pdy*(x-float64(part.psx)) - pdx*(y-float64(part.psy))
+	return a*a/(pdx*pdx+pdy*pdy) < SIDE_EPSILON*SIDE_EPSILON
+}
+
 func ZExt_InterceptVector(part, check *ZExt_NodeSeg) float64 {
 	return InterceptVectorCoord(float64(part.psx), float64(part.psy),
 		float64(part.pdx), float64(part.pdy),
-- 
2.43.0


From 4037eb230f67f191ada35e940b786394a7ca006f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:45:05 +0000
Subject: [PATCH 53/56] fix: REJECT hid visible sectors where a wall crosses
 one part of the edge of a sight region and touches another

---
 rejectLOS.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/rejectLOS.go b/rejectLOS.go
index 550c778..d2019be 100755
--- a/rejectLOS.go
+++ b/rejectLOS.go
@@ -839,6 +839,7 @@ func AddToPolyLine(poly *PolyLine, line *SolidLine) {
 		}
 	}
 	i += 1
+	startInside := y1 > 0
 
 	// Find new index start from the 'right'
 	var j int
@@ -851,6 +852,7 @@ func AddToPolyLine(poly *PolyLine, line *SolidLine) {
 		y1 = DX*(line.start.Y-p1.Y) - DY*(line.start.X-p1.X)
 		y2 = DX*(line.end.Y-p1.Y) - DY*(line.end.X-p1.X)
 		if (y1 > 0) != (y2 > 0) {
+			startInside = y1 > 0
 			break
 		}
 	}
@@ -862,7 +864,7 @@ func AddToPolyLine(poly *PolyLine, line *SolidLine) {
 	}
 	poly.numPoints += 1 - ptsRemoved
 
-	if y1 > 0 {
+	if startInside {
 		poly.points[i] = &line.start
 	} else {
 		poly.points[i] = &line.end
-- 
2.43.0


From 567f9616dd6cabb196dbbab2e12d256d80e084c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:45:10 +0000
Subject: [PATCH 54/56] fix: REJECT hid visible sectors where a wall touches
 both lines between which sight is tested

---
 rejectLOS.go | 17 ++++++++++-------
 1 file changed, 10 insertions(+), 7 deletions(-)

diff --git a/rejectLOS.go b/rejectLOS.go
index d2019be..d642307 100755
--- a/rejectLOS.go
+++ b/rejectLOS.go
@@ -695,19 +695,22 @@ func TrimLines(src, tgt *TransLine, set *LineSet) int {
 			if line.ignore {
 				continue
 			}
-			y := 1
+			// A line may touch both src and tgt, it is not in view if it is
+			// behind either of them
+			ySrc, yTgt := 1, 1
 			// April 2023: solid lines' vertices are stored in SolidLine
 			// structure directly, not as pointers (friendlier to CPU cache)
 			if (line.start == *src.start) || (line.start == *src.end) {
-				y = src.DX*(line.end.Y-src.start.Y) - src.DY*(line.end.X-src.start.X)
+				ySrc = src.DX*(line.end.Y-src.start.Y) - src.DY*(line.end.X-src.start.X)
 			} else if (line.end == *src.start) || (line.end == *src.end) {
-				y = src.DX*(line.start.Y-src.start.Y) - src.DY*(line.start.X-src.start.X)
-			} else if (line.start == *tgt.start) || (line.start == *tgt.end) {
-				y = tgt.DX*(line.end.Y-tgt.start.Y) - tgt.DY*(line.end.X-tgt.start.X)
+				ySrc = src.DX*(line.start.Y-src.start.Y) - src.DY*(line.start.X-src.start.X)
+			}
+			if (line.start == *tgt.start) || (line.start == *tgt.end) {
+				yTgt = tgt.DX*(line.end.Y-tgt.start.Y) - tgt.DY*(line.end.X-tgt.start.X)
 			} else if (line.end == *tgt.start) || (line.end == *tgt.end) {
-				y = tgt.DX*(line.start.Y-tgt.start.Y) - tgt.DY*(line.start.X-tgt.start.X)
+				yTgt = tgt.DX*(line.start.Y-tgt.start.Y) - tgt.DY*(line.start.X-tgt.start.X)
 			}
-			if y <= 0 {
+			if ySrc <= 0 || yTgt <= 0 {
 				line.ignore = true
 				linesLeft--
 			}
-- 
2.43.0


From ec70a94723885d8b5211cf6cf62f0ed9a33cf843 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:48:55 +0000
Subject: [PATCH 55/56] fix: the 32-bit program crashed or wrote a wrong REJECT
 for maps wider than 32768

---
 reject.go     | 28 ++++++++++++++--------------
 rejectFAST.go | 16 ++++++++--------
 rejectLOS.go  | 50 +++++++++++++++++++++++++-------------------------
 rejectSYMM.go | 16 ++++++++--------
 4 files changed, 55 insertions(+), 55 deletions(-)

diff --git a/reject.go b/reject.go
index 2a22f8a..93b8897 100755
--- a/reject.go
+++ b/reject.go
@@ -188,8 +188,8 @@ type LevelSaysToNagging struct {
 }
 
 type IntVertex struct {
-	X int
-	Y int
+	X int64
+	Y int64
 }
 
 type SolidLine struct {
@@ -205,7 +205,7 @@ type TransLine struct {
 	end            *IntVertex
 	frontSector    uint16
 	backSector     uint16
-	DY, DX, H      int
+	DY, DX, H      int64
 	lo, hi         float64
 	loPoint        *IntVertex
 	hiPoint        *IntVertex
@@ -713,8 +713,8 @@ func (r *RejectWork) setupLines(rsetup *RejectInternalSetup) (setupDone bool,
 			continue
 		}
 		x1, y1, x2, y2 := r.input.lines.GetAllXY(i)
-		vertices[int(i)<<1] = IntVertex{X: x1, Y: y1}
-		vertices[int(i)<<1+1] = IntVertex{X: x2, Y: y2}
+		vertices[int(i)<<1] = IntVertex{X: int64(x1), Y: int64(y1)}
+		vertices[int(i)<<1+1] = IntVertex{X: int64(x2), Y: int64(y2)}
 		if x1 == x2 && y1 == y2 {
 			continue
 		}
@@ -746,9 +746,9 @@ func (r *RejectWork) setupLines(rsetup *RejectInternalSetup) (setupDone bool,
 				end:            &vertices[int(i)<<1+1],
 				frontSector:    fSector,
 				backSector:     bSector,
-				DX:             x2 - x1,
-				DY:             y2 - y1,
-				H:              (x2-x1)*(x2-x1) + (y2-y1)*(y2-y1),
+				DX:             int64(x2 - x1),
+				DY:             int64(y2 - y1),
+				H:              int64(x2-x1)*int64(x2-x1) + int64(y2-y1)*int64(y2-y1),
 				indexInLineVis: int(numTransLines),
 			}
 			numTransLines++
@@ -1181,9 +1181,9 @@ func (r *RejectWork) traceSelfRefLines(numTransLines *int, numSolidLines *int,
 			end:            &vertices[int(i)<<1+1],
 			frontSector:    newFrontSector,
 			backSector:     newBackSector,
-			DX:             X2 - X1,
-			DY:             Y2 - Y1,
-			H:              (X2-X1)*(X2-X1) + (Y2-Y1)*(Y2-Y1),
+			DX:             int64(X2 - X1),
+			DY:             int64(Y2 - Y1),
+			H:              int64(X2-X1)*int64(X2-X1) + int64(Y2-Y1)*int64(Y2-Y1),
 			indexInLineVis: *numTransLines,
 		}
 		(*numTransLines)++
@@ -1772,10 +1772,10 @@ func roundOntoLine(line *TransLine, t float64) IntVertex {
 	for _, rx := range [2]float64{math.Floor(x), math.Ceil(x)} {
 		for _, ry := range [2]float64{math.Floor(y), math.Ceil(y)} {
 			dist := (rx-x)*(rx-x) + (ry-y)*(ry-y)
-			if line.DX*int(ry)-line.DY*int(rx) >= 0 && dist < bestDist {
+			if line.DX*int64(ry)-line.DY*int64(rx) >= 0 && dist < bestDist {
 				best = IntVertex{
-					X: line.start.X + int(rx),
-					Y: line.start.Y + int(ry),
+					X: line.start.X + int64(rx),
+					Y: line.start.Y + int64(ry),
 				}
 				bestDist = dist
 			}
diff --git a/rejectFAST.go b/rejectFAST.go
index f78e3b6..81d3dfe 100755
--- a/rejectFAST.go
+++ b/rejectFAST.go
@@ -373,8 +373,8 @@ func (r *FastRejectWork) setupLines(rsetup *RejectInternalSetup) (setupDone bool
 			continue
 		}
 		x1, y1, x2, y2 := r.input.lines.GetAllXY(i)
-		vertices[int(i)<<1] = IntVertex{X: x1, Y: y1}
-		vertices[int(i)<<1+1] = IntVertex{X: x2, Y: y2}
+		vertices[int(i)<<1] = IntVertex{X: int64(x1), Y: int64(y1)}
+		vertices[int(i)<<1+1] = IntVertex{X: int64(x2), Y: int64(y2)}
 		if x1 == x2 && y1 == y2 {
 			continue
 		}
@@ -403,9 +403,9 @@ func (r *FastRejectWork) setupLines(rsetup *RejectInternalSetup) (setupDone bool
 				end:            &vertices[int(i)<<1+1],
 				frontSector:    fSector,
 				backSector:     bSector,
-				DX:             x2 - x1,
-				DY:             y2 - y1,
-				H:              (x2-x1)*(x2-x1) + (y2-y1)*(y2-y1),
+				DX:             int64(x2 - x1),
+				DY:             int64(y2 - y1),
+				H:              int64(x2-x1)*int64(x2-x1) + int64(y2-y1)*int64(y2-y1),
 				indexInLineVis: int(numTransLines),
 			}
 			numTransLines++
@@ -775,9 +775,9 @@ func (r *FastRejectWork) traceSelfRefLines(numTransLines *int, numSolidLines *in
 			end:            &vertices[int(i)<<1+1],
 			frontSector:    newFrontSector,
 			backSector:     newBackSector,
-			DX:             X2 - X1,
-			DY:             Y2 - Y1,
-			H:              (X2-X1)*(X2-X1) + (Y2-Y1)*(Y2-Y1),
+			DX:             int64(X2 - X1),
+			DY:             int64(Y2 - Y1),
+			H:              int64(X2-X1)*int64(X2-X1) + int64(Y2-Y1)*int64(Y2-Y1),
 			indexInLineVis: *numTransLines,
 		}
 		(*numTransLines)++
diff --git a/rejectLOS.go b/rejectLOS.go
index d642307..6cc0a9f 100755
--- a/rejectLOS.go
+++ b/rejectLOS.go
@@ -269,10 +269,10 @@ func (r *RejectWork) drawBlockMapLine(p1, p2 *IntVertex) {
 
 func drawBlockMapLine(bounds []BlockMapBounds, p1, p2 *IntVertex, XMin, YMin int,
 	loRow, hiRow *int) {
-	x0 := p1.X - XMin
-	y0 := p1.Y - YMin
-	x1 := p2.X - XMin
-	y1 := p2.Y - YMin
+	x0 := int(p1.X) - XMin
+	y0 := int(p1.Y) - YMin
+	x1 := int(p2.X) - XMin
+	y1 := int(p2.Y) - YMin
 
 	startX := x0 >> BLOCK_BITS
 	startY := y0 >> BLOCK_BITS
@@ -315,24 +315,24 @@ func drawBlockMapLine(bounds []BlockMapBounds, p1, p2 *IntVertex, XMin, YMin int
 		if startY != endY { // diagonal line
 
 			// Calculate the pre-scaled values to be used in the for loop
-			var deltaX int
-			deltaY := (y1 - y0) << BLOCK_BITS
-			nextX := x0 * (y1 - y0)
+			var deltaX int64
+			deltaY := int64(y1-y0) << BLOCK_BITS
+			nextX := int64(x0) * int64(y1-y0)
 
 			var dy int
 			if endY > startY {
 				// Figure out where the 1st row ends
-				nextX += (startY<<BLOCK_BITS + BLOCK_WIDTH - y0) * (x1 - x0)
-				deltaX = ((x1 - x0) << BLOCK_BITS)
+				nextX += int64(startY<<BLOCK_BITS+BLOCK_WIDTH-y0) * int64(x1-x0)
+				deltaX = int64(x1-x0) << BLOCK_BITS
 				dy = 1
 			} else {
 				// Figure out where the 1st row ends
-				nextX += (startY<<BLOCK_BITS - y0) * (x1 - x0)
-				deltaX = ((x0 - x1) << BLOCK_BITS)
+				nextX += int64(startY<<BLOCK_BITS-y0) * int64(x1-x0)
+				deltaX = int64(x0-x1) << BLOCK_BITS
 				dy = -1
 			}
 
-			lastX := nextX / deltaY
+			lastX := int(nextX / deltaY)
 			bounds[startY].update(lastX)
 
 			// Now do the rest using integer math - each row is a delta Y of 128
@@ -351,7 +351,7 @@ func drawBlockMapLine(bounds []BlockMapBounds, p1, p2 *IntVertex, XMin, YMin int
 						break
 					}
 					nextX += deltaX
-					lastX = nextX / deltaY
+					lastX = int(nextX / deltaY)
 					if lastX > bound.hi {
 						bound.hi = lastX
 					}
@@ -369,7 +369,7 @@ func drawBlockMapLine(bounds []BlockMapBounds, p1, p2 *IntVertex, XMin, YMin int
 						break
 					}
 					nextX += deltaX
-					lastX = nextX / deltaY
+					lastX = int(nextX / deltaY)
 					if lastX < bound.lo {
 						bound.lo = lastX
 					}
@@ -467,13 +467,13 @@ func TrimSetBounds(set *LineSet) bool {
 }
 
 type RotatePointData struct {
-	X  int
-	Y  int
-	DX int
-	DY int
+	X  int64
+	Y  int64
+	DX int64
+	DY int64
 }
 
-func (r *RotatePointData) RotatePoint(p *IntVertex, x, y int) {
+func (r *RotatePointData) RotatePoint(p *IntVertex, x, y int64) {
 
 	p.X = r.DX*(x-r.X) + r.DY*(y-r.Y)
 	p.Y = r.DX*(y-r.Y) - r.DY*(x-r.X)
@@ -481,7 +481,7 @@ func (r *RotatePointData) RotatePoint(p *IntVertex, x, y int) {
 
 //go:nosplit
 func TrimLines(src, tgt *TransLine, set *LineSet) int {
-	var loY, hiY, loX, hiX int
+	var loY, hiY, loX, hiX int64
 
 	// LOSGetBounds inlined manually (because compiler wouldn't inline this)
 	// (gcc didn't inline this in ZokumBSP source code either, so Go is not
@@ -612,7 +612,7 @@ func TrimLines(src, tgt *TransLine, set *LineSet) int {
 	rp.RotatePoint(&p2, tgt.start.X, tgt.start.Y)
 	rp.RotatePoint(&p3, tgt.end.X, tgt.end.Y)
 
-	var minX, maxX, minY int
+	var minX, maxX, minY int64
 	if p1.X < 0 {
 		minX = 0
 	} else {
@@ -697,7 +697,7 @@ func TrimLines(src, tgt *TransLine, set *LineSet) int {
 			}
 			// A line may touch both src and tgt, it is not in view if it is
 			// behind either of them
-			ySrc, yTgt := 1, 1
+			ySrc, yTgt := int64(1), int64(1)
 			// April 2023: solid lines' vertices are stored in SolidLine
 			// structure directly, not as pointers (friendlier to CPU cache)
 			if (line.start == *src.start) || (line.start == *src.end) {
@@ -755,7 +755,7 @@ func FindObstacles(world *WorldInfo) bool {
 //	   -1 - below the poly-line (one or both end-points may touch the poly-line)
 //	   -2 - can't tell start this segment
 func Intersects(p1, p2, t1, t2 *IntVertex) int {
-	var DX, DY, y1, y2 int
+	var DX, DY, y1, y2 int64
 
 	// Rotate & translate using p1->p2 as the +X-axis
 	DX = p2.X - p1.X
@@ -823,7 +823,7 @@ func FindSide(line *SolidLine, poly *PolyLine) int {
 
 func AddToPolyLine(poly *PolyLine, line *SolidLine) {
 
-	var DX, DY, y1, y2 int
+	var DX, DY, y1, y2 int64
 
 	y1 = 0
 
@@ -978,7 +978,7 @@ func AdjustEndPoints(left, right *TransLine, upper, lower *PolyLine) bool {
 	}
 	test := upper.points[upper.lastPoint]
 
-	var dx, dy, y int
+	var dx, dy, y int64
 	changed := false
 
 	dx = test.X - left.hiPoint.X
diff --git a/rejectSYMM.go b/rejectSYMM.go
index f0897a6..b207674 100755
--- a/rejectSYMM.go
+++ b/rejectSYMM.go
@@ -321,8 +321,8 @@ func (r *SymmetricRejectWork) setupLines(rsetup *RejectInternalSetup) (setupDone
 			continue
 		}
 		x1, y1, x2, y2 := r.input.lines.GetAllXY(i)
-		vertices[int(i)<<1] = IntVertex{X: x1, Y: y1}
-		vertices[int(i)<<1+1] = IntVertex{X: x2, Y: y2}
+		vertices[int(i)<<1] = IntVertex{X: int64(x1), Y: int64(y1)}
+		vertices[int(i)<<1+1] = IntVertex{X: int64(x2), Y: int64(y2)}
 		if x1 == x2 && y1 == y2 {
 			continue
 		}
@@ -351,9 +351,9 @@ func (r *SymmetricRejectWork) setupLines(rsetup *RejectInternalSetup) (setupDone
 				end:            &vertices[int(i)<<1+1],
 				frontSector:    fSector,
 				backSector:     bSector,
-				DX:             x2 - x1,
-				DY:             y2 - y1,
-				H:              (x2-x1)*(x2-x1) + (y2-y1)*(y2-y1),
+				DX:             int64(x2 - x1),
+				DY:             int64(y2 - y1),
+				H:              int64(x2-x1)*int64(x2-x1) + int64(y2-y1)*int64(y2-y1),
 				indexInLineVis: int(numTransLines),
 			}
 			numTransLines++
@@ -723,9 +723,9 @@ func (r *SymmetricRejectWork) traceSelfRefLines(numTransLines *int, numSolidLine
 			end:            &vertices[int(i)<<1+1],
 			frontSector:    newFrontSector,
 			backSector:     newBackSector,
-			DX:             X2 - X1,
-			DY:             Y2 - Y1,
-			H:              (X2-X1)*(X2-X1) + (Y2-Y1)*(Y2-Y1),
+			DX:             int64(X2 - X1),
+			DY:             int64(Y2 - Y1),
+			H:              int64(X2-X1)*int64(X2-X1) + int64(Y2-Y1)*int64(Y2-Y1),
 			indexInLineVis: *numTransLines,
 		}
 		(*numTransLines)++
-- 
2.43.0


From 9039b654097b2e0b06e63ac208157eb59199fe8c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:49:00 +0000
Subject: [PATCH 56/56] fix: the 32-bit program built other nodes for maps
 wider than 32768

---
 nodegen.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/nodegen.go b/nodegen.go
index 74354b8..d158bd9 100755
--- a/nodegen.go
+++ b/nodegen.go
@@ -93,7 +93,7 @@ type NodesInput struct {
 	linedefForMTP      *uint16   // another rare passthrough
 }
 
-type Number int
+type Number int64 // products of map coordinates do not fit 32 bits
 
 type WideNumber int64
 
-- 
2.43.0

