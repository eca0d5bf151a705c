From 34299e0f43147aa4ce63cfcf899d4726f2655c46 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:54:46 +0000
Subject: [PATCH 01/15] fix: stop when the DOS 3.3 catalog chain loops

---
 dos3/dos3.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/dos3/dos3.go b/dos3/dos3.go
index a909ca3..7425dfe 100644
--- a/dos3/dos3.go
+++ b/dos3/dos3.go
@@ -509,6 +509,7 @@ func readCatalogSectors(diskbytes []byte, debug int) ([]CatalogSector, error) {
 		if seen[ts] {
 			return nil, fmt.Errorf("Catalog tries to read TrackSector track=%d sector=%d twice", nextTrack, nextSector)
 		}
+		seen[ts] = true
 		if nextTrack >= v.NumTracks {
 			return nil, fmt.Errorf("catalog sectors can't be in track %d: disk only has %d tracks", nextTrack, v.NumTracks)
 		}
-- 
2.43.0


From db5eca75e96990ef02b28ab530e93e76e318705b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:54:47 +0000
Subject: [PATCH 02/15] fix: report DOS 3.3 files shorter than their header
 claims instead of crashing

---
 dos3/dos3.go | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/dos3/dos3.go b/dos3/dos3.go
index 7425dfe..e80afef 100644
--- a/dos3/dos3.go
+++ b/dos3/dos3.go
@@ -623,7 +623,7 @@ func (o operator) GetFile(filename string) (types.FileInfo, error) {
 	errType := "UNKNOWN"
 	switch fd.Filetype & 0x7f {
 	case FiletypeText: // Text file
-		for data[len(data)-1] == 0 {
+		for len(data) > 0 && data[len(data)-1] == 0 {
 			data = data[:len(data)-1]
 		}
 		fi.Descriptor.Length = len(data)
@@ -637,10 +637,19 @@ func (o operator) GetFile(filename string) (types.FileInfo, error) {
 		case FiletypeInteger:
 			// TODO(zellyn): figure out what address integer basic programs are stored at.
 		case FiletypeBinary:
+			if len(data) < 2 {
+				return types.FileInfo{}, fmt.Errorf("file %q is too short to hold a start address", filename)
+			}
 			fi.StartAddress = uint16(data[0]) + uint16(data[1])<<8
 			data = data[2:]
 		}
+		if len(data) < 2 {
+			return types.FileInfo{}, fmt.Errorf("file %q is too short to hold a length", filename)
+		}
 		length := int(data[0]) + int(data[1])*256
+		if length+2 > len(data) {
+			return types.FileInfo{}, fmt.Errorf("file %q should be %d bytes long, but only has %d bytes of data", filename, length, len(data)-2)
+		}
 		data = data[2 : length+2]
 		fi.Descriptor.Length = length
 		fi.Data = data
-- 
2.43.0


From 772130473dc75be408f608be27562bee9600aa55 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:54:48 +0000
Subject: [PATCH 03/15] fix: stop when ProDOS directory, subdirectory or parent
 chains loop

---
 prodos/prodos.go | 58 +++++++++++++++++++++++++++++++-----------------
 1 file changed, 38 insertions(+), 20 deletions(-)

diff --git a/prodos/prodos.go b/prodos/prodos.go
index a4c873a..9b7d1f5 100644
--- a/prodos/prodos.go
+++ b/prodos/prodos.go
@@ -693,6 +693,9 @@ func readVolume(devicebytes []byte, keyBlock uint16, debug int) (Volume, error)
 	// }
 
 	for block := v.keyBlock.Next; block != 0; block = v.blocks[len(v.blocks)-1].Next {
+		if _, seen := v.firstSubdirBlocks[block]; seen {
+			return v, fmt.Errorf("volume directory tries to read block %d twice", block)
+		}
 		vdb := VolumeDirectoryBlock{}
 		if err := disk.UnmarshalBlock(devicebytes, &vdb, block); err != nil {
 			return v, err
@@ -714,6 +717,9 @@ func readVolume(devicebytes []byte, keyBlock uint16, debug int) (Volume, error)
 
 	for i := 0; i < len(sdds); i++ {
 		sdd := sdds[i]
+		if _, seen := v.subdirsByBlock[sdd.KeyPointer]; seen {
+			return v, fmt.Errorf("subdirectory at block %d has more than one directory entry", sdd.KeyPointer)
+		}
 		sub, err := readSubdirectory(devicebytes, sdd)
 		if err != nil {
 			return v, err
@@ -783,31 +789,38 @@ func (s Subdirectory) subdirDescriptors() []FileDescriptor {
 	return descs
 }
 
-// parentDirName returns the full recursive directory name of the given parent directory.
+// parentDirName returns the full directory name of the given parent directory.
 func parentDirName(parentDirectoryBlock uint16, keyBlock uint16, subdirMap map[uint16]*Subdirectory, firstSubdirBlockMap map[uint16]uint16) (string, error) {
-	if parentDirectoryBlock == keyBlock || firstSubdirBlockMap[parentDirectoryBlock] == keyBlock {
-		return "", nil
-	}
-	sd := subdirMap[parentDirectoryBlock]
-	if sd == nil {
-		parentFirstBlock, ok := firstSubdirBlockMap[parentDirectoryBlock]
-		if ok {
-			sd = subdirMap[parentFirstBlock]
+	var names []string
+	seen := map[uint16]bool{}
+	for parentDirectoryBlock != keyBlock && firstSubdirBlockMap[parentDirectoryBlock] != keyBlock {
+		if seen[parentDirectoryBlock] {
+			return "", fmt.Errorf("parent directory chain visits block %d twice", parentDirectoryBlock)
 		}
-	}
-	if sd == nil {
-		return "", fmt.Errorf("unable to find subdirectory for block %d", parentDirectoryBlock)
+		seen[parentDirectoryBlock] = true
+		sd := subdirMap[parentDirectoryBlock]
+		if sd == nil {
+			parentFirstBlock, ok := firstSubdirBlockMap[parentDirectoryBlock]
+			if ok {
+				sd = subdirMap[parentFirstBlock]
+			}
+		}
+		if sd == nil {
+			return "", fmt.Errorf("unable to find subdirectory for block %d", parentDirectoryBlock)
+		}
+		names = append(names, sd.keyBlock.Header.Name())
+		parentDirectoryBlock = sd.keyBlock.Header.ParentPointer
 	}
 
-	parentName, err := parentDirName(sd.keyBlock.Header.ParentPointer, keyBlock, subdirMap, firstSubdirBlockMap)
-	if err != nil {
-		return "", err
-	}
-	if parentName == "" {
-		return sd.keyBlock.Header.Name(), nil
+	result := ""
+	for i := len(names) - 1; i >= 0; i-- {
+		if result == "" {
+			result = names[i]
+		} else {
+			result += "/" + names[i]
+		}
 	}
-
-	return parentName + "/" + sd.keyBlock.Header.Name(), nil
+	return result, nil
 }
 
 // readSubdirectory reads a single subdirectory from a device into
@@ -821,7 +834,12 @@ func readSubdirectory(devicebytes []byte, fd FileDescriptor) (Subdirectory, erro
 		return s, fmt.Errorf("cannot read first block of subdirectory %q (block %d): %v", fd.Name(), fd.KeyPointer, err)
 	}
 
+	seen := map[uint16]bool{}
 	for block := s.keyBlock.Next; block != 0; block = s.blocks[len(s.blocks)-1].Next {
+		if seen[block] {
+			return s, fmt.Errorf("subdirectory %q tries to read block %d twice", fd.Name(), block)
+		}
+		seen[block] = true
 		sdb := SubdirectoryBlock{}
 		if err := disk.UnmarshalBlock(devicebytes, &sdb, block); err != nil {
 			return s, err
-- 
2.43.0


From bee0ad4edf7d21ce9fad41f3022877ec46ad8cd3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:54:49 +0000
Subject: [PATCH 04/15] fix: reject Applesoft line links that point before the
 program or loop

---
 basic/applesoft/applesoft.go | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/basic/applesoft/applesoft.go b/basic/applesoft/applesoft.go
index afd80ae..c84613e 100644
--- a/basic/applesoft/applesoft.go
+++ b/basic/applesoft/applesoft.go
@@ -149,9 +149,14 @@ func Decode(raw []byte, location uint16) (Listing, error) {
 	listing := []Line{}
 	last := 0 // last line number
 	next := int(location)
+	seen := map[uint16]bool{}
 	for next != 0 {
 		ofs := calcOffset(next)
-		if ofs < -1 || ofs+1 >= len(raw) {
+		if seen[uint16(next)] {
+			return nil, fmt.Errorf("line %d has next line at $%X, which was already read", last, next)
+		}
+		seen[uint16(next)] = true
+		if ofs < 0 || ofs+1 >= len(raw) {
 			return nil, fmt.Errorf("line %d has next line at $%X, which is outside the input range of %s", last, next, bounds)
 		}
 		next = int(raw[ofs]) + 256*int(raw[ofs+1])
-- 
2.43.0


From 96e9cba1292993d3cc83f614c8461c6c9f1b54ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:54:50 +0000
Subject: [PATCH 05/15] fix: reject Integer BASIC lines shorter than their own
 header

---
 basic/integer/integer.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/basic/integer/integer.go b/basic/integer/integer.go
index b51a412..1d77076 100644
--- a/basic/integer/integer.go
+++ b/basic/integer/integer.go
@@ -170,6 +170,9 @@ func Decode(raw []byte) (Listing, error) {
 	for len(raw) > 3 {
 		size := int(raw[0])
 		num := int(raw[1]) + 256*int(raw[2])
+		if size < 4 {
+			return nil, fmt.Errorf("line %d has impossible size %d", num, size)
+		}
 		if len(raw) < size {
 			return nil, fmt.Errorf("line %d wants %d bytes; only %d remain", num, size, len(raw))
 		}
-- 
2.43.0


From 659409dd3b46ed345f503bc6136ba8e301a1d936 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:54:51 +0000
Subject: [PATCH 06/15] fix: refuse to write an empty NakedOS file instead of
 crashing

---
 supermon/supermon.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/supermon/supermon.go b/supermon/supermon.go
index f3add84..058e7ea 100644
--- a/supermon/supermon.go
+++ b/supermon/supermon.go
@@ -193,6 +193,9 @@ func (sm SectorMap) WriteFile(diskbytes []byte, file byte, contents []byte, over
 	copy(cts, contents)
 	existing := len(sm.SectorsForFile(file))
 	existed := existing > 0
+	if sectorsNeeded == 0 {
+		return existed, fmt.Errorf("cannot write empty file %d: NakedOS files hold at least one sector", file)
+	}
 	free := sm.FreeSectors() + existing
 	if free < sectorsNeeded {
 		return existed, errors.OutOfSpacef("file %d requires %d sectors, but only %d are available", file, sectorsNeeded, free)
-- 
2.43.0


From 20389267b656972194e5f20eabf6d267ca786429 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:54:52 +0000
Subject: [PATCH 07/15] fix: keep empty Super-Mon symbol slots out of the hash
 chains

---
 supermon/supermon.go | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/supermon/supermon.go b/supermon/supermon.go
index 058e7ea..1a3fe5d 100644
--- a/supermon/supermon.go
+++ b/supermon/supermon.go
@@ -338,7 +338,7 @@ func (sm SectorMap) ReadSymbolTable(diskbytes []byte) (SymbolTable, error) {
 	for i := 0; i < 0x0fff; i += 5 {
 		address := uint16(symtbl1[i]) + uint16(symtbl1[i+1])<<8
 		if address == 0 {
-			table = append(table, Symbol{})
+			table = append(table, Symbol{Link: -1})
 			continue
 		}
 		linkAddr := uint16(symtbl1[i+2]) + uint16(symtbl1[i+3])<<8
@@ -463,6 +463,7 @@ func (st SymbolTable) DeleteSymbol(name string) bool {
 					break
 				}
 			}
+			sym.Link = -1
 			st[i] = sym
 			return true
 		}
@@ -497,7 +498,7 @@ func (st SymbolTable) AddSymbol(name string, address uint16) error {
 		return fmt.Errorf("symbol table full")
 	}
 	for j, sym := range st {
-		if addrHash(sym.Address) == hash && sym.Link == -1 {
+		if sym.Address != 0 && addrHash(sym.Address) == hash && sym.Link == -1 {
 			st[j].Link = pos
 			break
 		}
-- 
2.43.0


From 4b5c23b4162e7a2aad546e4595834fc76882d598 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:54:53 +0000
Subject: [PATCH 08/15] fix: reject Super-Mon symbol characters that cannot be
 encoded

---
 supermon/supermon.go | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/supermon/supermon.go b/supermon/supermon.go
index 1a3fe5d..a532d7f 100644
--- a/supermon/supermon.go
+++ b/supermon/supermon.go
@@ -298,6 +298,8 @@ func encodeSymbol(name string) (six []byte, err error) {
 		case '5' <= ch && ch <= '9':
 			value = value<<6 + 0x3b + uint64(ch-'5')
 			bits += 6
+		default:
+			return nil, fmt.Errorf("invalid Super-Mon symbol %q: only letters and digits are allowed", name)
 		}
 		if bits > 48 {
 			return nil, fmt.Errorf("invalid Super-Mon symbol %q: too long", name)
-- 
2.43.0


From 7712da247480550c96d517da820e9ca10da8548c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:54:54 +0000
Subject: [PATCH 09/15] fix: accept valid and reject invalid new symbol names
 in ParseCompoundSymbol

---
 supermon/supermon.go | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/supermon/supermon.go b/supermon/supermon.go
index a532d7f..5bc395c 100644
--- a/supermon/supermon.go
+++ b/supermon/supermon.go
@@ -585,8 +585,7 @@ func (st SymbolTable) ParseCompoundSymbol(name string) (address uint16, symAddre
 			return uint16(addr), 0, "", nil
 		}
 		// If it's a valid symbol name, assume that's what it is.
-		if _, err := encodeSymbol(name); err != nil {
-			//nolint:nilerr
+		if _, err := encodeSymbol(name); err == nil {
 			return 0, 0, name, nil
 		}
 		return 0, 0, "", fmt.Errorf("%q is not a valid symbol name or address", name)
-- 
2.43.0


From f8b79b019929ff853d4e3dbfb00cda11edf690fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:54:55 +0000
Subject: [PATCH 10/15] fix: make IndexBlock.Set modify the block

---
 prodos/prodos.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/prodos/prodos.go b/prodos/prodos.go
index 9b7d1f5..d8b00c0 100644
--- a/prodos/prodos.go
+++ b/prodos/prodos.go
@@ -441,7 +441,7 @@ func (i IndexBlock) Get(blockNum byte) uint16 {
 }
 
 // Set the blockNum'th block number in an index block.
-func (i IndexBlock) Set(blockNum byte, block uint16) {
+func (i *IndexBlock) Set(blockNum byte, block uint16) {
 	i[blockNum] = byte(block)
 	i[256+int(blockNum)] = byte(block >> 8)
 }
-- 
2.43.0


From 148231b2623d64a32c56c8d2c47dc5c59edfa0a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:54:56 +0000
Subject: [PATCH 11/15] fix: size the volume bitmap without overflowing for
 large devices

---
 prodos/prodos.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/prodos/prodos.go b/prodos/prodos.go
index d8b00c0..24eae0e 100644
--- a/prodos/prodos.go
+++ b/prodos/prodos.go
@@ -65,7 +65,7 @@ type VolumeBitMap []bitmapPart
 
 // NewVolumeBitMap returns a volume bitmap of the given size.
 func NewVolumeBitMap(startBlock uint16, blocks uint16) VolumeBitMap {
-	vbm := VolumeBitMap(make([]bitmapPart, (blocks+(512*8)-1)/(512*8)))
+	vbm := VolumeBitMap(make([]bitmapPart, (int(blocks)+(512*8)-1)/(512*8)))
 	for i := range vbm {
 		vbm[i].SetBlock(startBlock + uint16(i))
 	}
-- 
2.43.0


From 953794d9356373263b62c0f7aa05151700da70fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:54:57 +0000
Subject: [PATCH 12/15] fix: list Applesoft token 0xC0 as TAB(

---
 basic/applesoft/applesoft.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/basic/applesoft/applesoft.go b/basic/applesoft/applesoft.go
index c84613e..7bf22b9 100644
--- a/basic/applesoft/applesoft.go
+++ b/basic/applesoft/applesoft.go
@@ -75,7 +75,7 @@ var TokensByCode = map[byte]string{
 	0xBD: "CLEAR",
 	0xBE: "GET",
 	0xBF: "NEW",
-	0xC0: "TAB",
+	0xC0: "TAB(",
 	0xC1: "TO",
 	0xC2: "FN",
 	0xC3: "SPC(",
-- 
2.43.0


From 10b70fe9b175c8d4759f69cd10fcbad17e4f7768 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:54:58 +0000
Subject: [PATCH 13/15] fix: do not treat an empty name as a filetype

---
 types/filetype.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/types/filetype.go b/types/filetype.go
index 0490c5d..da71cb7 100644
--- a/types/filetype.go
+++ b/types/filetype.go
@@ -179,6 +179,9 @@ func (f Filetype) String() string {
 // FiletypeForName returns the filetype for a full, three-letter, or
 // one-letter name for a Filetype.
 func FiletypeForName(name string) (Filetype, error) {
+	if name == "" {
+		return 0, fmt.Errorf("expected a Filetype name, got an empty string")
+	}
 	for _, info := range filetypeInfos {
 		if info.Name == name || info.ThreeLetter == name || info.OneLetter == name {
 			return info.Type, nil
-- 
2.43.0


From 1139875020f980c23845de30267aaca32e7d9a04 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:15:42 +0000
Subject: [PATCH 14/15] fix: list Applesoft token 0xB8 as DEF, since FN has a
 token of its own

---
 basic/applesoft/applesoft.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/basic/applesoft/applesoft.go b/basic/applesoft/applesoft.go
index 7bf22b9..a45644f 100644
--- a/basic/applesoft/applesoft.go
+++ b/basic/applesoft/applesoft.go
@@ -67,7 +67,7 @@ var TokensByCode = map[byte]string{
 	0xB5: "WAIT",
 	0xB6: "LOAD",
 	0xB7: "SAVE",
-	0xB8: "DEF FN",
+	0xB8: "DEF",
 	0xB9: "POKE",
 	0xBA: "PRINT",
 	0xBB: "CONT",
-- 
2.43.0


From b6a72bb3586f73102df27665819a94f9da663d3d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:23:13 +0000
Subject: [PATCH 15/15] fix: an empty last track/sector list adds no data to a
 DOS 3.3 file

---
 dos3/dos3.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/dos3/dos3.go b/dos3/dos3.go
index e80afef..15a7b0b 100644
--- a/dos3/dos3.go
+++ b/dos3/dos3.go
@@ -413,6 +413,7 @@ func (fd *FileDesc) Contents(diskbytes []byte) ([]byte, error) {
 		end := 121
 		// If it's the last tsl, stop at the last non-zero TrackSector.
 		if i == len(tsls)-1 {
+			end = -1
 			for j, ts := range tsl.TrackSectors {
 				if ts.Track != 0 || ts.Sector != 0 {
 					end = j
-- 
2.43.0

