S="dos3/dos3.go"; P="prodos/prodos.go"; N="supermon/supermon.go"; D="disk/marshal.go"
EDITS=[
(D,'''	start := int(index) * 512
	end := start + 512
	if len(diskbytes) < end {
		return fmt.Errorf("device too small to read block %d", index)
	}
	var block Block
	copy(block[:], diskbytes[start:end])
	if err := bs.FromBlock(block); err != nil {
		return err
	}
	bs.SetBlock(index)
	return nil
''','''	data, ok := blockBytes(diskbytes, index)
	if !ok {
		return fmt.Errorf("device too small to read block %d", index)
	}
	var block Block
	copy(block[:], data)
	err := bs.FromBlock(block)
	if err == nil {
		bs.SetBlock(index)
	}
	return err
'''),
(D,'''	start := int(index) * 512
	end := start + 512
	if len(diskbytes) < end {
		return fmt.Errorf("device too small to write block %d", index)
	}
	copy(diskbytes[start:end], block[:])
	return nil
}
''','''	data, ok := blockBytes(diskbytes, index)
	if !ok {
		return fmt.Errorf("device too small to write block %d", index)
	}
	for i := range block {
		data[i] = block[i]
	}
	return nil
}

// blockBytes returns the bytes of a block, if the device has that block.
func blockBytes(diskbytes []byte, index uint16) ([]byte, bool) {
	const size = len(Block{})
	if (int(index)+1)*size > len(diskbytes) {
		return nil, false
	}
	return diskbytes[int(index)*size : (int(index)+1)*size], true
}
'''),
# dos3
(S,'''	if sector >= 16 {
		return false
	}
	bits := byte(1) << (sector % 8)
	if sector < 8 {
		return t[1]&bits > 0
	}
	return t[0]&bits > 0
''','''	switch {
	case sector < 8:
		return t[1]>>sector&1 == 1
	case sector < 16:
		return t[0]>>(sector-8)&1 == 1
	default:
		return false
	}
'''),
(S,'''	return t[2] == 0 && t[3] == 0
''','''	return t[2]|t[3] == 0
'''),
(S,'''	if v.Volume == 255 {
		return fmt.Errorf("expected volume to be 0-254, but got 255")
	}
	if v.DOSRelease != 3 {
		return fmt.Errorf("expected DOS release number to be 3; got %d", v.DOSRelease)
	}
	if v.TrackDirection != 1 && v.TrackDirection != -1 {
		return fmt.Errorf("expected track direction to be 1 or -1; got %d", v.TrackDirection)
	}
	if v.NumTracks != 35 {
		return fmt.Errorf("expected number of tracks to be 35; got %d", v.NumTracks)
	}
	if v.NumSectors != 13 && v.NumSectors != 16 {
		return fmt.Errorf("expected number of sectors per track to be 13 or 16; got %d", v.NumSectors)
	}
	if v.BytesPerSector != 256 {
		return fmt.Errorf("expected 256 bytes per sector; got %d", v.BytesPerSector)
	}
	if v.TrackSectorListMaxSize != 122 {
		return fmt.Errorf("expected 122 track/sector pairs per track/sector list sector; got %d", v.TrackSectorListMaxSize)
	}
	for i, tf := range v.FreeSectors {
		if !tf.UnusedClear() {
			return fmt.Errorf("unused bytes of free-sector list for track %d are not zeroes", i)
		}
	}
	return nil
''','''	checks := []struct {
		ok     bool
		format string
		got    int
	}{
		{v.Volume < 255, "expected volume to be 0-254, but got %d", int(v.Volume)},
		{v.DOSRelease == 3, "expected DOS release number to be 3; got %d", int(v.DOSRelease)},
		{v.TrackDirection == 1 || v.TrackDirection == -1, "expected track direction to be 1 or -1; got %d", int(v.TrackDirection)},
		{v.NumTracks == 35, "expected number of tracks to be 35; got %d", int(v.NumTracks)},
		{v.NumSectors == 13 || v.NumSectors == 16, "expected number of sectors per track to be 13 or 16; got %d", int(v.NumSectors)},
		{v.BytesPerSector == 256, "expected 256 bytes per sector; got %d", int(v.BytesPerSector)},
		{v.TrackSectorListMaxSize == 122, "expected 122 track/sector pairs per track/sector list sector; got %d", int(v.TrackSectorListMaxSize)},
	}
	for _, check := range checks {
		if !check.ok {
			return fmt.Errorf(check.format, check.got)
		}
	}
	for i := range v.FreeSectors {
		if !v.FreeSectors[i].UnusedClear() {
			return fmt.Errorf("unused bytes of free-sector list for track %d are not zeroes", i)
		}
	}
	return nil
'''),
(S,'''	for i, m := range v.FreeSectors {
		copyBytes(buf[0x38+4*i:0x38+4*i+4], m[:])
	}
	return buf, nil
''','''	rest := buf[0x38:]
	for i := range v.FreeSectors {
		copyBytes(rest[:4], v.FreeSectors[i][:])
		rest = rest[4:]
	}
	return buf, nil
'''),
(S,'''	for i := range v.FreeSectors {
		v.FreeSectors[i] = TrackFreeSectors{}
		if i < 35 {
			v.FreeSectors[i] = TrackFreeSectors([4]byte{0xff, 0xff, 0x00, 0x00})
		}
	}
	return v
''','''	for i := 0; i < int(v.NumTracks); i++ {
		v.FreeSectors[i][0] = 0xff
		v.FreeSectors[i][1] = 0xff
	}
	return v
'''),
(S,'''	buf := make([]byte, 256)
	buf[0x00] = cs.Unused1
	buf[0x01] = cs.NextTrack
	buf[0x02] = cs.NextSector
	copyBytes(buf[0x03:0x0b], cs.Unused2[:])
	for i, fd := range cs.FileDescs {
		fdBytes := fd.ToBytes()
		copyBytes(buf[0x0b+35*i:0x0b+35*(i+1)], fdBytes)
	}
	return buf, nil
''','''	buf := make([]byte, 0, 256)
	buf = append(buf, cs.Unused1, cs.NextTrack, cs.NextSector)
	buf = append(buf, cs.Unused2[:]...)
	for _, fd := range cs.FileDescs {
		buf = append(buf, fd.ToBytes()...)
	}
	return buf, nil
'''),
(S,'''	for i := range cs.FileDescs {
		cs.FileDescs[i].FromBytes(data[0x0b+35*i : 0x0b+35*(i+1)])
	}
	return nil
''','''	const first, size = 0x0b, 35
	for i, offset := 0, first; i < len(cs.FileDescs); i, offset = i+1, offset+size {
		cs.FileDescs[i].FromBytes(data[offset:][:size])
	}
	return nil
'''),
(S,'''	copyBytes(buf[0x03:0x21], fd.Filename[:])
	binary.LittleEndian.PutUint16(buf[0x21:0x23], fd.SectorCount)
''','''	for i := range fd.Filename {
		buf[3+i] = fd.Filename[i]
	}
	buf[0x21] = byte(fd.SectorCount)
	buf[0x22] = byte(fd.SectorCount >> 8)
'''),
(S,'''	switch fd.TrackSectorListTrack {
	case 0:
		return FileDescStatusUnused // Never been used.
	case 0xff:
		return FileDescStatusDeleted
	default:
		return FileDescStatusNormal
	}
''','''	if fd.TrackSectorListTrack == 0xff {
		return FileDescStatusDeleted
	}
	if fd.TrackSectorListTrack == 0 {
		return FileDescStatusUnused // Never been used.
	}
	return FileDescStatusNormal
'''),
(S,'''	var slice []byte
	if fd.Status() == FileDescStatusDeleted {
		slice = append(slice, fd.Filename[0:len(fd.Filename)-1]...)
	} else {
		slice = append(slice, fd.Filename[:]...)
	}
	for i := range slice {
		slice[i] -= 0x80
	}
	return strings.TrimRight(string(slice), " ")
''','''	n := len(fd.Filename)
	if fd.Status() == FileDescStatusDeleted {
		n--
	}
	var sb strings.Builder
	for _, b := range fd.Filename[:n] {
		sb.WriteByte(b ^ 0x80)
	}
	return strings.TrimRight(sb.String(), " ")
'''),
(S,'''		Locked:  (fd.Filetype & FiletypeLocked) > 0,
	}
''','''		Locked:  fd.Filetype >= FiletypeLocked,
	}
'''),
(S,'''	data := make([]byte, 0, 256*122*len(tsls))
	for i, tsl := range tsls {
		end := 121
		// If it's the last tsl, stop at the last non-zero TrackSector.
		if i == len(tsls)-1 {
			end = -1
			for j, ts := range tsl.TrackSectors {
				if ts.Track != 0 || ts.Sector != 0 {
					end = j
				}
			}
		}
		for j := 0; j <= end; j++ {
			ts := tsl.TrackSectors[j]
			if ts.Track == 0 && ts.Sector == 0 {
				for k := 0; k < 256; k++ {
					data = append(data, 0)
				}
			} else {
				contents, err := disk.ReadSector(diskbytes, ts.Track, ts.Sector)
				if err != nil {
					return nil, err
				}
				data = append(data, contents...)
			}
		}
	}
	return data, nil
''','''	var sectors []disk.TrackSector
	for _, tsl := range tsls {
		sectors = append(sectors, tsl.TrackSectors[:]...)
	}
	// Stop at the last non-zero TrackSector of the last list.
	used := len(sectors)
	none := disk.TrackSector{}
	for used > 122*(len(tsls)-1) && used > 0 && sectors[used-1] == none {
		used--
	}
	data := []byte{}
	for _, ts := range sectors[:used] {
		sector := make([]byte, 256)
		if ts != none {
			var err error
			if sector, err = disk.ReadSector(diskbytes, ts.Track, ts.Sector); err != nil {
				return nil, err
			}
		}
		data = append(data, sector...)
	}
	return data, nil
'''),
(S,'''	nextTrack := v.CatalogTrack
	nextSector := v.CatalogSector
	css := []CatalogSector{}
	seen := map[disk.TrackSector]bool{}
	for nextTrack != 0 || nextSector != 0 {
		ts := disk.TrackSector{Track: nextTrack, Sector: nextSector}
		if seen[ts] {
			return nil, fmt.Errorf("Catalog tries to read TrackSector track=%d sector=%d twice", nextTrack, nextSector)
		}
		seen[ts] = true
		if nextTrack >= v.NumTracks {
			return nil, fmt.Errorf("catalog sectors can't be in track %d: disk only has %d tracks", nextTrack, v.NumTracks)
		}
		if nextSector >= v.NumSectors {
			return nil, fmt.Errorf("catalog sectors can't be in sector %d: disk only has %d sectors", nextSector, v.NumSectors)
		}
		cs := CatalogSector{}
		err := disk.UnmarshalLogicalSector(diskbytes, &cs, nextTrack, nextSector)
		if err != nil {
			return nil, err
		}
		css = append(css, cs)
		nextTrack = cs.NextTrack
		nextSector = cs.NextSector
	}
	return css, nil
''','''	css := []CatalogSector{}
	seen := map[disk.TrackSector]struct{}{}
	next := disk.TrackSector{Track: v.CatalogTrack, Sector: v.CatalogSector}
	for next != (disk.TrackSector{}) {
		if next.Track >= v.NumTracks {
			return nil, fmt.Errorf("catalog sectors can't be in track %d: disk only has %d tracks", next.Track, v.NumTracks)
		}
		if next.Sector >= v.NumSectors {
			return nil, fmt.Errorf("catalog sectors can't be in sector %d: disk only has %d sectors", next.Sector, v.NumSectors)
		}
		if _, ok := seen[next]; ok {
			return nil, fmt.Errorf("Catalog tries to read TrackSector track=%d sector=%d twice", next.Track, next.Sector)
		}
		seen[next] = struct{}{}
		css = append(css, CatalogSector{})
		cs := &css[len(css)-1]
		if err := disk.UnmarshalLogicalSector(diskbytes, cs, next.Track, next.Sector); err != nil {
			return nil, err
		}
		next = disk.TrackSector{Track: cs.NextTrack, Sector: cs.NextSector}
	}
	return css, nil
'''),
(S,'''	descs := make([]types.Descriptor, 0, len(fds))
	for _, fd := range fds {
		descs = append(descs, fd.descriptor())
	}
	return descs, nil
''','''	descs := make([]types.Descriptor, len(fds))
	for i := range descs {
		descs[i] = fds[i].descriptor()
	}
	return descs, nil
'''),
(S,'''	errType := "UNKNOWN"
	switch fd.Filetype & 0x7f {
	case FiletypeText: // Text file
		for len(data) > 0 && data[len(data)-1] == 0 {
			data = data[:len(data)-1]
		}
		fi.Descriptor.Length = len(data)
		fi.Data = data
		return fi, nil

	case FiletypeInteger, FiletypeApplesoft, FiletypeBinary:
		switch fd.Filetype & 0x7f {
		case FiletypeApplesoft:
			fi.StartAddress = 0x801
		case FiletypeInteger:
			// TODO(zellyn): figure out what address integer basic programs are stored at.
		case FiletypeBinary:
			if len(data) < 2 {
				return types.FileInfo{}, fmt.Errorf("file %q is too short to hold a start address", filename)
			}
			fi.StartAddress = uint16(data[0]) + uint16(data[1])<<8
			data = data[2:]
		}
		if len(data) < 2 {
			return types.FileInfo{}, fmt.Errorf("file %q is too short to hold a length", filename)
		}
		length := int(data[0]) + int(data[1])*256
		if length+2 > len(data) {
			return types.FileInfo{}, fmt.Errorf("file %q should be %d bytes long, but only has %d bytes of data", filename, length, len(data)-2)
		}
		data = data[2 : length+2]
		fi.Descriptor.Length = length
		fi.Data = data
		return fi, nil
''','''	errType := "UNKNOWN"
	switch fd.Filetype &^ FiletypeLocked {
	case FiletypeText: // Text file
		n := len(data)
		for ; n > 0; n-- {
			if data[n-1] != 0 {
				break
			}
		}
		fi.Data = data[:n]
		fi.Descriptor.Length = n
		return fi, nil

	case FiletypeBinary:
		if len(data) < 2 {
			return types.FileInfo{}, fmt.Errorf("file %q is too short to hold a start address", filename)
		}
		return fi.withLength(filename, data[2:], binary.LittleEndian.Uint16(data))

	case FiletypeApplesoft:
		return fi.withLength(filename, data, 0x801)

	case FiletypeInteger:
		// TODO(zellyn): figure out what address integer basic programs are stored at.
		return fi.withLength(filename, data, 0)
'''.replace("fi.withLength(","withLength(fi, ")),
(S,'''// Delete deletes a file by name. It returns true if''','''// withLength takes the data that follows a two-byte length.
func withLength(fi types.FileInfo, filename string, data []byte, start uint16) (types.FileInfo, error) {
	if len(data) < 2 {
		return types.FileInfo{}, fmt.Errorf("file %q is too short to hold a length", filename)
	}
	length := int(binary.LittleEndian.Uint16(data))
	data = data[2:]
	if len(data) < length {
		return types.FileInfo{}, fmt.Errorf("file %q should be %d bytes long, but only has %d bytes of data", filename, length, len(data))
	}
	fi.StartAddress = start
	fi.Descriptor.Length = length
	fi.Data = data[:length]
	return fi, nil
}

// Delete deletes a file by name. It returns true if'''),
# prodos
(P,'''	vbm := VolumeBitMap(make([]bitmapPart, (int(blocks)+(512*8)-1)/(512*8)))
	for i := range vbm {
		vbm[i].SetBlock(startBlock + uint16(i))
	}
	for b := 0; b < int(blocks); b++ {
		vbm.MarkUnused(uint16(b))
	}
	return vbm
''','''	const perPart = 512 * 8
	parts := (int(blocks) + perPart - 1) / perPart
	vbm := make(VolumeBitMap, parts)
	for i := 0; i < parts; i++ {
		vbm[i].block = startBlock
		startBlock++
	}
	for b := uint16(0); b < blocks; b++ {
		vbm.MarkUnused(b)
	}
	return vbm
'''),
(P,'''	byteIndex := block >> 3
	blockIndex := byteIndex / 512
	blockByteIndex := byteIndex % 512
	bit := byte(1 << (7 - (block & 7)))
	if set {
		vbm[blockIndex].data[blockByteIndex] |= bit
	} else {
		vbm[blockIndex].data[blockByteIndex] &^= bit
	}
}
''','''	b := &vbm[block/4096].data[block%4096/8]
	bit := byte(0x80) >> (block % 8)
	*b &^= bit
	if set {
		*b |= bit
	}
}
'''),
(P,'''	byteIndex := block >> 3
	blockIndex := byteIndex / 512
	blockByteIndex := byteIndex % 512
	bit := byte(1 << (7 - (block & 7)))
	return vbm[blockIndex].data[blockByteIndex]&bit > 0
''','''	part, offset := block>>12, block&0xfff
	return vbm[part].data[offset>>3]<<(offset&7)&0x80 != 0
'''),
(P,'''	if dt.HM[0] >= 24 {
		errors = append(errors, fmt.Errorf("%s expects hour<24; got %d", fieldDescription, dt.HM[0]))
	}
	if dt.HM[1] >= 60 {
		errors = append(errors, fmt.Errorf("%s expects minute<60; got %x", fieldDescription, dt.HM[1]))
	}
	return errors
''','''	hour, minute := dt.HM[0], dt.HM[1]
	if hour > 23 {
		errors = append(errors, fmt.Errorf("%s expects hour<24; got %d", fieldDescription, hour))
	}
	if minute > 59 {
		errors = append(errors, fmt.Errorf("%s expects minute<60; got %x", fieldDescription, minute))
	}
	return errors
'''),
(P,'''	dt.YMD[0] = b[0]
	dt.YMD[1] = b[1]
	dt.HM[0] = b[2]
	dt.HM[1] = b[3]
''','''	copy(dt.YMD[:], b)
	copy(dt.HM[:], b[2:])
'''),
(P,'''	binary.LittleEndian.PutUint16(block[0x0:0x2], vdkb.Prev)
	binary.LittleEndian.PutUint16(block[0x2:0x4], vdkb.Next)
	copyBytes(block[0x04:0x02b], vdkb.Header.toBytes())
	for i, desc := range vdkb.Descriptors {
		copyBytes(block[0x2b+i*0x27:0x2b+(i+1)*0x27], desc.toBytes())
	}
	block[511] = vdkb.Extra
	return block, nil
''','''	putDirectory(&block, vdkb.Prev, vdkb.Next, vdkb.Header.toBytes(), vdkb.Descriptors[:], vdkb.Extra)
	return block, nil
'''),
(P,'''	binary.LittleEndian.PutUint16(block[0x0:0x2], vdb.Prev)
	binary.LittleEndian.PutUint16(block[0x2:0x4], vdb.Next)
	for i, desc := range vdb.Descriptors {
		copyBytes(block[0x04+i*0x27:0x04+(i+1)*0x27], desc.toBytes())
	}
	block[511] = vdb.Extra
	return block, nil
''','''	putDirectory(&block, vdb.Prev, vdb.Next, nil, vdb.Descriptors[:], vdb.Extra)
	return block, nil
'''),
(P,'''	binary.LittleEndian.PutUint16(block[0x0:0x2], skb.Prev)
	binary.LittleEndian.PutUint16(block[0x2:0x4], skb.Next)
	copyBytes(block[0x04:0x02b], skb.Header.toBytes())
	for i, desc := range skb.Descriptors {
		copyBytes(block[0x2b+i*0x27:0x2b+(i+1)*0x27], desc.toBytes())
	}
	block[511] = skb.Extra
	return block, nil
''','''	putDirectory(&block, skb.Prev, skb.Next, skb.Header.toBytes(), skb.Descriptors[:], skb.Extra)
	return block, nil
'''),
(P,'''// FromBlock unmarshals a Block of bytes into a VolumeDirectoryKeyBlock.
''','''// putDirectory lays out a directory block.
func putDirectory(block *disk.Block, prev, next uint16, header []byte, descs []FileDescriptor, extra byte) {
	binary.LittleEndian.PutUint16(block[0:], prev)
	binary.LittleEndian.PutUint16(block[2:], next)
	at := 4 + copy(block[4:], header)
	for i := range descs {
		at += copy(block[at:], descs[i].toBytes())
	}
	block[len(block)-1] = extra
}

// FromBlock unmarshals a Block of bytes into a VolumeDirectoryKeyBlock.
'''),
(P,'''	for i := range vdb.Descriptors {
		vdb.Descriptors[i].fromBytes(block[0x4+i*0x27 : 0x4+(i+1)*0x27])
	}
	vdb.Extra = block[511]
	return nil
''','''	entries := block[4:511]
	for i := range vdb.Descriptors {
		vdb.Descriptors[i].fromBytes(entries[:0x27])
		entries = entries[0x27:]
	}
	vdb.Extra = block[511]
	return nil
'''),
(P,'''	desc := types.Descriptor{
		Name:   fd.Name(),
		Blocks: int(fd.BlocksUsed),
		Length: int(fd.EOF[0]) + int(fd.EOF[1])<<8 + int(fd.EOF[2])<<16,
		Locked: false, // TODO(zellyn): use prodos-style access in types.Descriptor
		Type:   types.Filetype(fd.FileType),
	}
	return desc
''','''	length := 0
	for i := len(fd.EOF) - 1; i >= 0; i-- {
		length = length<<8 | int(fd.EOF[i])
	}
	var desc types.Descriptor
	desc.Name = fd.Name()
	desc.Type = types.Filetype(fd.FileType)
	desc.Length = length
	desc.Blocks = int(fd.BlocksUsed)
	return desc
'''),
(P,'''	return string(fd.FileName[0 : fd.TypeAndNameLength&0xf])
''','''	length := fd.TypeAndNameLength % 16
	return string(fd.FileName[:length])
'''),
(P,'''	return fd.TypeAndNameLength >> 4
''','''	return fd.TypeAndNameLength / 16
'''),
(P,'''	return uint16(i[blockNum]) + uint16(i[256+int(blockNum)])<<8
''','''	lo, hi := i[blockNum], i[0x100|int(blockNum)]
	return uint16(hi)<<8 | uint16(lo)
'''),
(P,'''func (v Volume) subdirDescriptors() []FileDescriptor {
	var descs []FileDescriptor

	for _, desc := range v.descriptors() {
		if desc.Type() == TypeSubdirectory {
			descs = append(descs, desc)
		}
	}
	return descs
}
''','''func (v Volume) subdirDescriptors() []FileDescriptor {
	return onlySubdirs(v.descriptors())
}

// onlySubdirs selects the descriptors of subdirectories.
func onlySubdirs(all []FileDescriptor) []FileDescriptor {
	var descs []FileDescriptor
	for i := range all {
		if all[i].Type() != TypeSubdirectory {
			continue
		}
		descs = append(descs, all[i])
	}
	return descs
}
'''),
(P,'''func (s Subdirectory) subdirDescriptors() []FileDescriptor {
	var descs []FileDescriptor

	for _, desc := range s.descriptors() {
		if desc.Type() == TypeSubdirectory {
			descs = append(descs, desc)
		}
	}
	return descs
}
''','''func (s Subdirectory) subdirDescriptors() []FileDescriptor {
	return onlySubdirs(s.descriptors())
}
'''),
(P,'''	for block := v.keyBlock.Next; block != 0; block = v.blocks[len(v.blocks)-1].Next {
		if _, seen''','''	block := v.keyBlock.Next
	for block != 0 {
		if _, seen'''),
(P,'''		// if debug {
		// 	fmt.Fprintf(os.Stderr, "block: %#v\\n", vdb)
		// }
	}
''','''		block = vdb.Next
	}
'''),
(P,'''	for i := 0; i < len(sdds); i++ {
		sdd := sdds[i]
		if _, seen''','''	for pending := sdds; len(pending) > 0; {
		sdd := pending[0]
		pending = pending[1:]
		if _, seen'''),
(P,'''		sdds = append(sdds, sub.subdirDescriptors()...)
''','''		pending = append(pending, sub.subdirDescriptors()...)
'''),
(P,'''	var names []string
	seen := map[uint16]bool{}
	for parentDirectoryBlock != keyBlock && firstSubdirBlockMap[parentDirectoryBlock] != keyBlock {
		if seen[parentDirectoryBlock] {
			return "", fmt.Errorf("parent directory chain visits block %d twice", parentDirectoryBlock)
		}
		seen[parentDirectoryBlock] = true
		sd := subdirMap[parentDirectoryBlock]
		if sd == nil {
			parentFirstBlock, ok := firstSubdirBlockMap[parentDirectoryBlock]
			if ok {
				sd = subdirMap[parentFirstBlock]
			}
		}
		if sd == nil {
			return "", fmt.Errorf("unable to find subdirectory for block %d", parentDirectoryBlock)
		}
		names = append(names, sd.keyBlock.Header.Name())
		parentDirectoryBlock = sd.keyBlock.Header.ParentPointer
	}

	result := ""
	for i := len(names) - 1; i >= 0; i-- {
		if result == "" {
			result = names[i]
		} else {
			result += "/" + names[i]
		}
	}
	return result, nil
''','''	result := ""
	seen := map[uint16]bool{}
	for {
		first, known := firstSubdirBlockMap[parentDirectoryBlock]
		if parentDirectoryBlock == keyBlock || known && first == keyBlock {
			return result, nil
		}
		if seen[parentDirectoryBlock] {
			return "", fmt.Errorf("parent directory chain visits block %d twice", parentDirectoryBlock)
		}
		seen[parentDirectoryBlock] = true
		sd, ok := subdirMap[parentDirectoryBlock]
		if !ok && known {
			sd, ok = subdirMap[first]
		}
		if !ok {
			return "", fmt.Errorf("unable to find subdirectory for block %d", parentDirectoryBlock)
		}
		header := &sd.keyBlock.Header
		if result != "" {
			result = header.Name() + "/" + result
		} else {
			result = header.Name()
		}
		parentDirectoryBlock = header.ParentPointer
	}
'''),
(P,'''	for block := s.keyBlock.Next; block != 0; block = s.blocks[len(s.blocks)-1].Next {
		if seen[block] {
			return s, fmt.Errorf("subdirectory %q tries to read block %d twice", fd.Name(), block)
		}
		seen[block] = true
		sdb := SubdirectoryBlock{}
		if err := disk.UnmarshalBlock(devicebytes, &sdb, block); err != nil {
			return s, err
		}
		s.blocks = append(s.blocks, &sdb)
	}
''','''	for block := s.keyBlock.Next; block != 0; {
		if seen[block] {
			return s, fmt.Errorf("subdirectory %q tries to read block %d twice", fd.Name(), block)
		}
		seen[block] = true
		sdb := new(SubdirectoryBlock)
		if err := disk.UnmarshalBlock(devicebytes, sdb, block); err != nil {
			return s, err
		}
		s.blocks = append(s.blocks, sdb)
		block = sdb.Next
	}
'''),
(P,'''	var result []types.Descriptor

	if subdir == "" {
		for _, desc := range vol.descriptors() {
			if desc.Type() != TypeDeleted {
				result = append(result, desc.descriptor())
			}
		}
		return result, nil
	}

	sd, ok := vol.subdirsByName[subdir]
	if !ok {
		return nil, fmt.Errorf("subdirectory %q not found", subdir)
	}

	for _, desc := range sd.descriptors() {
		if desc.Type() != TypeDeleted {
			result = append(result, desc.descriptor())
		}
	}
	return result, nil
''','''	descs := vol.descriptors
	if subdir != "" {
		sd := vol.subdirsByName[subdir]
		if sd == nil {
			return nil, fmt.Errorf("subdirectory %q not found", subdir)
		}
		descs = sd.descriptors
	}

	var result []types.Descriptor
	for _, desc := range descs() {
		if desc.Type() == TypeDeleted {
			continue
		}
		result = append(result, desc.descriptor())
	}
	return result, nil
'''),
# supermon
(N,'''	if track >= 35 {
		return FileIllegal
	}
	if sector >= 16 {
		return FileIllegal
	}
	return sm[int(track)*16+int(sector)]
''','''	if track < 35 && sector < 16 {
		return sm[uint(track)<<4|uint(sector)]
	}
	return FileIllegal
'''),
(N,'''	for track := byte(0); track < 35; track++ {
		for sector := byte(0); sector < 16; sector++ {
			file := sm.FileForSector(track, sector)
			if file == FileIllegal {
				return fmt.Errorf("found illegal sector map value (%02X), in track %X sector %X", FileIllegal, track, sector)
			}
		}
	}

	return nil
''','''	for i := 0; i < 35*16; i++ {
		if sm[i] == FileIllegal {
			return fmt.Errorf("found illegal sector map value (%02X), in track %X sector %X", FileIllegal, i/16, i%16)
		}
	}

	return nil
'''),
(N,'''	for i, f := range sm {
		if f == file {
			sm[i] = FileFree
		}
	}
''','''	for i := len(sm) - 1; i >= 0; i-- {
		if sm[i] != file {
			continue
		}
		sm[i] = FileFree
	}
'''),
(N,'''	sectorsNeeded := (len(contents) + 255) / 256
	cts := make([]byte, 256*sectorsNeeded)
	copy(cts, contents)
	existing''','''	sectorsNeeded := len(contents) / 256
	if len(contents) > sectorsNeeded*256 {
		sectorsNeeded++
	}
	cts := append([]byte{}, contents...)
	for len(cts) < 256*sectorsNeeded {
		cts = append(cts, 0)
	}
	existing'''),
(N,'''	i := 0
OUTER:
	for track := byte(0); track < disk.FloppyTracks; track++ {
		for sector := byte(0); sector < disk.FloppySectors; sector++ {
			if sm.FileForSector(track, sector) == FileFree {
				if err := disk.WriteSector(diskbytes, track, sector, cts[i*256:(i+1)*256]); err != nil {
					return existed, err
				}
				if err := sm.SetFileForSector(track, sector, file); err != nil {
					return existed, err
				}
				i++
				if i == sectorsNeeded {
					break OUTER
				}
			}
		}
	}
''','''	for i := 0; i < len(sm) && len(cts) > 0; i++ {
		if sm[i] != FileFree {
			continue
		}
		track, sector := byte(i/disk.FloppySectors), byte(i%disk.FloppySectors)
		if err := disk.WriteSector(diskbytes, track, sector, cts[:256]); err != nil {
			return existed, err
		}
		sm[i] = file
		cts = cts[256:]
	}
'''),
(N,'''	nm := []byte(strings.ToUpper(name))
	value := uint64(0)
	bits := 0
	for i := len(nm) - 1; i >= 0; i-- {
		ch := nm[i]
		switch {
		case 'A' <= ch && ch <= 'Z':
			value = value<<5 + uint64(ch-'@')
			bits += 5
		case '0' <= ch && ch <= '4':
			value = value<<6 + 0x1b + uint64(ch-'0')
			bits += 6
		case '5' <= ch && ch <= '9':
			value = value<<6 + 0x3b + uint64(ch-'5')
			bits += 6
		default:
			return nil, fmt.Errorf("invalid Super-Mon symbol %q: only letters and digits are allowed", name)
		}
		if bits > 48 {
			return nil, fmt.Errorf("invalid Super-Mon symbol %q: too long", name)
		}
	}
	eight := make([]byte, 8)
	six = make([]byte, 6)
	binary.LittleEndian.PutUint64(eight, value)
	copy(six, eight)
	return six, nil
''','''	value := uint64(0)
	bits := uint(0)
	for _, ch := range []byte(strings.ToUpper(name)) {
		code, width, ok := symbolCode(ch)
		if !ok {
			return nil, fmt.Errorf("invalid Super-Mon symbol %q: only letters and digits are allowed", name)
		}
		value |= code << bits
		bits += width
		if bits > 48 {
			return nil, fmt.Errorf("invalid Super-Mon symbol %q: too long", name)
		}
	}
	six = make([]byte, 6)
	for i := range six {
		six[i] = byte(value >> uint(8*i))
	}
	return six, nil
'''),
(N,'''// SymbolTable represents an entire Super-Mon symbol table. It'll
''','''// symbolCode returns the code for an upper-case character of a symbol, and how many bits it takes.
func symbolCode(ch byte) (code uint64, width uint, ok bool) {
	if ch >= 'A' && ch <= 'Z' {
		return uint64(ch) - 'A' + 1, 5, true
	}
	if ch < '0' || ch > '9' {
		return 0, 0, false
	}
	digit := uint64(ch - '0')
	return (digit/5)<<5 | (0x1b + digit%5), 6, true
}

// SymbolTable represents an entire Super-Mon symbol table. It'll
'''),
(N,'''	for value&0x1f > 0 {
		if value&0x1f < 27 {
			result += string(rune(value&0x1f + '@'))
			value >>= 5
			continue
		}
		if value&0x20 == 0 {
			result += string(rune((value & 0x1f) - 0x1b + '0'))
		} else {
			result += string(rune((value & 0x1f) - 0x1b + '5'))
		}
		value >>= 6
	}
	return result
''','''	const alphabet = "@ABCDEFGHIJKLMNOPQRSTUVWXYZ"
	for value&0x1f != 0 {
		low := value & 0x1f
		if low < 27 {
			result += alphabet[low : low+1]
			value >>= 5
		} else {
			result += strconv.Itoa(int(low - 27 + value>>5&1*5))
			value >>= 6
		}
	}
	return result
'''),
(N,'''	for i, sym := range st {
		if strings.EqualFold(name, sym.Name) {
			sym.Name = ""
			sym.Address = 0
			for j := range st {
				if i == j {
					continue
				}
				if st[j].Link == i {
					st[j].Link = sym.Link
					break
				}
			}
			sym.Link = -1
			st[i] = sym
			return true
		}
	}
	return false
''','''	for i := range st {
		if !strings.EqualFold(name, st[i].Name) {
			continue
		}
		for j := range st {
			if j != i && st[j].Link == i {
				st[j].Link = st[i].Link
				break
			}
		}
		st[i] = Symbol{Link: -1}
		return true
	}
	return false
'''),
(N,'''	for _, symbol := range st {
		if strings.EqualFold(symbol.Name, filename) {
			if symbol.Address > 0xDF00 && symbol.Address < 0xDFFE {
				return byte(symbol.Address - 0xDF00), nil
			}
			break
		}
	}

	return 0, errors''','''	if address := st.ByName(filename); address > 0xDF00 && address < 0xDF00+0xFE {
		return byte(address & 0xff), nil
	}

	return 0, errors'''),
(N,'''	symbols := st.SymbolsForAddress(0xDF00 + uint16(file))
	if len(symbols) > 0 {
		return fmt.Sprintf("DF%02X:%s", file, symbols[0].Name)
	}
	return fmt.Sprintf("DF%02X", file)
}

// parse''','''	number := fmt.Sprintf("DF%02X", file)
	for _, symbol := range st.SymbolsForAddress(0xDF00 + uint16(file)) {
		return number + ":" + symbol.Name
	}
	return number
}

// parse'''),
(N,'''	if addr, err := strconv.ParseUint(filename, 16, 16); err == nil {
		if addr > 0xDF00 && addr < 0xDFFE {
			return byte(addr - 0xDF00)
		}
		if addr > 0x00 && addr < 0xFE {
			return byte(addr)
		}
	}
	return 0
''','''	addr, err := strconv.ParseUint(filename, 16, 16)
	if err != nil {
		return 0
	}
	switch high, low := addr>>8, byte(addr); {
	case low == 0 || low >= 0xFE:
		return 0
	case high == 0xDF || high == 0:
		return low
	}
	return 0
'''),
(N,'''	parts := strings.Split(filename, ":")
	if len(parts) > 2 {
		return 0, 0, "", fmt.Errorf("more than one colon in compound filename: %q", filename)
	}
	if len(parts) == 1 {
		numFile''','''	if strings.Count(filename, ":") > 1 {
		return 0, 0, "", fmt.Errorf("more than one colon in compound filename: %q", filename)
	}
	parts := strings.SplitN(filename, ":", 2)
	if len(parts) < 2 {
		numFile'''),
(N,'''	sectorsByFile := o.SM.SectorsByFile()
	for file := byte(1); file < FileReserved; file++ {
		l := len(sectorsByFile[file])
		if l == 0 {
			continue
		}
''','''	for file := byte(1); file < FileReserved; file++ {
		l := len(o.SM.SectorsForFile(file))
		if l == 0 {
			continue
		}
'''),
(N,'''	if o.ST != nil {
		changed := o.ST.DeleteSymbol(filename)
		if changed {
			if err := o.SM.WriteSymbolTable(o.data, o.ST); err != nil {
				return existed, err
			}
		}
	}
	return existed, nil
''','''	if o.ST == nil || !o.ST.DeleteSymbol(filename) {
		return existed, nil
	}
	return existed, o.SM.WriteSymbolTable(o.data, o.ST)
'''),
(N,'''	sm, err := LoadSectorMap(diskbytes)
	if err != nil {
		return false
	}
	if err := sm.Verify(); err != nil {
		return false
	}
	return true
''','''	sm, err := LoadSectorMap(diskbytes)
	return err == nil && sm.Verify() == nil
'''),
(N,'''	"encoding/binary"
	"fmt"
''','''	"fmt"
'''),
]
