D="disk/marshal.go"; O="disk/open.go"; S="dos3/dos3.go"; P="prodos/prodos.go"; N="supermon/supermon.go"
EDITS=[
(D,'''	start := int(track)*FloppyTrackBytes + int(sector)*256
	end := start + 256
	if len(diskbytes) < end {
		return nil, fmt''','''	start, end := sectorRange(track, sector)
	if end > len(diskbytes) {
		return nil, fmt'''),
(D,'''	bytes := make([]byte, 256)
	copy(bytes, diskbytes[start:end])
	return bytes, nil
''','''	return append([]byte(nil), diskbytes[start:end]...), nil
'''),
(D,'''// WriteSector writes 256''','''// sectorRange gives the bytes of a sector.
func sectorRange(track, sector byte) (start, end int) {
	start = (int(track)*FloppySectors + int(sector)) * 256
	return start, start + 256
}

// WriteSector writes 256'''),
(D,'''	start := int(track)*FloppyTrackBytes + int(sector)*256
	end := start + 256
	if len(diskbytes) < end {
		return fmt''','''	start, end := sectorRange(track, sector)
	if len(diskbytes) < end {
		return fmt'''),
(D,'''	copy(diskbytes[start:end], data)
	return nil
}

// BlockSource''','''	for i, b := range data {
		diskbytes[start+i] = b
	}
	return nil
}

// BlockSource'''),
(O,'''	result := make([]byte, FloppyDiskBytes)
	for track := 0; track < FloppyTracks; track++ {
		for sector := 0; sector < FloppySectors; sector++ {
			data, err := ReadSector(diskimage, byte(track), byte(sector))
			if err != nil {
				return nil, err
			}
			err = WriteSector(result, byte(track), byte(order[sector]), data)
			if err != nil {
				return nil, err
			}
		}
	}
	return result, nil
''','''	result := make([]byte, FloppyDiskBytes)
	for base := 0; base < FloppyDiskBytes; base += FloppyTrackBytes {
		src := diskimage[base : base+FloppyTrackBytes]
		dst := result[base : base+FloppyTrackBytes]
		for sector, target := range order {
			copy(dst[target*256:(target+1)*256], src[sector*256:])
		}
	}
	return result, nil
'''),
(O,'''	seen := make(map[int]bool)
''','''	var seen [FloppySectors]bool
'''),
(O,'''	orders := []types.DiskOrder{order}
	switch order {
	case types.DiskOrderDO, types.DiskOrderPO:
		// nothing more
	case types.DiskOrderAuto:
		switch ext {
		case ".po":
			orders = []types.DiskOrder{types.DiskOrderPO}
		case ".do":
			orders = []types.DiskOrder{types.DiskOrderDO}
		case ".dsk", "":
			orders = []types.DiskOrder{types.DiskOrderDO, types.DiskOrderPO}
		default:
			return nil, "", fmt.Errorf("unknown disk image extension: %q", ext)
		}
	default:
		return nil, "", fmt.Errorf("disk order %q invalid for %d-byte disk images", order, FloppyDiskBytes)
	}
''','''	orders, err := candidateOrders(order, ext)
	if err != nil {
		return nil, "", err
	}
'''),
(O,'''// Swizzle changes''','''// candidateOrders lists the orders to try.
func candidateOrders(order types.DiskOrder, ext string) ([]types.DiskOrder, error) {
	if order == types.DiskOrderDO || order == types.DiskOrderPO {
		return []types.DiskOrder{order}, nil
	}
	if order != types.DiskOrderAuto {
		return nil, fmt.Errorf("disk order %q invalid for %d-byte disk images", order, FloppyDiskBytes)
	}
	byExt := map[string][]types.DiskOrder{
		".po":  {types.DiskOrderPO},
		".do":  {types.DiskOrderDO},
		".dsk": {types.DiskOrderDO, types.DiskOrderPO},
		"":     {types.DiskOrderDO, types.DiskOrderPO},
	}
	if l, ok := byExt[ext]; ok {
		return l, nil
	}
	return nil, fmt.Errorf("unknown disk image extension: %q", ext)
}

// reorder goes from one logical order to another.
func reorder(data []byte, from, to types.DiskOrder) ([]byte, error) {
	physical, err := Swizzle(data, LogicalToPhysicalByName[from])
	if err != nil {
		return nil, err
	}
	return Swizzle(physical, PhysicalToLogicalByName[to])
}

// Swizzle changes'''),
(O,'''		swizzled, err := Swizzle(rawbytes, LogicalToPhysicalByName[order])
		if err != nil {
			return nil, "", err
		}
		for _, factory := range factories {
			diskbytes, err := Swizzle(swizzled, PhysicalToLogicalByName[factory.DiskOrder()])
''','''		for i := range factories {
			factory := factories[i]
			diskbytes, err := reorder(rawbytes, order, factory.DiskOrder())
'''),
(O,'''	// Go from logical sectors for the operator back to physical sectors.
	physicalBytes, err := Swizzle(logicalBytes, LogicalToPhysicalByName[op.DiskOrder()])
	if err != nil {
		return err
	}

	// Go from physical sectors to the disk order (DO or PO)
	diskBytes, err := Swizzle(physicalBytes, PhysicalToLogicalByName[diskFileOrder])
	if err != nil {
''','''	diskBytes, err := reorder(logicalBytes, op.DiskOrder(), diskFileOrder)
	if err != nil {
'''),
(O,'''	ext := strings.ToLower(path.Ext(filename))
	size := len(filebytes)
	if size == FloppyDiskBytes {
		return openDoOrPo(filebytes, order, system, ext, operatorFactories, debug)
	}
	if size == FloppyDiskBytes13Sector {
		return nil, "", fmt.Errorf("cannot open 13-sector disk images (yet)")
	}

	if ext == ".hdv" {
		return openHDV(filebytes, order, system, operatorFactories, debug)
	}
	return nil, "", fmt.Errorf("can only open disk-sized images and .hdv files")
''','''	ext := strings.ToLower(path.Ext(filename))
	switch size := len(filebytes); {
	case size == FloppyDiskBytes:
		return openDoOrPo(filebytes, order, system, ext, operatorFactories, debug)
	case size == FloppyDiskBytes13Sector:
		return nil, "", fmt.Errorf("cannot open 13-sector disk images (yet)")
	case ext == ".hdv":
		return openHDV(filebytes, order, system, operatorFactories, debug)
	}
	return nil, "", fmt.Errorf("can only open disk-sized images and .hdv files")
'''),
# dos3
(S,'''	bits := byte(1) << (sector % 8)
	if sector < 8 {
		return t[1]&bits > 0
	}
	return t[0]&bits > 0
''','''	word := uint16(t[0])<<8 | uint16(t[1])
	return word>>sector&1 == 1
'''),
(S,'''	if v.Volume == 255 {
		return fmt.Errorf("expected volume to be 0-254, but got 255")
	}
	if v.DOSRelease != 3 {
		return fmt.Errorf("expected DOS release number to be 3; got %d", v.DOSRelease)
	}
	if v.TrackDirection != 1 && v.TrackDirection != -1 {
		return fmt.Errorf("expected track direction to be 1 or -1; got %d", v.TrackDirection)
	}
''','''	switch {
	case v.Volume == 255:
		return fmt.Errorf("expected volume to be 0-254, but got 255")
	case v.DOSRelease != 3:
		return fmt.Errorf("expected DOS release number to be 3; got %d", v.DOSRelease)
	}
	if d := v.TrackDirection; !(d == 1 || d == -1) {
		return fmt.Errorf("expected track direction to be 1 or -1; got %d", v.TrackDirection)
	}
'''),
(S,'''	var slice []byte
	if fd.Status() == FileDescStatusDeleted {
		slice = append(slice, fd.Filename[0:len(fd.Filename)-1]...)
	} else {
		slice = append(slice, fd.Filename[:]...)
	}
	for i := range slice {
		slice[i] -= 0x80
	}
	return strings.TrimRight(string(slice), " ")
''','''	n := len(fd.Filename)
	if fd.Status() == FileDescStatusDeleted {
		n--
	}
	slice := make([]byte, n)
	for i := 0; i < n; i++ {
		slice[i] = fd.Filename[i] - 0x80
	}
	for n > 0 && slice[n-1] == ' ' {
		n--
	}
	return string(slice[:n])
'''),
(S,'''	"strings"

''','''
'''),
(S,'''	switch fd.Filetype & 0x7f {
	case FiletypeText: // Text file
		desc.Type = types.FiletypeASCIIText
	case FiletypeInteger: // INTEGER BASIC file
		desc.Type = types.FiletypeIntegerBASIC
	case FiletypeApplesoft: // APPLESOFT BASIC file
		desc.Type = types.FiletypeApplesoftBASIC
	case FiletypeBinary: // BINARY file
		desc.Type = types.FiletypeBinary
	case FiletypeS: // S type file
		desc.Type = types.FiletypeS
	case FiletypeRelocatable: // RELOCATABLE object module file
		desc.Type = types.FiletypeRelocatable
	case FiletypeA: // A type file
		desc.Type = types.FiletypeNewA
	case FiletypeB: // B type file
		desc.Type = types.FiletypeNewB
	}
	return desc
''','''	desc.Type = commonTypes[fd.Filetype&0x7f]
	return desc
'''),
(S,'''// descriptor returns a types.Descriptor for''','''// commonTypes gives the type of each DOS type.
var commonTypes = map[Filetype]types.Filetype{
	FiletypeText:        types.FiletypeASCIIText,
	FiletypeInteger:     types.FiletypeIntegerBASIC,
	FiletypeApplesoft:   types.FiletypeApplesoftBASIC,
	FiletypeBinary:      types.FiletypeBinary,
	FiletypeS:           types.FiletypeS,
	FiletypeRelocatable: types.FiletypeRelocatable,
	FiletypeA:           types.FiletypeNewA,
	FiletypeB:           types.FiletypeNewB,
}

// descriptor returns a types.Descriptor for'''),
(S,'''	tsls := []TrackSectorList{}
	nextTrack := fd.TrackSectorListTrack
	nextSector := fd.TrackSectorListSector
	seen := map[disk.TrackSector]bool{}
	for nextTrack != 0 || nextSector != 0 {
		ts := disk.TrackSector{Track: nextTrack, Sector: nextSector}
		if seen[ts] {
			return nil, fmt.Errorf("file %q tries to read TrackSector track=%d sector=%d twice", fd.FilenameString(), nextTrack, nextSector)
		}
		seen[ts] = true
		tsl := TrackSectorList{}
		if err := disk.UnmarshalLogicalSector(diskbytes, &tsl, nextTrack, nextSector); err != nil {
			return nil, err
		}
		tsls = append(tsls, tsl)
		nextTrack = tsl.NextTrack
		nextSector = tsl.NextSector
	}
	data := make([]byte, 0, 256*122*len(tsls))
	for i, tsl := range tsls {
		end := 121
		// If it's the last tsl, stop at the last non-zero TrackSector.
		if i == len(tsls)-1 {
			end = -1
			for j, ts := range tsl.TrackSectors {
				if ts.Track != 0 || ts.Sector != 0 {
					end = j
				}
			}
		}
		for j := 0; j <= end; j++ {
			ts := tsl.TrackSectors[j]
			if ts.Track == 0 && ts.Sector == 0 {
				for k := 0; k < 256; k++ {
					data = append(data, 0)
				}
			} else {
				contents, err := disk.ReadSector(diskbytes, ts.Track, ts.Sector)
				if err != nil {
					return nil, err
				}
				data = append(data, contents...)
			}
		}
	}
	return data, nil
}
''','''	pairs, err := fd.sectors(diskbytes)
	if err != nil {
		return nil, err
	}
	// Stop at the last non-zero TrackSector.
	data := make([]byte, 0, 256*len(pairs))
	none := disk.TrackSector{}
	for _, ts := range pairs {
		if ts == none {
			data = append(data, make([]byte, 256)...)
			continue
		}
		contents, err := disk.ReadSector(diskbytes, ts.Track, ts.Sector)
		if err != nil {
			return nil, err
		}
		data = append(data, contents...)
	}
	return data, nil
}

// sectors lists the sectors of a file.
func (fd *FileDesc) sectors(diskbytes []byte) ([]disk.TrackSector, error) {
	none := disk.TrackSector{}
	seen := map[disk.TrackSector]struct{}{}
	var pairs []disk.TrackSector
	start := 0
	next := disk.TrackSector{Track: fd.TrackSectorListTrack, Sector: fd.TrackSectorListSector}
	for next != none {
		if _, dup := seen[next]; dup {
			return nil, fmt.Errorf("file %q tries to read TrackSector track=%d sector=%d twice", fd.FilenameString(), next.Track, next.Sector)
		}
		seen[next] = struct{}{}
		var tsl TrackSectorList
		if err := disk.UnmarshalLogicalSector(diskbytes, &tsl, next.Track, next.Sector); err != nil {
			return nil, err
		}
		start = len(pairs)
		pairs = append(pairs, tsl.TrackSectors[:]...)
		next = disk.TrackSector{Track: tsl.NextTrack, Sector: tsl.NextSector}
	}
	for len(pairs) > start && pairs[len(pairs)-1] == none {
		pairs = pairs[:len(pairs)-1]
	}
	return pairs, nil
}
'''),
(S,'''			switch fd.Status() {
			case FileDescStatusUnused:
				// skip
			case FileDescStatusDeleted:
				deleted = append(deleted, fd)
			case FileDescStatusNormal:
				files = append(files, fd)
			}
''','''			status := fd.Status()
			if status == FileDescStatusUnused {
				continue
			}
			if status == FileDescStatusDeleted {
				deleted = append(deleted, fd)
			} else {
				files = append(files, fd)
			}
'''),
(S,'''		for len(data) > 0 && data[len(data)-1] == 0 {
			data = data[:len(data)-1]
		}
		fi.Descriptor.Length = len(data)
		fi.Data = data
		return fi, nil
''','''		fi.Data = bytes.TrimRight(data, "\\x00")
		fi.Descriptor.Length = len(fi.Data)
		return fi, nil
'''),
(S,'''import (
''','''import (
	"bytes"
'''),
# prodos
(P,'''	byteIndex := block >> 3
	blockIndex := byteIndex / 512
	blockByteIndex := byteIndex % 512
	bit := byte(1 << (7 - (block & 7)))
	return vbm[blockIndex].data[blockByteIndex]&bit > 0
''','''	part, index, bit := locate(block)
	return vbm[part].data[index]&bit != 0
'''),
(P,'''	byteIndex := block >> 3
	blockIndex := byteIndex / 512
	blockByteIndex := byteIndex % 512
	bit := byte(1 << (7 - (block & 7)))
	if set {
		vbm[blockIndex].data[blockByteIndex] |= bit
	} else {
		vbm[blockIndex].data[blockByteIndex] &^= bit
	}
}
''','''	part, index, bit := locate(block)
	old := vbm[part].data[index] &^ bit
	if set {
		old |= bit
	}
	vbm[part].data[index] = old
}

// locate finds a block's bit.
func locate(block uint16) (part, index int, bit byte) {
	b := int(block)
	return b / 4096, b % 4096 / 8, 0x80 >> uint(b%8)
}
'''),
(P,'''	var result []types.Descriptor

	if subdir == "" {
		for _, desc := range vol.descriptors() {
			if desc.Type() != TypeDeleted {
				result = append(result, desc.descriptor())
			}
		}
		return result, nil
	}

	sd, ok := vol.subdirsByName[subdir]
	if !ok {
		return nil, fmt.Errorf("subdirectory %q not found", subdir)
	}

	for _, desc := range sd.descriptors() {
		if desc.Type() != TypeDeleted {
			result = append(result, desc.descriptor())
		}
	}
	return result, nil
}
''','''	if subdir == "" {
		return listing(vol.descriptors()), nil
	}
	if sd, ok := vol.subdirsByName[subdir]; ok {
		return listing(sd.descriptors()), nil
	}
	return nil, fmt.Errorf("subdirectory %q not found", subdir)
}

func listing(fds []FileDescriptor) []types.Descriptor {
	result := make([]types.Descriptor, 0, len(fds))
	for i := range fds {
		if fds[i].Type() == TypeDeleted {
			continue
		}
		result = append(result, fds[i].descriptor())
	}
	return result
}
'''),
(P,'''	result := ""
	for i := len(names) - 1; i >= 0; i-- {
		if result == "" {
			result = names[i]
		} else {
			result += "/" + names[i]
		}
	}
	return result, nil
''','''	for i, j := 0, len(names)-1; i < j; i, j = i+1, j-1 {
		names[i], names[j] = names[j], names[i]
	}
	return strings.Join(names, "/"), nil
'''),
(P,'''	"os"
''','''	"os"
	"strings"
'''),
(P,'''	v.bitmap = &vbm
''','''	v.bitmap = &vbm
	mark := func(block, first uint16) {
		v.firstSubdirBlocks[block] = first
		if debug > 1 {
			fmt.Fprintf(os.Stderr, "  firstSubdirBlocks[%d] → %d\\n", block, first)
		}
	}
'''),
(P,'''		v.firstSubdirBlocks[block] = keyBlock
		if debug > 1 {
			fmt.Fprintf(os.Stderr, "  firstSubdirBlocks[%d] → %d\\n", block, keyBlock)
		}
''','''		mark(block, keyBlock)
'''),
(P,'''			v.firstSubdirBlocks[block.block] = sdd.KeyPointer
			if debug > 1 {
				fmt.Fprintf(os.Stderr, "  firstSubdirBlocks[%d] → %d\\n", block.block, sdd.KeyPointer)
			}
''','''			mark(block.block, sdd.KeyPointer)
'''),
# supermon
(N,'''	sm := SectorMap(make([]byte, 560))
	sector09, err := disk.ReadSector(diskbytes, 0, 9)
	if err != nil {
		return sm, err
	}
	sector0A, err := disk.ReadSector(diskbytes, 0, 0xA)
	if err != nil {
		return sm, err
	}
	sector0B, err := disk.ReadSector(diskbytes, 0, 0xB)
	if err != nil {
		return sm, err
	}
	copy(sm[0:0x30], sector09[0xd0:])
	copy(sm[0x30:0x130], sector0A)
	copy(sm[0x130:0x230], sector0B)
	return sm, nil
''','''	sm := make(SectorMap, 560)
	var raw []byte
	for sector := byte(9); sector <= 0xB; sector++ {
		data, err := disk.ReadSector(diskbytes, 0, sector)
		if err != nil {
			return sm, err
		}
		raw = append(raw, data...)
	}
	copy(sm, raw[0xd0:])
	return sm, nil
'''),
(N,'''	count := 0
	for _, file := range sm {
		if file == FileFree {
			count++
		}
	}
	return count
''','''	return bytes.Count(sm, []byte{FileFree})
'''),
(N,'''import (
''','''import (
	"bytes"
'''),
(N,'''		bytes, err := disk.ReadSector(diskbytes, ts.Track, ts.Sector)
		if err != nil {
			return nil, err
		}
		result = append(result, bytes...)
''','''		data, err := disk.ReadSector(diskbytes, ts.Track, ts.Sector)
		if err != nil {
			return nil, err
		}
		result = append(result, data...)
'''),
(N,'''	for track := byte(0); track < 35; track++ {
		for sector := byte(0); sector < 16; sector++ {
			if file == sm.FileForSector(track, sector) {
				result = append(result, disk.TrackSector{Track: track, Sector: sector})
			}
		}
	}
	return result
''','''	for i, owner := range sm[:560] {
		if owner == file {
			result = append(result, disk.TrackSector{Track: byte(i / 16), Sector: byte(i % 16)})
		}
	}
	return result
'''),
(N,'''	for file := byte(0x01); file < FileReserved; file++ {
		sectors := sm.SectorsForFile(file)
		if len(sectors) > 0 {
			result[file] = sectors
		}
	}
	return result
''','''	for i, file := range sm[:560] {
		if file > 0 && file < FileReserved {
			result[file] = append(result[file], disk.TrackSector{Track: byte(i / 16), Sector: byte(i % 16)})
		}
	}
	return result
'''),
(N,'''	i := 0
OUTER:
	for track := byte(0); track < disk.FloppyTracks; track++ {
		for sector := byte(0); sector < disk.FloppySectors; sector++ {
			if sm.FileForSector(track, sector) == FileFree {
				if err := disk.WriteSector(diskbytes, track, sector, cts[i*256:(i+1)*256]); err != nil {
					return existed, err
				}
				if err := sm.SetFileForSector(track, sector, file); err != nil {
					return existed, err
				}
				i++
				if i == sectorsNeeded {
					break OUTER
				}
			}
		}
	}
''','''	targets := sm.SectorsForFile(FileFree)[:sectorsNeeded]
	for i, ts := range targets {
		if err := sm.SetFileForSector(ts.Track, ts.Sector, file); err != nil {
			return existed, err
		}
		if err := disk.WriteSector(diskbytes, ts.Track, ts.Sector, cts[i*256:(i+1)*256]); err != nil {
			return existed, err
		}
	}
'''),
(N,'''	result := ""
	value := uint64(five[0]) + uint64(five[1])<<8 + uint64(five[2])<<16 + uint64(five[3])<<24 + uint64(five[4])<<32 + uint64(extra)<<40
	for value&0x1f > 0 {
		if value&0x1f < 27 {
			result += string(rune(value&0x1f + '@'))
			value >>= 5
			continue
		}
		if value&0x20 == 0 {
			result += string(rune((value & 0x1f) - 0x1b + '0'))
		} else {
			result += string(rune((value & 0x1f) - 0x1b + '5'))
		}
		value >>= 6
	}
	return result
''','''	value := uint64(extra)
	for i := 4; i >= 0; i-- {
		value = value<<8 | uint64(five[i])
	}
	var sb strings.Builder
	for {
		code := byte(value & 0x1f)
		switch {
		case code == 0:
			return sb.String()
		case code <= 26:
			sb.WriteByte('@' + code)
			value >>= 5
		default:
			digit := '0' + code - 0x1b
			if value&0x20 != 0 {
				digit += 5
			}
			sb.WriteByte(digit)
			value >>= 6
		}
	}
'''),
(N,'''	for _, symbol := range st {
		if strings.EqualFold(name, symbol.Name) {
			return symbol.Address
		}
	}
	return 0
''','''	for i := range st {
		if !strings.EqualFold(st[i].Name, name) {
			continue
		}
		return st[i].Address
	}
	return 0
'''),
]
