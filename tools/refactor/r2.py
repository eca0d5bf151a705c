EDITS=[
# put
("cmd/put.go",'''	if p.DiskImage == "-" {
		if p.SourceFilename == "-" {
			return fmt.Errorf("cannot get both disk image and file contents from stdin")
		}
	}
''','''	const stdin = "-"
	if p.DiskImage == stdin && p.DiskImage == p.SourceFilename {
		return fmt.Errorf("cannot get both disk image and file contents from stdin")
	}
'''),
("cmd/put.go",'''	contents, err := helpers.FileContentsOrStdIn(p.SourceFilename)
	if err != nil {
		return err
	}

	filetype, err := types.FiletypeForName(p.FiletypeName)
	if err != nil {
		return err
	}
	fileInfo := types.FileInfo{
		Descriptor: types.Descriptor{
			Name:   p.TargetFilename,
			Length: len(contents),
			Type:   filetype,
		},
		Data:         contents,
		StartAddress: p.Address,
	}
	_, err = op.PutFile(fileInfo, p.Overwrite)
	if err != nil {
		return err
	}

	return disk.WriteBack(p.DiskImage, op, order, true)
}
''','''	fileInfo, err := p.fileInfo()
	if err != nil {
		return err
	}
	if _, err := op.PutFile(*fileInfo, p.Overwrite); err != nil {
		return err
	}

	return disk.WriteBack(p.DiskImage, op, order, true)
}

// fileInfo collects what to put on the disk.
func (p *PutCmd) fileInfo() (*types.FileInfo, error) {
	contents, err := helpers.FileContentsOrStdIn(p.SourceFilename)
	if err != nil {
		return nil, err
	}
	var info types.FileInfo
	if info.Descriptor.Type, err = types.FiletypeForName(p.FiletypeName); err != nil {
		return nil, err
	}
	info.Descriptor.Name = p.TargetFilename
	info.Descriptor.Length = len(contents)
	info.Data = contents
	info.StartAddress = p.Address
	return &info, nil
}
'''),
# delete
("cmd/delete.go",'''	deleted, err := op.Delete(d.Filename)
	if err != nil {
		return err
	}
	if !deleted && !d.MissingOk {
		return fmt.Errorf("file %q not found (use -f to prevent this being an error)", d.Filename)
	}
	return disk.WriteBack''','''	switch deleted, err := op.Delete(d.Filename); {
	case err != nil:
		return err
	case deleted || d.MissingOk:
		// fine
	default:
		return fmt.Errorf("file %q not found (use -f to prevent this being an error)", d.Filename)
	}
	return disk.WriteBack'''),
# dump
("cmd/dump.go",'''	_, err = os.Stdout.Write(file.Data)
	if err != nil {
		return err
	}
	return nil
''','''	_, err = os.Stdout.Write(file.Data)
	return err
'''),
# catalog
("cmd/catalog.go",'''	if l.Directory != "" {
		if !op.HasSubdirs() {
			return fmt.Errorf("disks of type %q cannot have subdirectories", op.Name())
		}
	}
''','''	if len(l.Directory) > 0 && !op.HasSubdirs() {
		return fmt.Errorf("disks of type %q cannot have subdirectories", op.Name())
	}
'''),
("cmd/catalog.go",'''	for _, fd := range fds {
		if !l.ShortNames && fd.Fullname != "" {
			fmt.Println(fd.Fullname)
		} else {
			fmt.Println(fd.Name)
		}
	}
	return nil
}
''','''	for i := range fds {
		fmt.Println(l.display(&fds[i]))
	}
	return nil
}

// display is the name to list a file under.
func (l *LsCmd) display(fd *types.Descriptor) string {
	if l.ShortNames || fd.Fullname == "" {
		return fd.Name
	}
	return fd.Fullname
}
'''),
# reorder
("cmd/reorder.go",'''	frombytes, err := helpers.FileContentsOrStdIn(r.DiskImage)
	if err != nil {
		return err
	}
	fromOrder, ok := disk.LogicalToPhysicalByName[fromOrderName]
	if !ok {
		return fmt.Errorf("internal error: disk order '%s' not found", fromOrderName)
	}
	toOrder, ok := disk.PhysicalToLogicalByName[toOrderName]
	if !ok {
		return fmt.Errorf("internal error: disk order '%s' not found", toOrderName)
	}
	rawbytes, err := disk.Swizzle(frombytes, fromOrder)
	if err != nil {
		return err
	}
	tobytes, err := disk.Swizzle(rawbytes, toOrder)
	if err != nil {
		return err
	}

	overwrite := r.Overwrite
	filename := r.NewDiskImage
	if filename == "" {
		filename = r.DiskImage
		overwrite = true
	}
	return helpers.WriteOutput(filename, tobytes, overwrite)
}
''','''	steps := [][]int{}
	if fromOrder, ok := disk.LogicalToPhysicalByName[fromOrderName]; ok {
		steps = append(steps, fromOrder)
	} else {
		return fmt.Errorf("internal error: disk order '%s' not found", fromOrderName)
	}
	if toOrder, ok := disk.PhysicalToLogicalByName[toOrderName]; ok {
		steps = append(steps, toOrder)
	} else {
		return fmt.Errorf("internal error: disk order '%s' not found", toOrderName)
	}
	image, err := helpers.FileContentsOrStdIn(r.DiskImage)
	if err != nil {
		return err
	}
	for _, step := range steps {
		if image, err = disk.Swizzle(image, step); err != nil {
			return err
		}
	}
	if r.NewDiskImage == "" {
		return helpers.WriteOutput(r.DiskImage, image, true)
	}
	return helpers.WriteOutput(r.NewDiskImage, image, r.Overwrite)
}
'''),
("cmd/reorder.go",'''	if inOrder == "auto" && outOrder != "auto" {
		return oppositeOrder(outOrder), outOrder, nil
	}
	if outOrder == "auto" && inOrder != "auto" {
		return inOrder, oppositeOrder(inOrder), nil
	}
	if inOrder != outOrder {
		return inOrder, outOrder, nil
	}
	if inOrder != "auto" {
		return "", "", fmt.Errorf("identical order and new-order")
	}
''','''	switch {
	case inOrder == outOrder:
		if inOrder != "auto" {
			return "", "", fmt.Errorf("identical order and new-order")
		}
	case inOrder == "auto":
		return oppositeOrder(outOrder), outOrder, nil
	case outOrder == "auto":
		return inOrder, oppositeOrder(inOrder), nil
	default:
		return inOrder, outOrder, nil
	}
'''),
("cmd/reorder.go",'''	if order == types.DiskOrderDO {
		return types.DiskOrderPO
	}
	return types.DiskOrderDO
''','''	switch order {
	case types.DiskOrderDO:
		return types.DiskOrderPO
	}
	return types.DiskOrderDO
'''),
# sd
("cmd/sd.go",'''	if s.Start == 0xFFFF {
		s.Start = s.Address
	}

	contents, err := io.ReadAll(s.Binary)
	if err != nil {
		return err
	}
	if s.Address%256 != 0 {''','''	contents, err := io.ReadAll(s.Binary)
	if err != nil {
		return err
	}
	if s.Start == 0xFFFF {
		s.Start = s.Address
	}
	if s.Address&0xff != 0 {'''),
("cmd/sd.go",'''	sectors := (len(contents) + 255) / 256
''','''	sectors := len(contents) / 256
	if len(contents)%256 > 0 {
		sectors++
	}
'''),
("cmd/sd.go",'''	for len(contents)%256 != 0 {
		contents = append(contents, 0)
	}

	diskbytes''','''	padded := make([]byte, sectors*256)
	copy(padded, contents)

	diskbytes'''),
("cmd/sd.go",'''	var track, sector byte
	for i := 0; i < len(contents); i += 256 {
		sector += 2
		if sector >= disk.FloppySectors {
			sector = (disk.FloppySectors + 1) - sector
			if sector == 0 {
				track++
				if track >= disk.FloppyTracks {
					return fmt.Errorf("ran out of tracks")
				}
			}
		}

		address := int(s.Address) + i
		loader = append(loader, byte(address>>8))
		if err := disk.WriteSector(diskbytes, track, sector, contents[i:i+256]); err != nil {
			return err
		}
	}

	loader = append(loader, 0xC0)
	for len(loader) < 256 {
		loader = append(loader, 0)
	}

	if err := disk.WriteSector(diskbytes, 0, 0, loader); err != nil {
		return err
	}
''','''	page := byte(s.Address >> 8)
	var track, sector byte
	for n := 0; n < sectors; n++ {
		var ok bool
		if track, sector, ok = nextSector(track, sector); !ok {
			return fmt.Errorf("ran out of tracks")
		}
		if err := disk.WriteSector(diskbytes, track, sector, padded[n*256:][:256]); err != nil {
			return err
		}
		loader = append(loader, page+byte(n))
	}

	boot := make([]byte, 256)
	copy(boot, append(loader, 0xC0))
	if err := disk.WriteSector(diskbytes, 0, 0, boot); err != nil {
		return err
	}
'''),
("cmd/sd.go",'''	return helpers.WriteOutput(s.DiskImage, rawBytes, true)
}
''','''	return helpers.WriteOutput(s.DiskImage, rawBytes, true)
}

// nextSector is the sector the loader reads after the given one.
func nextSector(track, sector byte) (byte, byte, bool) {
	sector += 2
	switch {
	case sector == disk.FloppySectors:
		return track, 1, true
	case sector > disk.FloppySectors:
		return track + 1, 0, track+1 < disk.FloppyTracks
	}
	return track, sector, true
}
'''),
# nakedos
("cmd/nakedos.go",'''	toLoad := addr
	if addr == 0 {
		toLoad = symbolAddr
	}
''','''	toLoad := symbolAddr
	if addr != 0 {
		toLoad = addr
	}
	target, start := byte(m.Address>>8), m.Start
'''),
("cmd/nakedos.go",'''		0x2C, 0x00, byte(m.Address >> 8), // BIT ${target page}
		0xD8,                                    // CLD
		0x4C, byte(m.Start), byte(m.Start >> 8), // JMP ${target page}
	}
''','''		0x2C, 0x00, target, // BIT ${target page}
		0xD8, // CLD
		0x4C, // JMP ${target page}
	}
	contents = append(contents, byte(start&0xff), byte(start/256))
'''),
("cmd/nakedos.go",'''			Name:   fmt.Sprintf("DF01:%s", helloName),
''','''			Name:   "DF01:" + helloName,
'''),
("cmd/nakedos.go",'''	if op.Name() != "nakedos" {
		return fmt.Errorf("mkhello only works on disks of type %q; got %q", "nakedos", op.Name())
	}
''','''	if name := op.Name(); name != "nakedos" {
		return fmt.Errorf("mkhello only works on disks of type %q; got %q", "nakedos", name)
	}
'''),
# filetypes
("cmd/filetypes.go",'''	for _, typ := range types.FiletypeInfos(f.All) {
		fmt.Fprintf(w, "%s\\t%s\\t%s\\t%s\\n", typ.Desc, typ.Name, typ.ThreeLetter, typ.OneLetter)
	}
''','''	infos := types.FiletypeInfos(f.All)
	for i := range infos {
		typ := &infos[i]
		fmt.Fprintln(w, strings.Join([]string{typ.Desc, typ.Name, typ.ThreeLetter, typ.OneLetter}, "\\t"))
	}
'''),
("cmd/filetypes.go",'''	"os"
''','''	"os"
	"strings"
'''),
# applesoft
("cmd/applesoft.go",'''	if d.Raw {
		_, _ = os.Stdout.WriteString(listing.String())
	} else {
		_, _ = os.Stdout.WriteString(basic.ChevronControlCodes(listing.String()))
	}
''','''	text := listing.String()
	if !d.Raw {
		text = basic.ChevronControlCodes(text)
	}
	_, _ = os.Stdout.WriteString(text)
'''),
# helpers
("helpers/helpers.go",'''	if !force {
		if _, err := os.Stat(filename); !errors.Is(err, fs.ErrNotExist) {
			return fmt.Errorf("cannot overwrite file %q without --force (-f)", filename)
		}
	}
	return os.WriteFile(filename, contents, 0600)
}''','''	if !force && mayExist(filename) {
		return fmt.Errorf("cannot overwrite file %q without --force (-f)", filename)
	}
	return os.WriteFile(filename, contents, 0600)
}

// mayExist is false only if there is certainly no such file.
func mayExist(filename string) bool {
	_, err := os.Stat(filename)
	if err == nil {
		return true
	}
	return !errors.Is(err, fs.ErrNotExist)
}'''),
("helpers/helpers.go",'''	if s == "-" {
		return io.ReadAll(os.Stdin)
	}
	return os.ReadFile(s)
''','''	if s != "-" {
		return os.ReadFile(s)
	}
	return io.ReadAll(os.Stdin)
'''),
# basic
("basic/basic.go",'''		if s == "\\n" || s == "\\t" {
			return s
		}
		if s >= "\\x01" && s <= "\\x1a" {
			return "«ctrl-" + string('A'-1+s[0]) + "»"
		}
		code := "?"
		switch s[0] {
		case '\\x00':
			code = "NUL"
		case '\\x1C':
			code = "FS"
		case '\\x1D':
			code = "GS"
		case '\\x1E':
			code = "RS"
		case '\\x1F':
			code = "US"
		}

		return "«" + code + "»"
	})
}''','''		switch c := s[0]; {
		case c == '\\n', c == '\\t':
			return s
		case c == 0:
			return "«NUL»"
		case c <= 26:
			return "«ctrl-" + string(rune(c+'@')) + "»"
		default:
			if code, ok := separators[c]; ok {
				return "«" + code + "»"
			}
			return "«?»"
		}
	})
}

var separators = map[byte]string{0x1C: "FS", 0x1D: "GS", 0x1E: "RS", 0x1F: "US"}'''),
("basic/applesoft/applesoft.go",'''	var buf bytes.Buffer
	fmt.Fprintf(&buf, "%d ", l.Num)
	for _, char := range l.Bytes {
		if char < 0x80 {
			buf.WriteByte(char)
		} else {
			token := TokensByCode[char]
			buf.WriteString(" " + token + " ")
		}
	}
	return buf.String()
''','''	var sb strings.Builder
	sb.WriteString(strconv.Itoa(l.Num))
	sb.WriteByte(' ')
	for i := 0; i < len(l.Bytes); i++ {
		char := l.Bytes[i]
		if char&0x80 == 0 {
			sb.WriteByte(char)
			continue
		}
		fmt.Fprintf(&sb, " %s ", TokensByCode[char])
	}
	return sb.String()
'''),
("basic/applesoft/applesoft.go",'''	"fmt"
)''','''	"fmt"
	"strconv"
	"strings"
)'''),
("basic/applesoft/applesoft.go",'''	var buf bytes.Buffer
	for _, line := range l {
		buf.WriteString(line.String())
		buf.WriteByte('\\n')
	}
	return buf.String()
''','''	var buf bytes.Buffer
	for i := range l {
		buf.WriteString(l[i].String() + "\\n")
	}
	return buf.String()
'''),
# types
("types/filetype.go",'''	for _, info := range filetypeInfos {
		if info.Name == name || info.ThreeLetter == name || info.OneLetter == name {
			return info.Type, nil
		}
	}
	return 0, fmt.Errorf("unknown Filetype: %q", name)
''','''	for i := range filetypeInfos {
		info := &filetypeInfos[i]
		switch name {
		case info.Name, info.ThreeLetter, info.OneLetter:
			return info.Type, nil
		}
	}
	return 0, fmt.Errorf("unknown Filetype: %q", name)
'''),
("types/filetype.go",'''	var result []FiletypeInfo
	for _, info := range filetypeInfos {
		if !info.Extra {
			result = append(result, info)
		}
	}
	return result
''','''	result := make([]FiletypeInfo, 0, len(filetypeInfos))
	for _, info := range filetypeInfos {
		if info.Extra {
			continue
		}
		result = append(result, info)
	}
	return result
'''),
("types/filetype.go",'''	if info, found := filetypeInfosMap[f]; found {
		return info.Stringified
	}
	return fmt.Sprintf("Invalid/unknown filetype %02X", int(f))
''','''	info, found := filetypeInfosMap[f]
	if !found {
		return fmt.Sprintf("Invalid/unknown filetype %02X", int(f))
	}
	return info.Stringified
'''),
# disk
("disk/open.go",'''	logicalBytes := op.GetBytes()
	// If it's not floppy-sized, we don't swizzle at all.
	if len(logicalBytes) != FloppyDiskBytes {
		return helpers.WriteOutput(filename, logicalBytes, overwrite)
	}

	// Go from logical sectors for the operator back to physical sectors.
	physicalBytes, err := Swizzle(logicalBytes, LogicalToPhysicalByName[op.DiskOrder()])
	if err != nil {
		return err
	}

	// Go from physical sectors to the disk order (DO or PO)
	diskBytes, err := Swizzle(physicalBytes, PhysicalToLogicalByName[diskFileOrder])
	if err != nil {
		return err
	}

	return helpers.WriteOutput(filename, diskBytes, overwrite)
''','''	image := op.GetBytes()
	if len(image) == FloppyDiskBytes {
		// Go from logical sectors for the operator back to physical sectors,
		// and then to the disk order (DO or PO).
		for _, table := range [][]int{LogicalToPhysicalByName[op.DiskOrder()], PhysicalToLogicalByName[diskFileOrder]} {
			var err error
			image, err = Swizzle(image, table)
			if err != nil {
				return err
			}
		}
	}
	return helpers.WriteOutput(filename, image, overwrite)
'''),
("disk/open.go",'''	ext := strings.ToLower(path.Ext(filename))
	switch ext {
	case ".dsk", ".do":
		return types.DiskOrderDO
	case ".po":
		return types.DiskOrderPO
	default:
		return defaultOrder
	}
''','''	byExt := map[string]types.DiskOrder{
		".dsk": types.DiskOrderDO,
		".do":  types.DiskOrderDO,
		".po":  types.DiskOrderPO,
	}
	if order, ok := byExt[strings.ToLower(path.Ext(filename))]; ok {
		return order
	}
	return defaultOrder
'''),
("disk/open.go",'''	ext := strings.ToLower(path.Ext(filename))
	size := len(filebytes)
	if size == FloppyDiskBytes {
		return openDoOrPo(filebytes, order, system, ext, operatorFactories, debug)
	}
	if size == FloppyDiskBytes13Sector {
		return nil, "", fmt.Errorf("cannot open 13-sector disk images (yet)")
	}

	if ext == ".hdv" {
		return openHDV(filebytes, order, system, operatorFactories, debug)
	}
	return nil, "", fmt.Errorf("can only open disk-sized images and .hdv files")
''','''	ext := strings.ToLower(path.Ext(filename))
	switch len(filebytes) {
	case FloppyDiskBytes:
		return openDoOrPo(filebytes, order, system, ext, operatorFactories, debug)
	case FloppyDiskBytes13Sector:
		return nil, "", fmt.Errorf("cannot open 13-sector disk images (yet)")
	}
	if ext != ".hdv" {
		return nil, "", fmt.Errorf("can only open disk-sized images and .hdv files")
	}
	return openHDV(filebytes, order, system, operatorFactories, debug)
'''),
("disk/open.go",'''	for _, factory := range operatorFactories {
		if factory.Name() == "prodos" {
			op, err := factory.Operator(rawbytes, debug)
			if err != nil {
				return nil, "", err
			}
			return op, types.DiskOrderPO, nil
		}
	}
	return nil, "", fmt.Errorf("unable to find prodos module to open .hdv file") // Should not happen.
''','''	var prodos types.OperatorFactory
	for i := len(operatorFactories) - 1; i >= 0; i-- {
		if operatorFactories[i].Name() == "prodos" {
			prodos = operatorFactories[i]
		}
	}
	if prodos == nil {
		return nil, "", fmt.Errorf("unable to find prodos module to open .hdv file") // Should not happen.
	}
	op, err := prodos.Operator(rawbytes, debug)
	if err != nil {
		return nil, "", err
	}
	return op, types.DiskOrderPO, nil
'''),
("disk/open.go",'''	orders := []types.DiskOrder{order}
	switch order {
	case types.DiskOrderDO, types.DiskOrderPO:
		// nothing more
	case types.DiskOrderAuto:
		switch ext {
		case ".po":
			orders = []types.DiskOrder{types.DiskOrderPO}
		case ".do":
			orders = []types.DiskOrder{types.DiskOrderDO}
		case ".dsk", "":
			orders = []types.DiskOrder{types.DiskOrderDO, types.DiskOrderPO}
		default:
			return nil, "", fmt.Errorf("unknown disk image extension: %q", ext)
		}
	default:
		return nil, "", fmt.Errorf("disk order %q invalid for %d-byte disk images", order, FloppyDiskBytes)
	}
''','''	orders, err := possibleOrders(order, ext)
	if err != nil {
		return nil, "", err
	}
'''),
("disk/open.go",'''// Swizzle changes the sector ordering according''','''// possibleOrders lists the orders to try.
func possibleOrders(order types.DiskOrder, ext string) ([]types.DiskOrder, error) {
	if order == types.DiskOrderAuto {
		var orders []types.DiskOrder
		if ext == ".do" || ext == ".dsk" || ext == "" {
			orders = append(orders, types.DiskOrderDO)
		}
		if ext == ".po" || ext == ".dsk" || ext == "" {
			orders = append(orders, types.DiskOrderPO)
		}
		if orders == nil {
			return nil, fmt.Errorf("unknown disk image extension: %q", ext)
		}
		return orders, nil
	}
	if order != types.DiskOrderDO && order != types.DiskOrderPO {
		return nil, fmt.Errorf("disk order %q invalid for %d-byte disk images", order, FloppyDiskBytes)
	}
	return []types.DiskOrder{order}, nil
}

// Swizzle changes the sector ordering according'''),
("disk/open.go",'''	for track := 0; track < FloppyTracks; track++ {
		for sector := 0; sector < FloppySectors; sector++ {
			data, err := ReadSector(diskimage, byte(track), byte(sector))
			if err != nil {
				return nil, err
			}
			err = WriteSector(result, byte(track), byte(order[sector]), data)
			if err != nil {
				return nil, err
			}
		}
	}
	return result, nil
''','''	for i := 0; i < FloppyTracks*FloppySectors; i++ {
		from, to := i*256, (i/FloppySectors*FloppySectors+order[i%FloppySectors])*256
		copy(result[to:to+256], diskimage[from:from+256])
	}
	return result, nil
'''),
("disk/open.go",'''	seen := make(map[int]bool)
	for i, mapping := range order {
		if mapping < 0 || mapping > 15 {
			return fmt.Errorf("mapping %d:%d is not in [0,15]: %v", i, mapping, order)
		}
		if seen[mapping] {
			return fmt.Errorf("mapping %d:%d is a repeat: %v", i, mapping, order)
		}
		seen[mapping] = true
	}
	return nil
''','''	for i, mapping := range order {
		if mapping < 0 || mapping >= FloppySectors {
			return fmt.Errorf("mapping %d:%d is not in [0,15]: %v", i, mapping, order)
		}
		for _, earlier := range order[:i] {
			if earlier == mapping {
				return fmt.Errorf("mapping %d:%d is a repeat: %v", i, mapping, order)
			}
		}
	}
	return nil
'''),
]
