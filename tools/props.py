AI = "abstract interpretation of the go/ssa form"
BASE = " Assumes go/ssa translates the source faithfully and that the models of standard-library functions in analyzer/ai/ext.go are faithful."

prop("C01", "Sector-order tables are inverse permutations matching the Apple formats",
 "For every sector order the tool knows (DOS order, ProDOS order, raw), the logical-to-physical and physical-to-logical tables are permutations of the 16 sectors of a track and exact inverses of each other. The DOS-order and ProDOS-order tables are the documented Apple interleavings, the raw one is the identity, and both directions know exactly the same set of orders.",
 ["inputs", "configurations"], "every registered order name, every one of 16 sectors, both directions",
 "Tests check a couple of images whose contents do not exercise every order/sector pair, and no test looks at the tables as data.",
 ["disk/disk.go"], [("sector maps", "disk/disk.go: Dos33LogicalToPhysicalSectorMap, ProDOSLogicalToPhysicalSectorMap and the ByName maps")])
CLAIM["C01"] = (AI + ": package initialisers evaluated to constant tables, then compared with the documented interleavings",
 "Complete for the tables as initialised; also shows nothing in the repository writes to them after initialisation." + BASE)

prop("C02", "Reordering an image moves whole sectors exactly and loses nothing",
 "Changing the sector order of a floppy image puts each 256-byte sector, unaltered, at exactly the position given by the order tables, on its own track; the result has the same length and every input byte appears exactly once. An image of any other size, or an order that is not a permutation of 0-15, is refused and never yields data. The reorder command writes exactly that result, choosing the input and output orders from its flags and file names as documented.",
 ["inputs", "configurations"], "all image contents and lengths, all 16-entry orders, all order flags and file extensions",
 "The tests reorder two fixed images; a byte lost in one sector or one order pair, or a wrong acceptance of a malformed order, passes unnoticed.",
 ["disk/open.go", "cmd/reorder.go"], [("Swizzle", "disk/open.go: Swizzle, validateOrder"), ("order selection", "cmd/reorder.go: getOrders, oppositeOrder, Run")])
CLAIM["C02"] = (AI + ": byte-provenance dataflow through the copy loops, compared with the permutation required by the tables",
 "Holds for every image content (provenance is tracked per byte, contents stay unknown) and every order flag/extension class." + BASE)

prop("C23", "Sector and block I/O addresses exactly the requested bytes",
 "Reading a sector returns a private copy of exactly the 256 image bytes at track*4096+sector*256, writing one changes exactly those bytes and nothing else, and block reads and writes do the same for the 512 bytes at block*512. A position outside the image, or sector data that is not exactly 256 bytes, is refused with an error and leaves the image untouched. A decoded sector or block remembers the position it was read from, and encoding writes it back to the position it carries.",
 ["inputs"], "all track, sector and block numbers, all image lengths and contents, all data lengths",
 "Tests touch a few in-range sectors of two images; boundary positions, short images and aliasing of the returned buffer are never sampled.",
 ["disk/marshal.go"], [("ReadSector, WriteSector, UnmarshalLogicalSector, MarshalLogicalSector, UnmarshalBlock, MarshalBlock", "disk/marshal.go")])
CLAIM["C23"] = (AI + ": byte-provenance dataflow with linear index facts over unknown track, sector, block and length",
 "Holds for every position, image length and content; success and refusal are decided separately under the in-range and out-of-range hypotheses." + BASE)

prop("C08", "DOS 3.3 on-disk structures are encoded and decoded exactly",
 "The DOS 3.3 VTOC, catalog sectors (with their seven file entries) and track/sector list sectors decode each field from exactly its documented bytes and encode it to exactly those bytes. Decoding any 256-byte sector and encoding it again reproduces every byte, whatever the structure held before; data of another length is refused. The default VTOC has the documented contents: 35 tracks, 16 sectors, 256-byte sectors, 122 pairs, catalog at track 17 sector 15, all sectors free.",
 ["inputs"], "all sector contents, all structure contents, all input lengths",
 "The tests round-trip the sectors of one or two disks, where most fields are zero; a field dropped, shifted or truncated goes unnoticed.",
 ["dos3/dos3.go"], [("VTOC, CatalogSector, FileDesc, TrackSectorList", "dos3/dos3.go: ToSector, FromSector, ToBytes, FromBytes, DefaultVTOC")])
CLAIM["C08"] = (AI + ": byte-provenance dataflow through decoder and encoder, compared with the documented layout byte by byte",
 "Holds for every sector content and every prior structure content; both directions are compared with an independent table of the format." + BASE)

prop("C09", "ProDOS on-disk structures are encoded and decoded exactly",
 "ProDOS volume and subdirectory blocks (key and continuation, with headers, file descriptors and dates) decode each field from exactly its documented bytes, encode it to exactly those bytes, and decoding then encoding any 512-byte block reproduces every byte. In an index block entry i is the low byte at i plus 256 times the byte at 256+i, and setting it changes exactly those two bytes.",
 ["inputs"], "all block contents, all structure contents, all index entries",
 "The tests round-trip random structures through the same code in both directions, which cannot see a field at the wrong offset or an in-memory value that maps to the wrong bits.",
 ["prodos/prodos.go"], [("VolumeDirectoryKeyBlock, VolumeDirectoryBlock, SubdirectoryKeyBlock, SubdirectoryBlock, FileDescriptor, IndexBlock", "prodos/prodos.go")])
CLAIM["C09"] = (AI + ": byte- and bit-provenance dataflow through decoder and encoder, compared with the documented layout",
 "Holds for every block content and every prior structure content; both directions are compared with an independent table of the format." + BASE)

prop("C22", "Free-space bitmaps answer for exactly the right sector or block",
 "In a DOS 3.3 free map, sectors 0-7 are bits 0-7 of the second byte of the track's four and sectors 8-15 bits 0-7 of the first; any higher sector number is never free. In a ProDOS volume bitmap, block 8q+k is bit 7-k of byte q: marking a block used or unused changes the answer for that block and for no other, a new bitmap has every existing block free and every later bit zero, with exactly as many consecutively numbered parts as needed, and writing it puts it at its blocks and touches nothing else, failing if the device has no room.",
 ["inputs", "histories"], "all bitmap contents, all block pairs, all sector numbers; new bitmaps for several device sizes incl. both boundaries",
 "Tests mark a few blocks of one bitmap; an off-by-one at a byte or block boundary, or a mark leaking to a neighbour, is not sampled.",
 ["dos3/dos3.go", "prodos/prodos.go"], [("TrackFreeSectors.IsFree", "dos3/dos3.go"), ("VolumeBitMap: MarkUsed, MarkUnused, IsFree, NewVolumeBitMap, Write", "prodos/prodos.go")])
CLAIM["C22"] = (AI + ": bit-level dataflow over an unknown bitmap with two unknown block numbers, by case split on their relative position",
 "Marking and asking hold for every bitmap of 16 parts and every pair of blocks; construction and writing are decided for five device sizes." + BASE)

WORLD = " Disk systems are stand-ins that may answer anything, so the result does not depend on the particular file system."

prop("C21", "Opening an image picks the right order and system, or refuses",
 "Opening a 140K image tries exactly the sector orders that the order setting allows (or, for auto, the extension: .po, .do, or DOS order before ProDOS order for .dsk and none) and the systems the system setting allows, in registration order, and returns the first that recognises and opens the image together with the order used. Each system is handed the image with every sector moved to the place its own order requires. A 13-sector image, any other size, an unknown order, extension or system is refused; a .hdv image is opened, unchanged, only as ProDOS, in ProDOS order, and only if it is a whole number of at most 65536 blocks.",
 ["inputs", "configurations", "histories"], "all image contents and sizes, all order/system settings and extensions, every combination of the systems' answers",
 "Tests open three fixed images; a wrong candidate order, a system given misordered sectors or a size accepted by mistake shows only for other combinations.",
 ["disk/open.go"], [("OpenImage", "disk/open.go: OpenImage, openHDV, openDoOrPo, OpenFilename, OpenFile")])
CLAIM["C21"] = (AI + ": path-sensitive run of the open logic against stand-in systems, comparing each call and result with an independent decision table",
 "Every combination of two systems' answers is a path; image contents and lengths are unknown." + WORLD + BASE)

prop("C03", "Saving an image keeps the file's own sector order",
 "When a changed image is saved, each sector goes back to exactly the place in the file that belongs to it in the sector order the file was opened with, so that bytes the disk system did not change are not changed in the file, and the ones it changed are found again when the file is reopened. The file keeps its size, and it is the opened file that is written; an image that is not floppy-sized is written as it is.",
 ["inputs", "configurations", "histories"], "all image contents, every pair of system order and file order, every changing command",
 "Tests save only images whose file order equals what the system wants; the other pairs are never written back.",
 ["disk/open.go", "cmd/put.go", "cmd/delete.go", "cmd/nakedos.go"], [("WriteBack", "disk/open.go: WriteBack"), ("commands", "cmd: PutCmd, DeleteCmd, MkHelloCmd Run")])
CLAIM["C03"] = (AI + ": byte-provenance dataflow from the opened file through a stand-in system to the bytes written",
 "All contents; every order pair; both changed and unchanged images." + WORLD + BASE)

prop("C04", "Only the file the user named is written, and not overwritten silently",
 "A command writes to nothing but the file the user designated, or standard output where the name is \"-\"; ls, dump, decode and filetypes write no file at all. A file that was not opened for change is overwritten only with the overwrite flag: otherwise an existing target is refused and left alone.",
 ["inputs", "configurations", "fault_sequences"], "all arguments, flags and outcomes of every file operation",
 "The script tests run a few successful commands; a write to another file or past a failed existence check needs arguments and failures they never use.",
 ["helpers/helpers.go", "cmd", "disk/open.go"], [("WriteOutput", "helpers/helpers.go"), ("command Run methods", "cmd/*.go")])
CLAIM["C04"] = (AI + ": effect analysis over every path of every command, with all outcomes of file operations",
 "Every path of every command's Run with unknown arguments; writes are compared with the designated target. mksd and the changing commands designate the image for overwriting." + WORLD + BASE)

prop("C05", "A failed change leaves the image file untouched",
 "If put, rm, mkhello, reorder or mksd fails for any reason other than the write itself, nothing has been written. If it succeeds, it has written a whole image exactly once, as the last thing it did.",
 ["inputs", "fault_sequences"], "all arguments, every failing operation at every point",
 "The tests do not make operations fail half-way; a command that saves before its last check passes all of them.",
 ["cmd", "disk/open.go"], [("changing commands", "cmd: PutCmd, DeleteCmd, MkHelloCmd, ReorderCmd, SDCmd Run"), ("WriteBack", "disk/open.go")])
CLAIM["C05"] = (AI + ": effect-order analysis over every path with each fallible operation failing and succeeding",
 "Every path of the changing commands. Atomicity of the host's own write call is out of reach." + WORLD + BASE)

prop("C07", "Every failure is reported and gives a non-zero exit status",
 "Whenever an operation a command depends on fails (opening, reading, closing or writing a file, opening the image, cataloguing, getting, putting, deleting, decoding), the command returns an error; the program then prints it to standard error and exits with status 1, and it exits with status 0 only if the command succeeded.",
 ["inputs", "fault_sequences"], "every command, every fallible operation failing, all arguments",
 "Tests hardly provoke failures; a dropped error return compiles and passes.",
 ["cmd", "main.go", "helpers/helpers.go", "disk/open.go"], [("command Run methods", "cmd/*.go"), ("main", "main.go")])
CLAIM["C07"] = (AI + ": path-sensitive error-propagation analysis, each fallible operation forked into success and failure",
 "Every path of every command. Errors from printing listings to standard output are exempt (best effort)." + WORLD + BASE)

prop("C20", "mksd writes a correct Standard Delivery boot image",
 "mksd writes a 140K image whose boot sector is the Standard Delivery loader with the requested start address and the table of destination pages ended by $C0, whose following sectors, in Standard Delivery order, hold the program unaltered and zero-padded, and whose other sectors are zero, in the sector order asked for or implied by the file name. A load address not on a page, a start outside the program, a program past $BFFF or longer than the page table allows is refused and nothing is written.",
 ["inputs", "configurations"], "all program contents, all page-aligned load addresses and starts, lengths at and around every boundary, all orders",
 "No test runs mksd; a wrong sector or page number shows only for programs of particular lengths.",
 ["cmd/sd.go"], [("SDCmd.Run", "cmd/sd.go")])
CLAIM["C20"] = (AI + ": byte-provenance dataflow from program and flags into the image, compared with the Standard Delivery layout",
 "All contents, load and start addresses; nine program lengths covering each boundary." + BASE)

prop("C25", "nakedos mkhello stores exactly the requested hello program",
 "mkhello replaces file DF01:FHELLO by a 16-byte binary: the fixed NakedOS load sequence with the number of the file the user named, the page of the load address, and a jump to the start address (the load address by default). A load address not on a page, a start below it, a disk that is not NakedOS or a name that cannot be resolved is refused and nothing is written.",
 ["inputs"], "all load and start addresses, names given as number or with a new name, every image content",
 "One scripted run exists at most; other addresses and refusals are never sampled.",
 ["cmd/nakedos.go"], [("MkHelloCmd.Run", "cmd/nakedos.go")])
CLAIM["C25"] = (AI + ": dataflow from the flags into the bytes handed to a stand-in disk system",
 "All addresses; five file numbers." + WORLD + BASE)

prop("C27", "Commands ask the disk system for exactly what the user asked for",
 "put hands the disk system exactly the named file's whole contents with the given name, type, address and overwrite flag, once; an unknown type, or image and data both from standard input, is refused. rm deletes exactly the named file, and a missing file is an error unless -f was given; dump prints exactly the bytes the system returned; ls prints exactly the catalog the system returned, of the directory asked for, with full names unless short ones are requested, and refuses a directory on a system without them.",
 ["inputs", "configurations"], "all names, contents, addresses and flags, every answer of the disk system",
 "The scripts run a few combinations of flags; a mixed-up argument or a truncated output needs others.",
 ["cmd/put.go", "cmd/delete.go", "cmd/dump.go", "cmd/catalog.go"], [("Run methods", "cmd: PutCmd, DeleteCmd, DumpCmd, LsCmd")])
CLAIM["C27"] = (AI + ": argument-provenance dataflow from flags to the disk-system call and from its answer to standard output",
 "All names, contents and addresses; flags enumerated." + WORLD + BASE)

prop("C26", "Disk-structure validation accepts good structures and reports bad ones",
 "A DOS 3.3 VTOC is accepted exactly if it is for DOS release 3, has a volume other than 255, 122 pairs per list, direction +1 or -1, 35 tracks, 13 or 16 sectors of 256 bytes, and zeros in the two unused bytes of every track's free map. A ProDOS directory block is reported as bad exactly if a creation or modification time of any entry or of its header has an hour above 23 or a minute above 59, its trailing byte is not zero, a key block's previous-block pointer is not zero, or a subdirectory header lacks its $75 marker.",
 ["inputs"], "all sector and block contents; each constraint violated alone with every other byte arbitrary within its limits",
 "Tests validate the structures of a couple of good disks; a constraint dropped, loosened or checked for only some entries is not noticed.",
 ["dos3/dos3.go", "prodos/prodos.go"], [("VTOC.Validate", "dos3/dos3.go"), ("Validate methods of directory blocks, headers, descriptors and dates", "prodos/prodos.go")])
CLAIM["C26"] = (AI + ": range analysis of decode-then-validate with every constrained byte inside, then one outside, its allowed range",
 "Acceptance holds for every well-formed block; rejection for every single violated constraint." + BASE)

prop("C18", "File-type names and codes agree everywhere",
 "Every file type has the documented code, full name, three-letter and one-letter name; each code from $00 to $FF but $F9 is known exactly once. Looking up a full name, a three-letter name or a one-letter name gives the documented type, any other text (also empty or in another case) is refused, and every name shown when a type is printed selects that type. The default list holds exactly the types not marked as extra, the full list all of them, and the filetypes command prints the one asked for, one type per line.",
 ["inputs", "configurations"], "all registered types and names, a set of near-miss names, both lists",
 "No test reads the registry; a wrong code or a shadowed name only shows when that type is used.",
 ["types/filetype.go", "cmd/filetypes.go"], [("registry and lookup", "types/filetype.go: FiletypeForName, FiletypeInfos, Filetype.String"), ("FiletypesCmd.Run", "cmd/filetypes.go")])
CLAIM["C18"] = (AI + ": package initialisers evaluated to the constant registry; lookup and printing interpreted per entry and compared with an independent table",
 "Complete for the registry; refusal is decided for twelve near-miss names." + BASE)

prop("C17", "BASIC programs are decoded and listed faithfully",
 "Decoding an Applesoft or Integer BASIC program, with or without its length header, yields exactly its lines in order, with their numbers and bytes, or an error if it is truncated, malformed or (Applesoft) has an unknown token or a link that leaves the program or loops; listing prints number, text and the documented keyword of each token, in order, one line each. Control characters other than newline and tab are shown as «...» codes and every other character is left alone; the decode command prints that listing, unescaped with --raw, for the load address given.",
 ["inputs"], "all line numbers and text bytes for programs of up to four lines; every token; every character; all short sequences of character classes",
 "Two sample programs are listed by the tests; most tokens, malformed input and most character sequences never occur in them.",
 ["basic/applesoft/applesoft.go", "basic/integer/integer.go", "basic/basic.go", "cmd/applesoft.go"],
 [("Decode, Line.String, Listing.String, TokensByCode", "basic/applesoft/applesoft.go, basic/integer/integer.go"), ("ChevronControlCodes", "basic/basic.go, basic/integer/integer.go"), ("DecodeCmd.Run", "cmd/applesoft.go")])
CLAIM["C17"] = (AI + ": provenance of unknown line numbers and text bytes through decoder and printer; token tables compared with the documented ones",
 "Contents are unknown; program shapes (number and length of lines) are enumerated up to four lines." + BASE)

prop("C19", "The command line offers what the program can do and passes it on",
 "Each documented command, alias, argument and flag exists with its documented default and runs its own implementation with the debug level and the registered systems DOS 3.3, NakedOS and ProDOS, in this order. Every sector order and system the command line offers is one the program knows, the default included, and a system's factory and operators report the same name and sector order. An address is accepted exactly if it is a 16-bit number, decimal or with a 0x, 0o or 0b prefix, and handed on unchanged.",
 ["inputs", "configurations"], "every command, flag and choice; every registered system; boundary and malformed addresses",
 "No test parses a command line; a mistyped tag or choice compiles.",
 ["main.go", "cmd"], [("command-line structure", "main.go: cli, run; kong tags in cmd/*.go"), ("address parser", "main.go: hexUint16Mapper"), ("Name, DiskOrder", "dos3, supermon, prodos")])
CLAIM["C19"] = (AI + ": interpretation of main up to the parser plus inspection of the type-checked command structures and their tags",
 "Complete for the command-line structure; the third-party parser itself is trusted to follow its tags." + BASE)

prop("C10", "The NakedOS sector map is read, updated and stored exactly",
 "Loading a sector map takes exactly the 560 bytes at track 0 sector 9 offset $D0 and persisting one stores exactly them and changes no other byte; only sector owners that are valid (the first twelve sectors reserved, no unknown owner 0) are accepted when an image is opened. Looking up or setting the owner of a sector touches exactly that sector and refuses a track, sector or file number out of range. The sectors of a file, in ascending order, the count of free sectors and a file's contents are exactly those that the map gives.",
 ["inputs", "states"], "all image contents, all tracks, sectors and file numbers, every sector in every owner class",
 "Tests look at one example disk; an entry off by one, a dropped last sector or a stray byte written only shows for others.",
 ["supermon/supermon.go"], [("SectorMap methods and LoadSectorMap", "supermon/supermon.go")])
CLAIM["C10"] = (AI + ": content dataflow of image bytes through load, update and persist; sets of sectors compared for every owner class",
 "Image bytes, owners within their class, tracks, sectors and file numbers are unknown." + BASE)

prop("C11", "Writing or deleting a NakedOS file harms nothing else",
 "After a successful write the file's sectors hold exactly its contents, zero-padded, every sector it uses was free or its own, sectors it gave up are free, and every other sector, map entry and symbol is what it was, both in memory and in the image, so that reopening the image reads the new contents back. Deleting a file frees exactly its sectors and keeps everything else. A write that does not fit, is not allowed to overwrite, has an invalid name, type or load address, or a delete of something that does not exist is refused and leaves image and map as they were.",
 ["inputs", "states", "histories"], "all contents and lengths, all file numbers, sector maps with every sector in every owner class, with and without symbols",
 "One script puts one file on one disk; overlap, loss of a neighbour, a full disk or a shrinking file need other maps.",
 ["supermon/supermon.go"], [("SectorMap.WriteFile, Delete", "supermon/supermon.go"), ("operator.PutFile, Delete", "supermon/supermon.go")])
CLAIM["C11"] = (AI + ": ownership analysis of sectors: every sector of the image and every map entry after the operation is compared with the outcomes allowed",
 "Contents, lengths within a sector count, file numbers and owners within their class are unknown; sector maps come from a covering set of patterns." + BASE)

prop("C24", "Super-Mon symbol tables are encoded and decoded exactly",
 "Each symbol is stored in the documented five-bit/six-bit encoding with its address and chain link in files 3 and 4, and reading a table gives back exactly the names (in upper case), addresses and links that are stored. A name of fewer than three or more than nine characters, of more than 48 bits, or with other characters than letters and digits is refused and leaves the disk unchanged. A table with a link outside the table or of the wrong size is refused on reading.",
 ["inputs", "states"], "all letters, digits and addresses for every short name shape and a covering set of longer ones; malformed names and tables",
 "Tests encode and decode a handful of names; a wrong shift or range shows for particular letters or lengths only.",
 ["supermon/supermon.go"], [("ReadSymbolTable, WriteSymbolTable, encode/decode", "supermon/supermon.go")])
CLAIM["C24"] = (AI + ": bit-level linear forms of the stored bytes over unknown characters compared with the documented encoding",
 "Characters are unknown within their class, name shapes enumerated." + BASE)

prop("C28", "NakedOS file names and symbols resolve as documented",
 "A file is named by DFxx or xx (hex, either case, 01 to FD) or by a symbol whose address is DFxx; anything else is not found. Compound names give a number and a symbol, compound symbols an address and a symbol, in the documented forms only. The catalog lists exactly the files that own sectors, in number order, with their sector counts and names, the symbol's where there is one, and retrieving a file gives its number, name and exactly its sectors' contents.",
 ["inputs", "states"], "all file numbers and spellings, symbol tables of unknown addresses, compound forms, unknown file contents",
 "Tests resolve half a dozen names; a number confused with a symbol or an off-by-one limit needs others.",
 ["supermon/supermon.go"], [("SymbolTable.FileForName, NameForFile, ParseCompoundSymbol, FilesForCompoundName", "supermon/supermon.go"), ("operator.Catalog, GetFile", "supermon/supermon.go")])
CLAIM["C28"] = (AI + ": name resolution interpreted for every spelling; listing and retrieval followed to the owned sectors of an otherwise unknown image",
 "File numbers and spellings are enumerated; addresses and contents are unknown." + BASE)

prop("C06", "Looking at an image never changes it",
 "Recognising, opening, cataloguing and reading files of any disk system, on an image of any size and contents and with any name, leaves every byte of the image and all program-wide state as it was, and writes nothing to the host. The image an opened disk hands out for saving is exactly the one that was opened. Operations a system does not support fail and change nothing.",
 ["inputs", "states"], "all image sizes and contents, all names and directories, every disk system",
 "Tests open a few images; a buffer reused as scratch space or state left behind by a malformed image shows only for others.",
 ["dos3/dos3.go", "prodos/prodos.go", "supermon/supermon.go"], [("OperatorFactory.SeemsToMatch, Operator; operator.Catalog, GetFile, GetBytes, PutFile, Delete", "dos3, prodos, supermon")])
CLAIM["C06"] = (AI + ": effect analysis: no store through any pointer that may reach the image, a package variable or the host",
 "Images of any size and contents; NakedOS disks are opened with one known sector map and symbol table, contents unknown." + BASE)

prop("C14", "The DOS 3.3 catalog lists exactly the files on the disk",
 "The catalog's files are exactly the entries in use, and its deleted files exactly the deleted ones, of all sectors of the catalog chain, in order, each with the bytes stored. The listing shows each file's name without its trailing blanks, its type, locked flag and sector count as stored. A disk whose catalog chain loops or leaves the disk, or whose VTOC is invalid or missing, is refused by listing, retrieval and recognition; one with a readable catalog is recognised.",
 ["inputs", "states"], "all bytes of the image, catalogs of 1 to 48 sectors in several places, every slot in every class, all characters and counts",
 "Tests list two sample disks; a skipped slot, a lost sector of the chain or a mistaken class needs another disk.",
 ["dos3/dos3.go"], [("ReadCatalog, operator.Catalog, OperatorFactory.SeemsToMatch", "dos3/dos3.go"), ("FileDesc.Status, FilenameString", "dos3/dos3.go")])
CLAIM["C14"] = (AI + ": provenance of catalog entries from image bytes through the chain to the listing; refusal proved for every looping or escaping chain shape",
 "Image bytes are unknown except for the chain and the class of each entry, which are enumerated in a covering set." + BASE)

prop("C15", "ProDOS directories list exactly the files they hold",
 "The listing of a volume or subdirectory is exactly its entries that are not deleted, of all blocks of the directory, in order, with name, type, block count and length as stored; a subdirectory is found by its path from the volume and any other path is refused. A device is recognised exactly if its directories can be read. Directories that loop or leave the device, are entered twice, or have an unknown or circular parent, and devices that are too short, are refused.",
 ["inputs", "states"], "all bytes of the device, several shapes of directory chains and trees up to six levels, every slot in every class, every name length",
 "One test reads one directory; lost blocks, wrong nesting or loops need other devices.",
 ["prodos/prodos.go"], [("operator.Catalog, OperatorFactory.SeemsToMatch", "prodos/prodos.go")])
CLAIM["C15"] = (AI + ": provenance of directory entries from device bytes through chains and tree to the listing; refusal proved for every looping or escaping shape",
 "Device bytes are unknown except for the chains, the tree and the class of each entry, which are enumerated in a covering set." + BASE)

prop("C16", "Retrieving a DOS 3.3 file gives exactly its data, or an error",
 "A file's contents are the sectors in its track/sector lists, in order, over all its lists, with a sector of zeros for each hole, up to the last sector listed; text files lose their trailing zeros, BASIC and binary files are cut to the length stored in them, and the load address is the stored one ($801 for Applesoft). The name, type, locked flag, sector count and length reported are the file's own, and the first file in use of exactly that name is taken. A file that does not exist or is deleted, lists that loop, sectors beyond the disk, a stored length beyond the data and file types without support are refused.",
 ["inputs", "states"], "all file contents, addresses and lengths; lists of 0 to 122 sectors with holes, one to four lists per file, every type, locked or not",
 "Tests read a couple of small files from one disk; holes, second lists, lengths near the limit and damaged lists do not occur there.",
 ["dos3/dos3.go"], [("FileDesc.Contents, operator.GetFile", "dos3/dos3.go")])
CLAIM["C16"] = (AI + ": content dataflow from image sectors to the returned data with unknown stored lengths",
 "Contents, addresses and lengths are unknown; the shapes of track/sector lists are enumerated in a covering set." + BASE)

prop("C29", "Symbol changes keep all other symbols and whole hash chains",
 "Adding a symbol to a Super-Mon symbol table gives it its address, replacing the address of an existing symbol of that name (in either case) rather than entering it twice; deleting one frees its slot. Every other symbol keeps its name and address, and the symbols whose addresses have the same hash stay linked in exactly one chain, so that after any sequence of changes every symbol can still be found. The address 0, a full table or a name that is missing changes nothing and is reported.",
 ["inputs", "states", "histories"], "every arrangement of tables of up to five entries, every order of their chains, every kind of change",
 "The test makes one sequence of a few changes; a broken or merged chain needs a deletion in the middle of one or a symbol moving between two.",
 ["supermon/supermon.go"], [("SymbolTable.AddSymbol, DeleteSymbol", "supermon/supermon.go")])
CLAIM["C29"] = (AI + ": the table after one change from every arrangement and chaining is compared with an inductive invariant",
 "One step from every valid table of up to five entries, which covers every relation between the slots that one change touches; longer tables are assumed to behave alike." + BASE)

prop("C12", "No image or program, however damaged, crashes the tool",
 "Whatever the length and bytes of a disk image, the tool can try to recognise it as any disk system, open it, list it and retrieve, add or delete any file of any name without crashing: every operation ends with a result or an error. The same holds for decoding any bytes as an Applesoft or Integer BASIC program and printing the listing.",
 ["inputs", "states"], "all image and program lengths and bytes, all names, flags and file contents, every disk system",
 "Tests feed well-formed samples; an index taken from the image that is out of range needs a damaged one.",
 ["dos3/dos3.go", "prodos/prodos.go", "supermon/supermon.go", "basic/applesoft/applesoft.go", "basic/integer/integer.go"],
 [("OperatorFactory.SeemsToMatch, Operator and all operator methods", "dos3, prodos, supermon"), ("Decode, Listing.String", "basic/applesoft, basic/integer")])
CLAIM["C12"] = (AI + ": every index, slice, division, assertion and allocation is an obligation discharged from path conditions and loop facts",
 "Proved for every such operation on the current tree except nil pointers kept in slices and maps; an operation that is neither proved nor known to fail is printed as UNDECIDED, not as a violation." + BASE)

prop("C13", "No image or program, however damaged, makes the tool run forever",
 "Recognising, opening and listing a disk image of any length and contents, retrieving, adding or deleting files on it, and decoding and printing any bytes as a BASIC program all come to an end. In particular links that form a ring - in a catalog, a track/sector list, a directory or a program - are noticed, and the operation ends with a result or an error.",
 ["inputs", "states"], "all image and program lengths and bytes, all names, flags and file contents, every disk system",
 "Tests feed well-formed samples; a loop that does not end needs links that form a ring.",
 ["dos3/dos3.go", "prodos/prodos.go", "supermon/supermon.go", "basic/applesoft/applesoft.go", "basic/integer/integer.go"],
 [("readCatalogSectors, FileDesc.Contents", "dos3/dos3.go"), ("readDirectory, readSubdirectory, readVolume", "prodos/prodos.go"), ("Decode", "basic/applesoft, basic/integer")])
CLAIM["C13"] = (AI + ": every reachable loop gets a ranking argument (a bounded quantity that moves towards its bound on every way round)",
 "Proved for every loop reached from the disk systems and BASIC decoders on the current tree; loops inside the standard library are trusted." + BASE)
