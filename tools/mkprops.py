#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (one place to edit the statements)."""
import json
P=[]
def p(id,title,statement,over,text,why,files,mech,observe,hook=False,state=None):
    a={"files":files,"mechanism":[{"name":n,"where":w} for n,w in mech],"observe_at":[observe],"hook_needed":None}
    if state: a["state"]=[{"name":n,"meaning":m} for n,m in state]
    P.append({"id":id,"title":title,"statement":statement,"quantifier":{"over":over,"text":text},"why_tests_cant":why,"anchors":a})

CW="netcdf/cdf/cdfwriter.go"; CR="netcdf/cdf/cdf.go"; H="netcdf/hdf5/hdf5.go"; HW="netcdf/hdf5/hdf5writer.go"; WU="netcdf/hdf5/writer_utils.go"
p("C01","CDF write then read returns what was written",
  "Whatever sequence of variables and attributes the CDF writer accepts and closes without error, opening the resulting file gives back exactly the same variables in the same order, with the same dimension names and lengths, the same element values (strings padded with NULs up to the dimension length), and the same global and variable attributes in the same order with the same values. One-element attribute slices come back as the scalar.",
  ["inputs","programs"],"every sequence of AddVar/AddAttributes calls with every supported element type, rank, shape, name and attribute value",
  "The tests write a fixed list of small variables; the offsets, padding and lengths depend on the whole combination of names, types, shapes and attributes.",
  [CW,CR],[("name, number and padding encoders",CW+": writeName, writeNumber, pad"),("attribute encoder/decoder",CW+": writeAttributes; "+CR+": getAttr, getAttrList"),("variable header and data",CW+": writeVar, writeData, store*; "+CR+": getVar, getVarCommon, convert"),("dimension bookkeeping",CW+": AddVar, getDimLengths")],
  "netcdf.OpenWriter / netcdf.Open public API")
p("C02","Every written CDF file is a well-formed classic netCDF file",
  "A file the CDF writer closes without error follows the published classic format byte for byte: magic and version, tagged and counted lists, zero padding of names and attribute values to 4 bytes, each variable's size field equal to its element count times element size rounded up to 4, and each variable's begin offset equal to the file position where its data actually starts. Version 5 is used exactly when some variable or attribute has one of the unsigned or 64-bit types, otherwise version 2.",
  ["inputs","programs"],"every accepted sequence of AddVar/AddAttributes calls",
  "A round trip through the same library hides agreeing mistakes in writer and reader, and the begin offsets are computed from a size prediction that must agree with what is written later for every input.",
  [CW],[("size prediction",CW+": computeAttributeSize, computeVarSize"),("actual emission",CW+": writeAll, writeVar, writeAttributes, writeName, pad, countedWriter.Write"),("version selection",CW+": checkV5Attributes, scalarKind, writeAll")],
  "bytes of the file after Close, decoded by an independent parser")
p("C03","Reading a classic netCDF file yields what the format says is stored",
  "For every well-formed classic file (versions 1, 2 and 5, fixed-size and record variables in any mixture, including the single-record-variable packing rule), each variable's values, type, dimensions and attributes are exactly those the format specification assigns to the bytes of the file. Record r of a record variable is taken from begin + r * record size, and no padding byte is ever returned as data.",
  ["inputs"],"every well-formed CDF-1/2/5 byte string, any number of records, variables and dimensions",
  "The tests use files made by ncgen for a few layouts; record interleaving and padding depend on arbitrary mixtures of types, shapes and record counts.",
  [CR],[("header decoding",CR+": readHeader, getNElems, getDim, getVar, readName, readNumber, getAttr"),("record placement",CR+": newRecordReader, seekReader, getVarCommon"),("shape reconstruction",CR+": convert, emptySlice")],
  "netcdf.Open on independently encoded files")
p("C04","A CDF slice equals the corresponding part of the whole variable",
  "For a CDF variable and any begin <= end within its length, GetSlice(begin, end) equals elements begin..end of the full value, GetSliceMD with in-range bounds equals the rectangular sub-block, and Values and GetVariable agree with the full slice; this holds for fixed-size and record variables alike. Bounds outside the variable, or with begin > end, are answered with an error.",
  ["inputs","histories"],"every variable, every pair of bounds (per dimension for MD), every order of earlier calls",
  "Only a few slices of two small files are tested; byte offsets depend on type, rank, record size and begin together.",
  [CR,"internal/slicer.go"],[("byte-range computation",CR+": getVarCommon getSlice/getSliceMD, newRecordReader"),("in-memory sub-block",  "internal/slicer.go: SliceMD, sliceRecursive")],
  "VarGetter.GetSlice, GetSliceMD, Values")
p("C05","Missing data is read as the fill value, whole elements at a time",
  "When the stored data of a variable ends early (classic file cut short in the data area, or HDF5 storage that was never written), the remaining elements are the variable's _FillValue attribute or fill-value message if present and the netCDF default for its type otherwise. The result does not depend on how the data is chunked into reads, and no stored element is altered.",
  ["inputs","schedules"],"every type, every user or default fill value, every truncation point on an element boundary, every partition of the read into buffers",
  "Tests check one or two truncated files; the fill reader keeps a phase across reads whose correctness depends on the sequence of buffer sizes.",
  ["internal/fillvalue.go",CR,H,"netcdf/hdf5/types.go"],[("repeating reader","internal/fillvalue.go: FillValueReader.Read"),("value selection",CR+": makeFillValueReader; netcdf/hdf5/types.go: defaultFillValue; "+H+": readFillValue")],
  "GetVariable / GetSlice on truncated or unwritten data")
p("A01","Attribute maps keep insertion order and are exact",
  "An attribute map lists exactly the added, non-hidden keys, each once, in order of first addition; Get returns the latest value added for a key and reports absence for anything else, and hidden keys stay readable by name but are not listed. A map built with a key list that does not match the values is refused.",
  ["inputs","histories"],"every sequence of NewOrderedMap, Add, Hide, Get, Keys, GetType, GetGoType operations over every key set",
  "Tests run a few fixed sequences; the order and hidden set after arbitrary interleavings are not covered.",
  ["netcdf/util/orderedmap.go"],[("ordered map","netcdf/util/orderedmap.go: NewOrderedMap, Add, Hide, Get, Keys")],
  "util.OrderedMap and Attributes() of groups and variables")
p("A02","Reported types, shapes and lengths agree with the values returned",
  "For every variable, Type and GoType are the CDL and Go names the README assigns to its stored type, Shape and Dimensions have one entry per dimension of the returned value, Len is the length of the first dimension (1 for a scalar), and the Go type of the value returned is slices (one per dimension; a char array's innermost dimension becomes a string) of GoType. ListDimensions/GetDimension agree with Shape.",
  ["inputs"],"every variable of every readable file in either format",
  "Tests compare a handful of types; names, nesting and shapes for other ranks and types are not exercised.",
  [CR,H,"netcdf/hdf5/types.go"],[("CDF names",CR+": goType, cdlType, convert"),("HDF5 names",H+": getVarCommon, Type/GoType helpers; netcdf/hdf5/types.go cdlTypeString/goTypeString")],
  "VarGetter.Type, GoType, Shape, Len, Dimensions and reflect.TypeOf(Values)")
p("A03","What cannot be represented is refused with an error, never written wrongly",
  "The writers accept only valid netCDF names, the supported element types, and dimension lists consistent with the shapes given and with each other; anything else (invalid or duplicate names, unsupported or ragged values, a dimension reused with another length, an unsupported attribute type) yields an error. A refused call leaves no trace: the file written afterwards is the one that would have been written without the call.",
  ["inputs","programs"],"every argument of AddVar, AddAttributes, CreateGroup for both formats, valid or not, interleaved with valid calls",
  "Tests check a few error cases one at a time; that a refused call leaves the rest of the file intact is not tested.",
  [CW,HW,"internal/validname.go"],[("name rule","internal/validname.go: IsValidNetCDFName"),("shape checks",CW+": getDimLengthsHelper, AddVar, checkV5Attributes; "+HW+": AddVar, AddAttributes, CreateGroup")],
  "errors returned by AddVar/AddAttributes/CreateGroup/Close and the file produced")
p("A04","Handles of one open file never disturb each other",
  "Groups and variable getters obtained from one open file can be used and closed in any order and interleaving: reads through one never move or corrupt reads through another, closing a group leaves every other group obtained from the file usable, and the underlying file is closed exactly once, when the last group is closed.",
  ["histories","schedules"],"every interleaving of GetGroup, GetVarGetter, GetSlice, GetVariable and Close on handles of one file",
  "Tests close groups in one fixed order and read sequentially.",
  ["netcdf/hdf5/readers.go",H,CR],[("reference counted file","netcdf/hdf5/readers.go: refCountedFile, raFile dup/Close/Read/ReadAt/Seek"),("CDF reference count",CR+": GetGroup, Close")],
  "results of reads after interleaved closes; Close calls observed on the ReadSeekerCloser passed to New")
p("A05","Reading has no side effects: repeating any read gives the same answer",
  "For an unchanged file, every listing, attribute map, type and value is a function of the file alone: calling any reading operation again, after any other operations on the same or other groups and getters, or in a fresh open of the file, gives an equal result in the same order.",
  ["histories","inputs"],"every file and every sequence of reading calls",
  "Tests read each thing once; state leaking from one read into the next (shared header objects, map iteration order) is invisible to them.",
  [H,CR,"netcdf/hdf5/array.go"],[("per-object headers shared by getters",H+": getVarCommon/GetVarGetter, newRecordReader, findVariable"),("attribute order",H+": getAttributes, sortAttrList"),("nested type decoding","netcdf/hdf5/array.go alloc, compound.go, vlen.go, enum.go")],
  "all reading calls of api.Group, api.VarGetter, api.AttributeMap")
p("H01","HDF5 write then read returns what was written",
  "Whatever tree of groups, variables and attributes the HDF5 writer accepts and closes without error, opening the file gives back the same groups, the same variables with the same values, dimension names and types, and the same attributes with the same values, for every supported element type including strings, compound, opaque and variable-length values.",
  ["inputs","programs"],"every accepted program of CreateGroup/AddVar/AddAttributes calls with every supported type, rank, shape, string length and name",
  "Tests cover a few types and shapes; addresses, heap indices and message sizes depend on the whole tree.",
  [HW,WU,H],[("object headers and messages",HW+": writeObject*, build*; "+WU),("global heap",HW+": writeGlobalHeap; "+H+": readGlobalHeap"),("values",WU+": writeValue helpers; netcdf/hdf5/*.go alloc")],
  "hdf5.OpenWriter / netcdf.Open public API")
p("H02","Every written HDF5 file is structurally valid",
  "A file the HDF5 writer closes without error is a valid HDF5/netCDF-4 file: every object header, message and heap size field equals the number of bytes it covers, every stored address points at the object it names, every metadata checksum is correct, the end-of-file address equals the file length, and the reference HDF5 tools read the same content from it.",
  ["inputs","programs"],"every accepted program of CreateGroup/AddVar/AddAttributes calls",
  "A round trip hides agreeing mistakes; sizes and addresses are computed before or after the bytes they describe for arbitrary inputs.",
  [HW,WU,"netcdf/hdf5/checksum.go"],[("object header sizes",HW+": writeObjectHeaderV2 and callers"),("message builders",WU+": build*Message, build*Datatype"),("superblock",HW+": writeSuperblock")],
  "bytes of the file after Close, decoded by an independent parser and by h5dump/ncdump")
p("H03","HDF5 metadata checksums are exact and corruption is never accepted",
  "The checksum used for HDF5 metadata is Jenkins' lookup3 over exactly the bytes the format says it covers, whatever their number, and metadata whose stored checksum differs from the computed one is reported as an error rather than used. Filtered data with a Fletcher-32 checksum that does not match is likewise an error.",
  ["inputs"],"every byte string of every length; every single corruption of a checksummed region",
  "Tests check the checksum on a few fixed files; lengths modulo 12, block boundaries and the exact extent covered are not enumerated, and no test corrupts a file.",
  ["netcdf/hdf5/checksum.go","netcdf/hdf5/readers.go",H],[("hash","netcdf/hdf5/checksum.go: rot, mix, final, hashInts, checksum, computeChecksumStream"),("enforcement",H+": checkChecksum callers"),("fletcher","netcdf/hdf5/readers.go: newFletcher32Reader, Read")],
  "result or error of Open/GetVariable on files with altered bytes; hash values against the published algorithm")
p("H04","HDF5 filters are undone exactly, whatever the pipeline and read pattern",
  "For any combination of shuffle, deflate and Fletcher-32 applied in any order the format allows, with any element size and chunk length, the bytes delivered to the type decoder are the original unfiltered bytes. They do not depend on the sizes of the buffers used to read them.",
  ["inputs","schedules","configurations"],"every filter pipeline, element size, data length and partition of the reads",
  "The tests use a few h5repack outputs read with one buffer pattern.",
  ["netcdf/hdf5/readers.go",H],[("unshuffle","netcdf/hdf5/readers.go: unshuffle, unshuffleReader.Read"),("fletcher","netcdf/hdf5/readers.go: fletcher.Read"),("pipeline",H+": newRecordReader filter loop")],
  "values of chunked, filtered variables against the unfiltered original")
p("H05","HDF5 storage layouts are assembled element-exactly",
  "For compact, contiguous and chunked storage with any dimensions, any chunk dimensions (including chunks overlapping the edge of the variable) and any set of stored chunks in any file order, each element of the value read is the one stored at its coordinates in the chunk covering it. Elements covered by no stored chunk are the fill value.",
  ["inputs"],"every rank, shape, chunk shape, subset and order of stored chunks",
  "Tests use a small number of shapes; index arithmetic at partial edge chunks and for higher ranks is not enumerated.",
  ["netcdf/hdf5/readers.go","netcdf/hdf5/segment.go",H],[("layout reader",H+": needsLayoutReader, layoutReader, newLayoutReader; netcdf/hdf5/readers.go"),("index arithmetic",H+": calculateFlatOffset, calcChunkSize, calcDataSize"),("segment order","netcdf/hdf5/segment.go: segmented sort")],
  "GetVariable on independently produced chunked files")
p("H06","An HDF5 slice equals the corresponding part of the whole variable",
  "For an HDF5 variable and any begin <= end within its length, GetSlice(begin, end) equals elements begin..end of the full value and GetSliceMD with in-range bounds equals the rectangular sub-block, for every storage layout, filter and type. Bounds outside the variable, or with begin > end, are answered with an error.",
  ["inputs","histories"],"every variable, layout, pair of bounds and order of earlier calls",
  "Tests slice a few contiguous variables; chunked and filtered slices and repeated slices are not covered.",
  [H,"internal/slicer.go"],[("slice to byte range",H+": GetVarGetter getSlice/getSliceMD, newRecordReader"),("sub-block","internal/slicer.go: sliceRecursive")],
  "VarGetter.GetSlice, GetSliceMD, Values")
p("H07","HDF5 datatypes and encodings are decoded exactly",
  "For every integer and floating-point datatype of either byte order, fixed and variable-length string, enumeration, opaque, compound, array and variable-length datatype, alone or nested, the Go value returned carries exactly the stored value. User-defined types are listed by name and described by the CDL and Go type text that corresponds to their definition.",
  ["inputs"],"every datatype definition the reader supports, nested to any depth, and every bit pattern of the stored values",
  "Tests hold sample files with a few user-defined types and values.",
  ["netcdf/hdf5/fixedPoint.go","netcdf/hdf5/floatingPoint.go","netcdf/hdf5/compound.go","netcdf/hdf5/enum.go","netcdf/hdf5/vlen.go","netcdf/hdf5/array.go","netcdf/hdf5/opaque.go","netcdf/hdf5/string.go","netcdf/hdf5/types.go"],[("type parsers","netcdf/hdf5/*.go parse methods; "+H+": printDatatype"),("value decoders","netcdf/hdf5/*.go alloc methods"),("field readers",H+": readEnc, getString, readNullTerminatedName")],
  "GetVariable, Attributes, ListTypes, GetType, GetGoType")
p("H08","Group paths resolve to exactly the named group",
  "From any group, GetGroup with an absolute or relative path made of existing subgroup names returns the group at that place in the tree, with exactly its own variables, subgroups, attributes and dimensions, regardless of repeated or trailing slashes the API allows; any other path returns an error. Listing subgroups and variables returns each child exactly once.",
  ["inputs","programs"],"every group tree and every path string",
  "Tests use one or two fixed trees and paths.",
  [H],[("path resolution",H+": GetGroup, canonicalizePath, findGroup"),("link enumeration",H+": readLinkData, fractal heap, B-tree and symbol-table readers")],
  "api.Group.GetGroup, ListSubgroups, ListVariables")
p("H09","Old-style and dense link/attribute storage is enumerated completely",
  "For every number of links or attributes, whichever HDF5 storage holds them (compact messages, symbol-table B-trees with local heaps, or fractal heaps with version-2 B-trees, with header continuation blocks), the listing contains every entry exactly once with the right object or value behind it.",
  ["inputs"],"every number, name length and storage form of links and attributes",
  "Sample files are small, so most never leave the first heap block or B-tree leaf.",
  [H],[("fractal heap",H+": readRootBlock, doDoubling, readHeapDirectBlock, getHeapOffset/Length"),("B-trees",H+": readBTreeNode, readBTreeInternal/Leaf"),("continuations",H+": readBlockHeaderMessages / continuation handling")],
  "ListVariables, ListSubgroups, Attributes, GetVariable on files with many entries")
p("N01","No input file makes the library crash",
  "Opening and reading any byte string, however malformed, either succeeds or returns an error; it never panics, exits the process, loops forever or allocates without bound.",
  ["inputs"],"every byte string given to Open/New",
  "Only well-formed sample files are tested.",
  [CR,H],[("header parsing",CR+": readHeader; "+H+": readSuperblock, readObjectHeader")],
  "process outcome of netcdf.Open on malformed files")
import os
out=os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))),"properties.jsonl")
with open(out,"w") as f:
    for x in P: f.write(json.dumps(x)+"\n")
