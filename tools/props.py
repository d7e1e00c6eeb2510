FLOW = "interprocedural failure-flow analysis (nil/non-nil dataflow over SSA)"
TRUST = "Trusts go/types, go/ssa and the analyser. "

prop("C01", "Malformed ipdb databases never crash the process",
 "Opening any byte string as an ipdb database and querying it with any address returns a value or an error; it never panics, never loops forever and never recurses without bound.",
 ["inputs"], "every byte string as file content, every net.IP (of any length) as query, after every successful open",
 "The tests open one well-formed generated database; index arithmetic on attacker-controlled offsets, node counts and lengths can only be settled for all inputs.",
 ["db/format/ipdb/reader.go", "db/format/ipdb/querier.go", "db/query/query.go"],
 [("size and node-count validation on open", "newReaderFromBytes"), ("offset checks before slicing", "reader.resolve, reader.decodeInfo")],
 ["query.NewDbFromBytes", "query.Db.Query", "query.Db.QueryStr", "query.Db.QueryU32"],
 claim=("abstract interpretation of the SSA form with linear integer constraints", "proof",
  TRUST + "Models of the standard library functions used are trusted (slices, maps, strings, encoding/json into arbitrary field values, net). Memory exhaustion is out of scope. Integers are 64-bit."))

prop("C05", "A lookup that fails is reported as an error",
 "When any step of a lookup fails (the file cannot be read, the address does not parse, no network covers it, the record is damaged), the lookup or open call returns a non-nil error. A lookup that returns no error returns a record.",
 ["inputs", "fault_sequences"], "every address, database content and failing step reachable from the query API",
 "Tests look up addresses that exist in a good database; the failing paths are never taken.",
 ["db/query/query.go", "db/format/ipdb/querier.go", "db/format/ipdb/reader.go", "db/format/awdb/querier.go", "db/format/awdb/reader.go"],
 [("error checks after each step", "QueryInternal, Find, find0, LookupNetwork")],
 ["query.NewDb", "query.Db.Query", "query.Db.QueryStr"],
 claim=(FLOW, "other", TRUST + "Decides that an error, a false found-flag or an unparsable address always reaches the caller as an error, and that error-free returns carry a record. Whether a step notices the failure in the first place is decided only where it is an error result or a flag. BuildCache, which only warms a cache, is exempt by contract."))

prop("C06", "Packing and conversion never report success after a failed step",
 "When any read, parse, insert, encode or write fails during a dump, pack or conversion, the entry point returns a non-nil error; success is never reported for output that is missing the failed part.",
 ["inputs", "fault_sequences"], "every failing call at every point of DumpFile, PackFile, PackBytes and PackWriter, for every registered format",
 "Tests write to memory, where nothing fails, and never exercise a failing writer or a rejected row.",
 ["db/convert/packer.go", "db/convert/dumper.go", "db/format/ipdb/packer.go", "db/format/ipdb/writer.go", "db/format/plain/packer.go", "db/format/memip/packer.go", "db/format/plain/dumper.go", "db/format/memip/dumper.go", "db/field/export/export.go"],
 [("error checks after each write and insert", "pack functions of each format"), ("close error kept", "PackFile")],
 ["convert.DumpFile", "convert.PackFile", "convert.PackBytes", "convert.PackWriter"],
 claim=(FLOW, "other", TRUST + "Each fallible call is assumed to fail once, at each point; every exit must report it. Library calls documented never to fail (bytes.Buffer writes, json.Marshal of plain data) are exempt. The operations applied to dumped data have no way to report and are out of scope."))

prop("C07", "A text database that cannot be read to its end is never reported complete",
 "When reading a text database stops before its end because of a read error or a line that is too long for the reader, the dump returns an error instead of the part read so far.",
 ["inputs", "fault_sequences"], "every input to the plain (.scan) and memip dumpers",
 "Tests do not dump text formats at all; an over-long line ends a scanner silently.",
 ["db/format/plain/dumper.go", "db/format/memip/dumper.go"],
 [("scanner error asked for after the loop", "newDumper of plain and memip")],
 ["convert.DumpFile"],
 claim=(FLOW, "other", TRUST + "Assumes a Scan ended in an error and asks whether every exit of the dump reports it; read errors of other readers likewise."))

prop("C29", "Packing to an unsupported format leaves existing files alone",
 "Packing to a file whose extension has no registered packer returns an error without creating, truncating, renaming or removing any file.",
 ["inputs", "configurations"], "every target name and every set of registered formats",
 "No test packs to an unsupported extension, let alone over an existing file.",
 ["db/convert/packer.go", "db/format/formats.go"],
 [("format looked up before the file is created", "PackFile")],
 ["convert.PackFile"],
 claim=("nil/non-nil dataflow: every file-changing call is dominated by a successful format lookup", "other", TRUST + "Decides which calls can run before the format is known to be registered."))

prop("C30", "The HTTP server never answers a failed lookup with success",
 "For a request whose lookup fails, the HTTP server sends an error status (400 or above) before any body, and never a 200 answer.",
 ["inputs"], "every request path and database",
 "The server has no tests.",
 ["cmd/server/server.go"], [("error branch of the lookup handler", "server.ListenAndServe")],
 ["HTTP responses of cmd/server"],
 claim=(FLOW + ", tracking what a handler has sent", "other", TRUST + "Covers the failure of repository calls and fallible encodings inside handlers; write errors to the client are not failures of the lookup."))

prop("C31", "Commands exit with a failure status when they fail",
 "When a command-line tool cannot open, dump, pack, look up or serve, its process ends with a non-zero exit status.",
 ["inputs", "fault_sequences"], "every failing call in the three commands",
 "The commands have no tests.",
 ["cmd/converter/main.go", "cmd/server/main.go", "cmd/simple/main.go"], [("os.Exit after logging", "main functions")],
 ["exit status of converter, server and simple"],
 claim=(FLOW + " ending in the process exit status", "other", TRUST + "Every error result in a command is assumed non-nil once; every path must end in os.Exit with a non-zero status, log.Fatal or a panic."))

EFF = "inclusion-based points-to and effect analysis over SSA"

prop("C09", "Queries change nothing that other queries can see",
 "A lookup on an open database writes no memory that existed before the lookup: not the database handle or the data behind it, not a package variable, not the caller's address. So any number of lookups may run at once without interfering, and their order does not matter. State guarded by sync or sync/atomic is excepted.",
 ["interleavings", "inputs"], "every schedule of concurrent Query, QueryStr, QueryU32, VersionInfo, CheckV4 and CheckV6 calls on one handle",
 "The tests query from one goroutine; a cache filled without a lock only fails under a particular interleaving.",
 ["db/query/query.go", "db/format/ipdb/querier.go", "db/format/ipdb/reader.go", "db/format/awdb/querier.go", "db/format/awdb/reader.go", "db/format/awdb/decoder.go", "db/inf/db_inf.go", "db/field/export/export.go"],
 [("result cache only read", "Db.QueryInternal"), ("prefix index only read", "reader.search"), ("scratch values allocated per call", "decoder")],
 ["query.Db.Query from many goroutines"],
 claim=(EFF, "other", TRUST + "Every writing instruction reachable from a query is resolved to the memory it may hit. Library functions without a model are assumed to write what they are given."))

prop("C10", "Packing leaves the data it is given unchanged",
 "Packing does not modify the rows, value slices, networks, field lists or version information it is given: the same data can be packed again, to another format, or used after packing.",
 ["inputs", "histories"], "every data set, every registered packer, every sequence of pack calls",
 "The tests pack a data set once and never look at it again.",
 ["db/convert/packer.go", "db/format/ipdb/packer.go", "db/format/ipdb/writer.go", "db/format/plain/packer.go", "db/format/memip/packer.go", "db/field/export/export.go"],
 [("rows copied before rewriting", "packers and export rule")],
 ["convert.PackFile, PackBytes and PackWriter called again with the same data"],
 claim=(EFF, "other", TRUST + "Every writing instruction reachable from a packer is resolved to the memory it may hit. Library functions without a model are assumed to write what they are given."))

prop("C11", "Each lookup returns a record of the caller's own",
 "The record a lookup returns shares no memory with the database handle or with the record of another lookup: a caller may change the record it got without changing later answers.",
 ["histories", "interleavings"], "every sequence of lookups and edits of the returned records, cached answers included",
 "No test edits a record it got and looks the address up again.",
 ["db/query/query.go", "db/inf/db_inf.go", "db/format/ipdb/querier.go", "db/format/awdb/querier.go"],
 [("cached record copied", "Db.QueryInternal")],
 ["query.Db.Query results"],
 claim=(EFF, "other", TRUST + "What a returned record may reach is computed for all paths. Strings are immutable and do not count."))

prop("C12", "Operations on dumped data never edit another network's row",
 "Dumped rows may share one slice of values. An operation whose change to a row depends on that row's network gives the row values of its own; it does not write into, or append in place to, an existing slice of values, where the change would show in rows of other networks.",
 ["inputs", "histories"], "every dumped data set and every operation of db/field/operate",
 "The tests' operations work on rows that share nothing.",
 ["db/field/operate/operate.go", "db/field/operate/line.go", "db/field/operate/district.go", "db/field/operate/replace.go"],
 [("values copied before a change", "line operations")],
 ["operate functions on the result of convert.DumpFile"],
 claim=(EFF + " with a backward data and control dependence analysis", "other", TRUST + "Changes that depend on the values alone may be made in place: they are the same for every row sharing them."))

TAB = "constant tables read from the type-checked program and compared with each other"

prop("C14", "Output never depends on map iteration order",
 "Go maps iterate in a random order; nothing this library returns, writes or decides depends on that order. The same input packs to the same bytes, and the same query gives the same answer, on every run.",
 ["interleavings", "inputs"], "every loop over a map in the library and the commands, every iteration order",
 "A test sees one iteration order per run, and small maps often come out the same way.",
 ["db/format/ipdb/writer.go", "db/format/ipdb/reader.go", "db/field/data/load.go", "db/format/awdb/fields.go", "db/field/export/export.go"],
 [("keys sorted before use", "languages of an ipdb database"), ("one entry per key", "field maps")],
 ["bytes written by convert.PackWriter", "query.Db.FieldsMap"],
 claim=("effect and dependence analysis of each loop over a map, over SSA", "other", TRUST + "Each loop must store under its own key, add up, collect a list that is sorted before use, or act for a single key; anything else is reported. JSON encoding of maps is sorted by the standard library."))

prop("C15", "Every format maps its columns to the right common fields, both ways",
 "A value stored in a format's column for a field (country, city, asn, ...) comes out in the result field of that name, in lookups and in dumps, and is packed into that same column; no two columns of a format claim one field, and no field is filled from the column of another.",
 ["inputs", "configurations"], "every field of every registered format",
 "Tests look at a few fields of generated ipdb data; a swapped pair in a table of 20 columns shows only in data that fills both.",
 ["db/format/ipdb/fields.go", "db/format/awdb/fields.go", "db/format/memip/dumper.go", "db/format/memip/packer.go", "db/inf/db_inf.go", "db/field/fields.go"],
 [("common field tables", "CommonFieldsMap, FieldsFormat, FullFieldsMap"), ("record to result", "IpInfo conversion of each format")],
 ["query.Db.Query fields", "convert.DumpFile columns", "convert.PackWriter columns"],
 claim=(TAB + "; dataflow from column to result field", "other", TRUST + "The tables and the assignments are compared column by column. Values are followed through field selection, not through arbitrary string edits."))

prop("C16", "The Java and Rust readers agree with the Go writer on names and columns",
 "The Java and Rust ipdb readers put each database column in the field the Go reader puts it in, and read the metadata under the key names the Go writer writes.",
 ["configurations"], "every column and metadata key of the ipdb format",
 "The other-language readers have no tests that run with the Go ones.",
 ["db/format/ipdb/fields.go", "db/format/ipdb/reader.go", "java", "rust"],
 [("column switch of each client", "Java and Rust ipdb readers")],
 ["results of the Java and Rust clients"],
 claim=("token-level extraction of the Java and Rust tables, compared with the Go tables", "other", TRUST + "The Java and Rust sources are read as tokens, not type-checked."))

prop("C17", "Continent codes and names convert consistently everywhere",
 "The seven continent codes and their names form one table: each reader turns a code into the name, the ipdb writer turns the name back into the same code, for all seven and in every language client, and only the continent column is converted.",
 ["inputs"], "every continent, every place that converts one",
 "Tests use one continent, if any.",
 ["db/format/ipdb/writer.go", "db/format/ipdb/querier.go", "db/format/memip/packer.go", "db/field/data/continent.go", "java", "rust"],
 [("continent tables", "ipdb fields, memip packer, clients")],
 ["continent of a lookup after a pack"],
 claim=(TAB + ", with a dominance check of the column that is converted", "other", TRUST))

prop("C24", "Packing never truncates a length or offset silently",
 "No length, count or offset is cut to 16 bits while packing without a check before it that the value fits: too large a record is refused with an error, not written with a wrong length.",
 ["inputs"], "every conversion to an integer of 16 bits or less reachable from a packer",
 "Tests pack short rows; a row of 64 KiB is needed to wrap the length.",
 ["db/format/ipdb/writer.go"],
 [("record size check before the length is written", "Writer.Insert")],
 ["records of a packed ipdb database"],
 claim=("range-check dominance over SSA, interprocedural for parameters", "other", TRUST + "Offsets of 32 bits are not covered: they take a database of 4 GiB."))

prop("C25", "Every format is found under its own extension, by every command",
 "Each format registers its opener, dumper or packer at program start under one lower-case extension of its own; a lookup by file name uses the table the registration fills; and every command links every format, so no supported file is refused as unknown.",
 ["configurations"], "every registration call, every command",
 "Tests import the formats they use directly; a registration lost from a command shows only in that command.",
 ["db/format/formats.go", "db/format/ipdb/init.go", "db/format/awdb/init.go", "db/format/memip/init.go", "db/format/plain/init.go", "db/inf/intern.go", "cmd"],
 [("registration in init", "init functions of the formats"), ("blank imports", "db/format/formats.go")],
 ["query.NewDb, convert.DumpFile and PackFile on each extension"],
 claim=("registration-site analysis over the type-checked program and its import graph", "other", TRUST))

prop("C26", "Normalisation tables are well-formed and idempotent",
 "Each line of the built-in tables of provinces, cities, isps and AS numbers is well-formed; no name maps to two different ones; normalising a normalised name changes nothing; and each table is applied to the column it is for.",
 ["inputs"], "every line of every built-in table",
 "Tests do not look at the tables; one wrong line among 1,300 shows for one name.",
 ["db/field/data/isp.go", "db/field/data/city.go", "db/field/data/province.go", "db/field/data/asn2isp.go", "db/field/data/load.go", "db/field/operate/replace.go"],
 [("table loading", "data.load functions"), ("table application", "replace operations")],
 ["operate functions on a dumped database"],
 claim=(TAB, "other", TRUST + "The tables are constants of the program and are examined line by line."))

prop("C27", "Recursion is always bounded",
 "Every recursive cycle of the library makes progress towards a bound that does not depend on trusting the file: a depth counter with a limit, a one-time special case, or the structure of a Go type. A hostile file cannot exhaust the stack.",
 ["inputs"], "every strongly connected component of the call graph",
 "No test nests data or networks deeply; Go ends the process when the stack is exhausted.",
 ["db/format/awdb/decoder.go", "db/format/awdb/traverse.go", "db/format/ipdb/writer.go"],
 [("depth limit", "decoder.decode*"), ("node bit counter", "traverse")],
 ["query.Db.Query and convert.DumpFile on hostile awdb files"],
 claim=("call-graph components with a counter-progress rule over SSA", "other", TRUST + "The number of calls may still be exponential in the depth limit: this bounds the stack, not the time."))

prop("C28", "The library never ends the process of its user",
 "No function of the library panics on purpose, calls os.Exit, log.Fatal or runtime.Goexit, or uses an unchecked type assertion or a Must function on data from outside: failures are returned as errors.",
 ["inputs"], "every function of the library packages",
 "Tests cannot reach every failing branch; a library that exits takes its host program with it.",
 ["db", "ipnet"],
 [("errors returned", "all library packages")],
 ["any API call"],
 claim=("scan of every SSA instruction of the library for exits, explicit panics and unchecked assertions", "other", TRUST + "Implicit panics (index out of range and the like) are the matter of C01."))

prop("C32", "Rebuilt rows keep every value in its own column",
 "Whenever a row or record is rebuilt column by column (reading a record, applying an export rule, dumping, packing), each value is stored in the column it was read from: by the same position, by an offset looked up for that column, or under that column's name. Columns are found by an equal name and nothing else.",
 ["inputs", "configurations"], "every column list and export rule, every row",
 "Tests export one or two columns; values that slide into a neighbouring column show only for particular column orders.",
 ["db/field/export/export.go", "db/field/strings.go", "db/format/ipdb/reader.go", "db/format/plain/dumper.go", "db/format/memip/packer.go"],
 [("column copies", "Exporter.remapKey, _Filter.extract, BuildIPData, findMap, covertValues"), ("column search", "field.Offset, offsets, fieldOffsets")],
 ["convert.DumpFile rows under any rule", "convert.PackWriter columns"],
 claim=("index-alignment dataflow over SSA", "other", TRUST + "Every write of a string into a list or under a column name, and every index that leaves a search loop. Columns derived from other columns (operations of db/field/operate) are out of scope."))

BITS = "abstract interpretation over bit vectors (known, free and named bits), cell by cell"

prop("C21", "Address conversions are exact",
 "Converting between integers and addresses keeps every bit: Uint32ToIPv4 and IPv4ToUint32 are each other's inverse (4-byte and IPv4-mapped 16-byte addresses are the same address), Uint64ToIP and Uint64ToIP2 place the high word first, IPv4StrToUint32 returns the address of an IPv4 text and 0 for any other text, and QueryU32 looks up exactly the address its integer stands for.",
 ["inputs"], "all 2^32 integers and IPv4 addresses, all 2^64 and 2^128 words, every text",
 "The tests convert ten random integers one way and back; a wrong bit in both directions cancels out.",
 ["ipnet/ip.go", "db/query/query.go"], [("shifts and masks", "Uint32ToIPv4, IPv4ToUint32, Uint64ToIP, Uint64ToIP2"), ("address built for a lookup", "Db.QueryU32")],
 ["ipnet.Uint32ToIPv4", "ipnet.IPv4ToUint32", "ipnet.IPv4StrToUint32", "ipnet.Uint64ToIP", "ipnet.Uint64ToIP2", "query.Db.QueryU32"],
 claim=(BITS, "proof", TRUST + "net.ParseIP is trusted to return nil, a mapped 16-byte address or an IPv6 address."))

prop("C22", "Address and range arithmetic is exact for every address",
 "For IPv4 and IPv6 addresses: NextIP adds one and wraps after the last address; LastIP and NextStart give the last address of a network and the one after it; IPLess is the numeric order, also between a 4-byte address and a 16-byte one; MaskLess orders networks IPv4 first, then longer prefixes first; PrefixSameLength, SuffixZeroLength, IsAllMask and IsFirstIP count the right bits; IpNet masks the address. A range contains exactly the addresses from its start to its end; Join and JoinIPNet accept exactly a range that starts inside this one or right after it and then extend the end; CommonRange succeeds exactly when the address lies in both ranges and leaves their intersection; IPNets splits a range into the networks that cover exactly it, in order, each as large as its alignment and the range allow. All of this includes the first and the last address of the address space.",
 ["inputs"], "every address of 4 or 16 bytes, every prefix length, every pair of ranges (start not after end)",
 "The tests use a handful of IPv4 addresses; carries across bytes, the ends of the address space and IPv6 are never reached.",
 ["ipnet/ip.go", "ipnet/ipnet.go", "ipnet/range.go"],
 [("carry loop", "NextIP"), ("first different bit", "IPLess, PrefixSameLength"), ("block length", "Range.IPNets"), ("adjacency", "beyond, Join, JoinIPNet, CommonRange")],
 ["ipnet.NextIP", "ipnet.LastIP", "ipnet.IPLess", "ipnet.Range.Join", "ipnet.Range.CommonRange", "ipnet.Range.IPNets"],
 claim=(BITS + "; ranges over every order type of their addresses", "proof", TRUST + "bytes.Compare, bytes.Equal, math/bits and parts of net are modelled or interpreted. Ranges whose start is after their end are out of scope. That IPNets stops is taken from the first block and the step to the next one; three rounds are followed."))

prop("C08", "Binary lookups follow the trie to the address's own record",
 "In ipdb and awdb files, a lookup (Db.Query, and the function a dump finds networks with) starts at the root (IPv4 addresses: at the node reached by the 96-bit prefix of the IPv4 part: ::ffff:0:0/96 in ipdb, ::/96 in awdb IPv6 files, the root in awdb IPv4 files), follows the address bit by bit, most significant first, through the left record of each node for 0 and the right one for 1 (24, 28 and 32 bit records in awdb), and ends at the first record that is not a node. If that stands for 'no data', lies below the last bit, points past the end of the file or to a record longer than the file, or the file lacks the address family, the lookup fails. Otherwise it returns the prefix length it walked, the network the address has at that length, and the values of exactly that record, column by column and in the chosen language for ipdb. What was looked up before, and the prefix cache for IPv4, never change the answer.",
 ["inputs", "histories"], "every file content that opens and every address: every depth at which the walk ends, every way it ends, both address forms",
 "The tests look up a handful of addresses in one small IPv4 database; the depths, record sizes, families and cache states at which an index or shift is wrong are not sampled.",
 ["db/format/ipdb/reader.go", "db/format/ipdb/querier.go", "db/format/ipdb/dumper.go", "db/format/awdb/reader.go", "db/format/awdb/querier.go", "db/format/awdb/dumper.go", "db/query/query.go"],
 [("node records", "readNode, readLeft, readRight"), ("bit walk", "search, traverseTree"), ("prefix cache", "ipV4BitsCache, readDepth"), ("record offset", "resolve, resolveDataPointer"), ("prefix length to network", "find, cidr")],
 ["query.NewDbFromBytes", "query.Db.Query", "the find function given to Exporter.BuildIPData by each format"],
 claim=(BITS + ", one cell per depth and kind of end of the walk", "proof", TRUST + "Decoding of awdb records is the matter of C20 and is modelled here; encoding/json of the ipdb description, reflection and bytes.LastIndex are modelled. Prior lookups are followed one deep. awdb record sizes 24 and 32 are sampled at every eighth depth for IPv6. In awdb files whose IPv4 part ends above bit 96 the network returned is ::/depth."))

prop("C20", "awdb records are decoded as they are encoded",
 "Every value an awdb record can hold is read back as what its bytes encode, whatever its type (text, bytes, unsigned and signed integers of 0 to 16 bytes, floating point, booleans, maps, arrays) and however its size is written (in the first byte, or in one, two or three bytes after it): integers are big-endian, 4-byte signed ones negative when the top bit is set, sizes from 29 are offset by 29, 285 and 65821; pointers of 1 to 4 bytes (offset 0, 2048, 526336, 0) lead to the value at that place, for values and for names. The value after it is found right behind its encoding. Values with a size their type does not allow, of unknown types, or reaching past the end of the data make the lookup fail.",
 ["inputs"], "every first byte of a value or name, every size and every content of the bytes after it",
 "There is no awdb file in the tests; long sizes, pointers and wide integers are never decoded.",
 ["db/format/awdb/decoder.go", "db/format/awdb/dumper.go"],
 [("size and type bytes", "decodeCtrlData, sizeFromCtrlByte"), ("pointers", "decodePointer"), ("values", "decodeFromType, unmarshal*, decode*"), ("names", "decodeKey, keyBytes")],
 ["the values the find function of the awdb dump returns for a record"],
 claim=(BITS + ", one cell per first byte and place in the record", "proof", TRUST + "reflect, math/big, math.Float*frombits, fmt.Sprint and strconv are modelled. One value of each encoding in a record of two entries (one at the end of the data); maps and arrays of at most two elements; one level of pointers."))

prop("C18", "Packed ipdb tries lead each address to its own row",
 "Packing rows of networks none of which lies inside another, each with one value per column and values without separators, succeeds for every network (IPv4 in 4-byte or mapped form, IPv6, prefix length 0 included). The file is a 4-byte length, the JSON description (whose node count, size, languages and fields are those of what follows), the nodes and the records. The walk from the root along the bits of an address of a row's network (IPv4 as ::ffff:0:0/96) ends after exactly the bits of that network at a record holding that row's values in order, joined by tabs, with its length in front; the walk of any other address ends at no data. Packing rows of which one lies inside another, or a row with too many or too few values, fails.",
 ["inputs"], "every list of rows: every network and address form, every bit at which two networks part, every nesting, either order, same and different values",
 "The tests pack no rows for ipdb at all; an index that is wrong for one prefix length, one address form, a second row in the same byte or equal values is not sampled.",
 ["db/format/ipdb/packer.go", "db/format/ipdb/writer.go"], [("trie insertion", "insert, Nodes"), ("record store", "Fields"), ("file layout", "Save")],
 ["the function ipdb registers for packing (convert.PackWriter)"],
 claim=(BITS + "; the written trie is walked symbolically", "proof", TRUST + "encoding/json, bytes.Buffer, strings.Join and Replace are modelled. Lists of one, two and three rows are followed; for longer ones the argument is that insertion looks at the nodes on its own path only. Values are a few free bytes per column (lengths: C24, separators: C23). Twice the same network is left open."))

prop("C03", "A dump holds every network of the source database",
 "Dumping a binary database visits the whole address space of the family it claims (IPv4 when the database has IPv4, IPv6 otherwise): it starts at the first address, continues right after the last address of each network found, ends only after the last address of the family, and gives each network found exactly one row, in order, with that network's values; a lookup that fails makes the dump fail. Dumping a text database gives one row per line (a .memip range: one row per network of it), with the network and the values of that line in order, up to and including the last one, or fails at a line that is none. The version says IPv4 or IPv6 by the addresses, whatever the values hold.",
 ["inputs", "histories"], "every database: every network at every point of the walk (prefix length, address form, end of the address space), every failure; text files of every kind of line",
 "The tests dump one small database without looking at its edges; a network that ends at the last address, a 4-byte network in an IPv6 walk or a colon in a value are not sampled.",
 ["db/field/export/export.go", "db/format/ipdb/dumper.go", "db/format/awdb/dumper.go", "db/format/plain/dumper.go", "db/format/memip/dumper.go"],
 [("walk over the address space", "Exporter.BuildIPData, NextStart"), ("lookup handed to the walk", "Dump of ipdb and awdb"), ("line reading", "parseLine, newDumper")],
 ["convert.DumpFile", "export.Exporter.BuildIPData"],
 claim=(BITS + "; the walk is followed by induction on its position", "proof", TRUST + "For the walk, find is any function that returns the network of its argument: every position, one step at a time. Text files of up to three lines are followed, with values of a few bytes. What the lookup itself returns is C08 and C20; export rules other than the empty one are C32. A known finding (databases of both families) is listed in known_findings.txt."))

prop("C13", "Converting a database and reading it back keeps every record",
 "Packing rows of separate networks in address order and dumping the result gives the same networks with the same values. In .scan: the same columns, networks in order, values and version (values without separators). In .ipdb: the family, version and extra information, and the columns the package has names for, with continent codes coming back as names, one row per network or per neighbouring stretch of it. In .memip: the same addresses, each with the values of that format's six columns, where a missing or empty value is its default and an isp other than the three it knows is the class of others; neighbouring rows equal but for the city may be one.",
 ["inputs"], "every value of every column, rows of either family and of every neighbourhood, every column list of the formats",
 "Tests convert one database and compare nothing; writer and reader of a format are never run against each other.",
 ["db/format/plain/packer.go", "db/format/plain/dumper.go", "db/format/memip/packer.go", "db/format/memip/dumper.go", "db/format/ipdb/packer.go", "db/format/ipdb/writer.go", "db/format/ipdb/dumper.go", "db/format/ipdb/reader.go"],
 [("writer and reader agree", "pack and newDumper or dump of each format"), ("joined ranges", "merge of memip"), ("columns", "CommonFieldsMap, covertValues")],
 ["convert.PackWriter followed by convert.DumpFile"],
 claim=(BITS + "; the packed bytes are handed to the dumper of the format", "proof", TRUST + "Lists of one to three rows (ipdb: partitions of the address space of up to a few networks); values of a few free bytes. That a range is split into the right networks is C22, that trie lookups end at the right record for every list of networks C18 and C08. ipdb files of both families dump only IPv4 (known finding of C03); .memip files of IPv6 networks inside ::ffff:0:0/96 are refused by the reader and left open."))

prop("C23", "Separators inside values never shift columns",
 "When a value contains a separator of the output format (comma, tab or line end in .scan; dash, space or line end in .memip; tab in .ipdb), at any place, packing still writes one row per row with exactly one field per column: the file is read back with the same networks, with every other value of the row and of the other rows unchanged, and with the rest of that value's text in it. In .ipdb, commas, dashes and line ends are ordinary text and are kept.",
 ["inputs"], "every place of every separator in every column of every row",
 "Tests pack values without separators.", ["db/format/ipdb/packer.go", "db/format/ipdb/writer.go", "db/format/plain/packer.go", "db/format/memip/packer.go"],
 [("escaping", "replacement of separators in the pack function of each format")], ["convert.PackWriter"],
 claim=(BITS + "; the packed bytes are handed to the dumper of the format", "proof", TRUST + "Values of up to a few bytes, the separators and free bytes at each place; lists of up to two rows. What becomes of the separator is left open."))

NAPANIC = "Engine A, which decides this for ipdb (C01), does not finish on this code within the time of a check: "

prop("C02", "Malformed awdb, scan and memip data never crash the process",
 "Opening, querying or dumping any byte string as an awdb, scan or memip database returns a value or an error; it never panics and never recurses without bound.",
 ["inputs"], "every byte string as file content, every address",
 "Tests open no malformed file.", ["db/format/awdb/decoder.go", "db/format/awdb/reader.go", "db/format/plain/dumper.go", "db/format/memip/dumper.go"],
 [("offset checks", "decoder")], ["query.Db.Query", "convert.DumpFile"],
 na=NAPANIC + "reflection over nested records and string splitting give more states than it can join in 900 s. Bounded recursion is claimed as C27, explicit panics as C28, the decoding of every first byte within the data as C20.")

prop("C33", "An export rule gives its columns, with what its filters leave",
 "A rule is groups separated by |. The first lists columns; the exporter gives, for each row, the row's value of each column in that order, or the empty value where the database lacks the column or the row the value. Each further group column=v1/v2:kept,kept is a filter: for a row whose value of the column is one of these (with ! before them: none of these) it empties every column but the kept ones. Filters apply in order, each to what those before it left. A group that is not of this form or names a column the rule does not list is skipped, the others still apply. Rows do not affect each other, and an empty rule means no exporter.",
 ["inputs", "histories"], "every rule and every row, and every sequence of rows given to one exporter",
 "Tests use a few rules on a few rows; the exporter's tests do not compile.",
 ["db/field/export/export.go"],
 [("rule parsing", "ParseRule, buildFilter"), ("filters", "_Filter.match, extract"), ("projection", "Exporter.Export")],
 ["export.ParseRule and the Exporter it returns"],
 claim=(BITS, "proof", TRUST + "Rules of one to four columns with up to three filters over free names and values, each filter with every kind of value list, kept list and row; names and values that begin with others; groups malformed in each way at each place. Columns listed twice are left open, and a value of the form column name is not special."))

prop("C34", "Operations on dumped data change what they are for, and nothing else",
 "ReplaceShortage replaces exactly the values that the table of the column's name lists. TrimAsnIspDup gives a row whose isp is not a main one, and whose AS number is not empty and is that of rows of a main isp, the first such main isp (电信, 联通, 移动, 铁通). MergeNearNetwork joins rows next to each other in the list and in address space that have equal values, keeps the addresses, values and order, and counts the rows. AttachDistrict sets the district of the row's province. AttachLineByCidr and ReplaceLineByCidr set the line (or, if there is one, the isp) of rows in 中国 to the first part of what the line database has for the network's address: 铁通 is 移动, other names are 电信; the line is empty elsewhere or if the lookup fails. AttachLineByAsn gives each row the line of its AS number. Other values, networks and columns stay; a missing column to read leaves the rows alone; attached sources are noted in ExtraInfo. The default operations normalise, then trim, then merge.",
 ["inputs"], "every dumped data set, with rows sharing lists of values or not, every table and every answer of the line database",
 "Two of the operations have a test each on a handful of rows, whose output nobody compares.",
 ["db/field/operate/replace.go", "db/field/operate/line.go", "db/field/operate/district.go", "db/field/operate/operate.go"],
 [("normalisation", "ReplaceShortage, TrimAsnIspDup"), ("merging", "MergeNearNetwork"), ("attached columns", "AttachDistrict, AttachLineByCidr, AttachLineByAsn, ReplaceLineByCidr"), ("order of operations", "DefaultOperates")],
 ["operate functions on dumped data"],
 claim=(BITS, "proof", TRUST + "Lists of up to four rows of disjoint networks, free and known values; merging on lists of known networks (joining ranges of any network is C22). AttachLineByAsn where the data already has lines is left open. The line database is any that answers as db/inf.Query does."))

prop("C35", "Conversions and lookups go through each step once, in order",
 "DumpFile reads the named file, hands all its bytes and the exporter of the rule (none for an empty rule) to the dumper of its extension, applies each operation exactly once, in the order given, to the data that dumper returned, and returns that data. PackFile, PackBytes and PackWriter hand the given data to the packer of the extension; exactly what it writes is what the file (created afresh, closed afterwards), the result or the writer holds. NewDb opens all bytes of the file with the opener of its extension, NewDbFromBytes those it is given. A lookup by text, by 32-bit number or by address asks the database for exactly that address and gives its record, prefix length and error as they are; text that is no address is an error. An unknown extension or a failing step is an error, and no later step is done; no file is created for an unknown extension.",
 ["inputs", "faults"], "every file content, rule, list of operations, address and step that fails",
 "Tests convert one file with one list of operations; they do not fail a step or watch the order.",
 ["db/convert/dumper.go", "db/convert/packer.go", "db/query/query.go", "db/format/format.go"],
 [("dumping", "DumpFile"), ("packing", "PackFile, PackBytes, PackWriter"), ("lookup", "NewDb, NewDbFromBytes, Db.Query, QueryStr, QueryU32, VersionInfo, GetIntern")],
 ["convert.DumpFile, PackFile, PackBytes, PackWriter", "query.NewDb, Db.Query*"],
 claim=(BITS, "proof", TRUST + "Files, registered formats and database handles are stand-ins that record what they are asked and fail at each point in turn; file contents, addresses and records are free, lists of up to four operations. Names of files are known ones, with no, one and several extensions."))

prop("C36", "The commands and the server do what they are asked",
 "converter dumps the file of -i by the rule of -r (the built-in rule for default), applies the default operations, then, with -line, attaches the line by network from that database (replaces it with -line-replace), then the district, and packs the result into each file of the -o list, in order; its status is 0 only if all of that succeeds. simple prints the record of the address it is given, or the version for a text that starts with v, and ends with a status other than 0 if opening or the lookup fails. server listens on the address it is given; /version is answered with the JSON of the version, any other path with that of the record of exactly the address after the slash; a lookup that fails or a path that is no address is answered with a status of 400 or more; it ends with a status other than 0 when it cannot open or serve.",
 ["inputs", "faults"], "every address asked for, every combination of flags and every step that fails",
 "No test runs a command.",
 ["cmd/converter/main.go", "cmd/server/main.go", "cmd/server/server.go", "cmd/simple/main.go"],
 [("converter", "cmd/converter main"), ("server", "cmd/server server.ListenAndServe"), ("simple", "cmd/simple main")],
 ["status, output and files of the commands", "HTTP answers"],
 claim=(BITS, "proof", TRUST + "The flag package, HTTP routing and serving, JSON encoding and the steps of C35 are stand-ins of their documented behaviour. Addresses asked of the server are free; lists of one to three outputs, three rules. The form in which simple prints a record, what is logged, and runs with too few arguments are left open."))

prop("C37", "A database says of itself what is so",
 "The version an opened ipdb database reports has the family its description names (1 IPv4, 2 IPv6, 3 both), the build time, the extra information and, where it is not empty, the version of the description, and the languages of the description (in any order); that of an awdb database has the family (4 or 6), the build time and the languages of its description, and ipplus360 followed by its database type as version. HasIpV4 and HasIpV6 hold for the family and for both, IsIpV4, IsIpV6 and IsIpAll for exactly that. CheckV4 succeeds exactly if both lookups succeed and 8.8.8.8 is in 美国 and 119.29.29.29 in 中国, CheckV6 exactly if 2001:4860:4860::8888 and 2606:4700:4700::1111 are in 美国.",
 ["inputs", "faults"], "every description of a file and every answer to the lookups",
 "Tests open one file of each format and print its version; no test runs the self checks on a wrong database.",
 ["db/format/ipdb/reader.go", "db/format/ipdb/fields.go", "db/format/awdb/reader.go", "db/format/awdb/fields.go", "db/inf/db_inf.go", "db/query/query.go"],
 [("version of a database", "ipdb and awdb VersionInfo"), ("families", "VersionInfo.HasIpV4, HasIpV6, IsIpAll, IsIpV4, IsIpV6"), ("self checks", "Db.CheckV4, Db.CheckV6")],
 ["Db.VersionInfo, Db.CheckV4, Db.CheckV6", "VersionInfo methods"],
 claim=(BITS, "proof", TRUST + "Build times, versions and types are free; up to three languages; the decoding of descriptions is that of encoding/json and of C20. The name made up for an ipdb database without a version, the count, and families other than those listed are left open."))

prop("C04", "Packers and operations never panic on any rows",
 "Packing or transforming any IpData (any number of rows, any number of values per row, missing columns) returns or fails with an error; it never panics.",
 ["inputs"], "every IpData", "Tests pack a few regular rows.", ["db/format/ipdb/packer.go", "db/field/operate/operate.go"],
 [("column offsets", "operate")], ["convert.PackWriter", "operate functions"],
 na=NAPANIC + "rows of unknown number and width, rewritten in place by nested loops, need array-content invariants its domain does not have.")

