#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (single source for the property list)."""
import json, os
P = []
def p(id, title, statement, over, qtext, why, files, mech, observe, state=(), hook=None):
    assert len(title) <= 80, (id, len(title))
    P.append(dict(id=id, title=title, statement=statement,
        quantifier=dict(over=over, text=qtext), why_tests_cant=why,
        anchors=dict(files=files,
            state=[dict(name=a, meaning=b, where=c) for a, b, c in state],
            mechanism=[dict(name=a, where=b) for a, b in mech],
            observe_at=observe, hook_needed=hook)))

RD='db/format/ipdb/reader.go'; WR='db/format/ipdb/writer.go'; QR='db/format/ipdb/querier.go'; Q='db/query/query.go'
EX='db/field/export/export.go'; RG='ipnet/range.go'; NT='ipnet/ipnet.go'; IP='ipnet/ip.go'
NOQ='The two query tests return at once unless a database path is in the environment, so no packed or opened database is exercised by the suite; '

p('C01','A packed ipdb answers every address with the record it was packed with',
  'For any set of non-overlapping networks and field values (no tab or control characters, at most 65535 bytes per encoded record), packing them as ipdb and opening the result gives a database that answers every address inside a network with exactly that network\'s values, each under its own field (continent codes AS/EU/NA/SA/AF/OC/AN shown as the Chinese continent names), and fields the table does not have are empty. This holds for IPv4, IPv6 and dual-stack tables, for every prefix length, and for tables of any size.',
  ['inputs'],'every table of disjoint networks of either family x every address x every field selection',
  NOQ+'addresses x tables is unbounded and the 14-bit lookup cache, the v4 offset and record sharing each have their own boundaries.',
  [WR,RD,QR,'db/format/ipdb/fields.go','db/format/ipdb/packer.go'],
  [('trie insertion',WR+':Nodes,insert'),('serialisation and record sharing',WR+':Save,Fields'),('trie search and bits cache',RD+':search,readDepth,initBitsCache'),('field mapping',QR+':QueryInternal')],
  ['convert.PackBytes','query.NewDbFromBytes','Db.Query'],
  [('node','trie under construction',WR),('ipV4BitsCache','first 14 bits resolved ahead',RD)])
p('C02','Overlapping networks never disturb what was packed before them',
  'When a network offered to an ipdb pack is nested in, or contains, a network already packed, it is refused as a whole: every address keeps the answer it had without the refused network, and addresses only the refused network covers stay unanswered. Packing the very same network again replaces its record and nothing else.',
  ['inputs','histories'],'every sequence of insertions, overlapping in any way and in any order',
  'No test packs anything; overlaps depend on the order and nesting of the whole insertion history.',
  [WR,'db/format/ipdb/packer.go'],[('path completion refuses to walk through a leaf',WR+':Nodes'),('inner node is a conflict',WR+':insert')],
  ['convert.PackBytes','Db.Query'],[('node','trie under construction: >0 child, <0 record, 0 empty',WR)])
p('C03','The reported prefix length names the network that gave the answer',
  'Every successful query also reports a prefix length, and it is the length of the network in the database that holds the queried address (counted in the address\'s own family, also when the answer comes from a pre-built cache), so that every address of that network gets the same answer and the same prefix length. The exception is ::/0, which an ipdb stores as its two halves.',
  ['inputs'],'every database x every address',
  NOQ+'the length is computed by three different code paths (cache hit, cache miss, record cache) that must agree for all of them.',
  [RD,QR,'db/format/awdb/reader.go','db/format/awdb/querier.go'],[('depth counted while descending',RD+':readDepth,getCache'),('record cache keeps the mask of this lookup',QR+':QueryInternal')],
  ['Db.Query second result'])
p('C04','An address without data is an error, never a record or a crash',
  'Querying an address that no network of the database covers, an address of a family the database does not hold, or something that is not an IP address returns an error and no record, in the ipdb and awdb formats alike, whatever was queried before. For ipdb the errors are told apart: data does not exist, IPv4 not supported, IPv6 not supported, and bad IP format.',
  ['inputs','histories'],'every database with gaps x every uncovered, foreign-family or malformed address, at any point of a query history',
  NOQ+'error paths are not reached at all.',
  [RD,QR,Q,'db/format/awdb/querier.go','db/format/awdb/reader.go'],[('search reports absence',RD+':search,find0'),('error is returned before decoding',QR+':QueryInternal'),('absent record in awdb','db/format/awdb/querier.go:Find')],
  ['Db.Query','Db.QueryStr'])
p('C05','A dump tiles the address space exactly once, in order',
  'Dumping a single-family ipdb or awdb database whose networks cover the whole family yields rows in ascending order whose networks are exactly the database\'s networks: disjoint, adjacent, the first starting at the lowest and the last ending at the highest address. If some address is not covered, the dump returns an error instead of a partial table, and it always terminates.',
  ['inputs'],'every complete (and every incomplete) tree of either family, any shape and depth',
  'No test dumps a database; the walk depends on every network boundary including the carry over byte boundaries and the last address.',
  [EX,'db/format/ipdb/dumper.go','db/format/awdb/dumper.go',NT,IP],[('marker walk',EX+':BuildIPData'),('next start after a network',NT+':NextStart,LastIP'),('end of space',IP+':IsAllMask')],
  ['format.GetDumpFormat(ext)'],[('marker','next address to look up',EX)])
p('C06','A dump and a query of the same database agree field by field',
  'For every address and every one of country, province, city, isp, asn, continent, line and district that the format\'s query reports, the value in the dumped row covering the address equals the value a query for that address returns, with and without an export rule that lists the field; a listed field the database does not hold is empty. Two exceptions: conditions of a rule blank fields of the dump only, and an IPv4-mapped address inside an IPv6 database is queried as the IPv4 address it stands for.',
  ['inputs','configurations'],'every ipdb and awdb database x every address x every field list',
  'Query and dump use separate field maps; no test compares them.',
  [EX,'db/format/ipdb/dumper.go','db/format/ipdb/fields.go','db/format/awdb/dumper.go','db/format/awdb/fields.go','db/format/awdb/querier.go'],
  [('field maps','CommonFieldsMap in ipdb/fields.go and awdb/fields.go'),('selection',EX+':Select,remapKey,BuildIPData')],
  ['format.GetDumpFormat(ext)','Db.Query'])
p('C07','Conversion keeps every address\'s answer: output equals processed input',
  'Converting a single-family database (ipdb, awdb or scan text) with an export rule and the standard processing steps and packing to ipdb or scan text gives an output in which every address has exactly the values obtained by applying the rule and then the steps, in order, to the record the source holds for that address (fields from the set that all formats know). Without the line option, converting that output again with the same rule changes no address\'s values.',
  ['inputs','configurations'],'every source database x rule x option combination x output format x address',
  'No test runs a conversion, and each stage can silently lose, shift or share values.',
  ['cmd/converter/main.go','db/convert/dumper.go','db/convert/packer.go',EX,'db/field/operate/replace.go','db/field/operate/district.go'],
  [('pipeline','db/convert/dumper.go:DumpFile'),('steps','db/field/operate/operate.go:DefaultOperates'),('pack','db/convert/packer.go:PackFile')],
  ['converter command: -i -o -r -line -line-replace; the files it writes'])
p('C08','Merging neighbours keeps every address\'s values and is as small as possible',
  'Merging an address-ordered table keeps, for every address, exactly the values it had and covers no other address; rows stay in order and disjoint. Consecutive rows with equal values that touch end up as one range written with the fewest networks possible, rows with different values or a gap between them are never joined, merging twice changes nothing, and the recorded row count is the number of rows.',
  ['inputs'],'every ordered table of disjoint networks of either family',
  'No test calls the merge; correctness depends on every adjacency pattern, including the ends of the address space.',
  ['db/field/operate/replace.go',RG],[('range growth','db/field/operate/replace.go:MergeNearNetwork'),('adjacency',RG+':JoinIPNet'),('decomposition',RG+':IPNets')],
  ['operate.MergeNearNetwork'])
p('C09','Splitting a range into networks is exact, ordered and minimal',
  'For every IPv4 or IPv6 range with start not after end, the networks it is split into are properly aligned, in ascending order, pairwise disjoint, cover exactly the range, and no smaller number of networks covers it. This includes ranges that begin at the lowest or end at the highest address of the family and the whole space.',
  ['inputs'],'every pair start <= end of both families',
  'Tests split four hand-picked IPv4 ranges and check the number of networks.',
  [RG,NT,IP],[('greedy split',RG+':IPNets'),('block size limits',RG+':PrefixSameLength,SuffixZeroLength'),('last and next address',NT+':LastIP, '+IP+':NextIP')],
  ['Range.IPNets'])
p('C10','Range join, intersection and membership are set operations on addresses',
  'A range contains exactly the addresses from its start to its end inclusive. Joining succeeds exactly when the other range or network starts inside or directly after this one, and the result is then exactly the union; the common range with respect to an address succeeds exactly when both ranges contain the address, and is then exactly their intersection; a failed operation changes nothing. This holds for both families up to and including the highest address.',
  ['inputs','histories'],'every pair of ranges x every address, both families, and every sequence of such operations on one range',
  'Tests cover a handful of IPv4 examples, none at the end of the address space.',
  [RG,NT,IP],[('join',RG+':Join,JoinIPNet'),('intersection',RG+':CommonRange'),('membership',NT+':Contains')],
  ['Range.Join','Range.JoinIPNet','Range.CommonRange','Range.Contains','ipnet.Contains'])
p('C11','An export rule keeps exactly the fields its documentation says',
  'With a rule "<fields>|<field>=[!]<v1>/<v2>...:<kept fields>|...", an exported row has one value per listed field in the listed order, taken from that field of the record or empty; then each condition in turn, when its field\'s current value is (or, with "!", is not) one of the listed values, blanks every field that is not in its kept list and changes nothing else. A condition that is malformed or names a field outside the list is ignored. (Listed field names are distinct.)',
  ['inputs','configurations'],'every rule x every record',
  'The export test does not compile, so no rule is tested at all; sequential conditions interact.',
  [EX],[('parsing',EX+':ParseRule,buildFilter'),('filtering',EX+':extract,match'),('mapping',EX+':Select,remapKey')],
  ['export.ParseRule','Exporter.Export'])
p('C12','Processing steps keep tables rectangular and touch only their own column',
  'After any sequence of the processing steps (normalise, ISP correction, merge, attach line by address or by AS number, replace line, attach district), in any order and on any field list, every row has exactly one value per field. Except for merging, a step keeps the networks and their order, and no step changes a column it is not about.',
  ['histories','configurations'],'every sequence of steps x every field list x every table',
  'No step is tested, and early returns and appended columns only go wrong for particular field lists.',
  ['db/field/operate/district.go','db/field/operate/line.go','db/field/operate/replace.go'],
  [('column lookup and append','db/field/operate/*.go'),('aliasing of rows',EX+':BuildIPData (equal neighbours share one slice)')],
  ['operate.* on inf.IpData'])
p('C13','A network\'s line comes from that network alone, and only for China',
  'Attaching (or replacing the ISP by) a line gives each row whose country is 中国 the first part, before "/", of the line the line database holds for that row\'s own first address, with 铁通 shown as 移动 and any other line that is not 电信, 联通 or 移动 shown as 电信; other rows get an empty line (attach) or keep their ISP (replace), as do rows without a line in replace. What one row receives never depends on any other row, and the line database\'s version is appended to the table\'s extra information. Attaching a line column by AS number gives each row the line listed for its own AS number.',
  ['inputs','histories'],'every table x every line database, in particular neighbouring rows with equal values but different lines',
  'No test; the failure needs equal neighbours that share storage and lines that differ between them.',
  ['db/field/operate/line.go'],[('per-row query','db/field/operate/line.go:queryLine'),('row update','db/field/operate/line.go:AttachLineByCidr,ReplaceLineByCidr')],
  ['operate.AttachLineByCidr','operate.ReplaceLineByCidr'])
p('C14','ISP correction is evidence based, deterministic and independent of field order',
  'ISP correction changes a row\'s ISP only when it is not one of 电信, 联通, 移动, 铁通 and the row\'s non-empty AS number also appears in a row whose ISP is one of them, and then to the first such carrier in that order; every other row keeps its ISP. The result is the same on every run and does not depend on the order of rows or of the fields.',
  ['inputs','configurations'],'every table x every permutation of its fields and rows, and every run',
  'No test; the outcome depends on map iteration order and on the position of the columns.',
  ['db/field/operate/replace.go'],[('AS numbers per carrier','db/field/operate/replace.go:TrimAsnIspDup'),('match','db/field/operate/replace.go:asnMatchIsp')],
  ['operate.TrimAsnIspDup'])
p('C15','Names are normalised exactly once, by the table of their own field',
  'Normalisation replaces a city, province or ISP value by its entry in the table of that field (shipped or user loaded), leaves values without an entry and all other columns alone, and translates each value exactly once even when the replacement is itself an entry. With the shipped tables normalising twice changes nothing.',
  ['inputs','configurations'],'every row and value x every loaded table',
  'No test; repeated translation needs rows that share storage and chained entries.',
  ['db/field/operate/replace.go','db/field/data/load.go','db/field/data/city.go','db/field/data/province.go','db/field/data/isp.go'],
  [('lookup','db/field/operate/replace.go:ReplaceShortage'),('tables','db/field/data')],['operate.ReplaceShortage','data.Load'])
p('C16','District is a function of the province alone',
  'Attaching the district gives every row the district of its province (each of the 34 Chinese provincial units belongs to exactly one of 东北 西北 华北 西南 华中 华东 华南) and an empty district when the province is empty or unknown; an existing district column is overwritten in place, otherwise the column is appended. A table without a province column keeps its district values, or gets an empty district column.',
  ['inputs','configurations'],'every province value x every field list with or without district and province',
  'No test; the table and the offsets are only exercised by conversion.',
  ['db/field/operate/district.go'],[('district table','db/field/operate/district.go:provinceDistrict'),('column','db/field/operate/district.go:AttachDistrict')],['operate.AttachDistrict'])
p('C17','Packing never changes the data being packed',
  'Packing a table to any format leaves the table (fields, version, networks, values) as it was, so packing to several formats in any order or repeatedly gives, for each format, the output it gives on its own (apart from the time stamp).',
  ['histories'],'every sequence of packs of one table to any formats',
  'No test packs anything, let alone twice.',
  ['db/format/plain/packer.go','db/format/ipdb/writer.go','db/format/memip/packer.go','db/convert/packer.go'],
  [('value clean-up while writing','db/format/plain/packer.go:replaceComma'),('continent coding',WR+':insert'),('view','db/format/memip/packer.go:covertValues')],
  ['convert.PackBytes','convert.PackWriter','the inf.IpData passed in'])
p('C18','A pack that could not be written completely reports an error',
  'If any write to the destination fails, also after a part of it was written, packing to any format returns an error, so success means the complete output was written; a record too long for the ipdb format (over 65535 bytes) is likewise an error. Asking for an unsupported format returns an error and leaves an existing file of that name as it was.',
  ['fault_sequences'],'every position at which a write can fail x every format x every table',
  'No fault is ever injected.',
  ['db/convert/packer.go','db/format/plain/packer.go','db/format/memip/packer.go',WR],
  [('write results','pack functions of the three formats'),('format check','db/convert/packer.go:PackFile')],['convert.PackWriter','convert.PackFile'])
p('C19','A cut-off or padded database file is refused, not served',
  'Opening (for query or dump) an ipdb file that was cut off at any byte or has bytes appended, or an awdb file cut off at any byte, returns an error and never crashes (bytes that only a member of the metadata the reader ignores points at are left open); so does opening a file that does not exist or has an unknown extension. Complete files open however small they are (an IPv4 awdb has to answer 8.8.8.8, which is looked up when it is opened).',
  ['crash_points','inputs'],'every truncation point and padding of every database file',
  'No test opens any file; each truncation point is a different input.',
  [RD,'db/format/awdb/reader.go',Q,'db/convert/dumper.go'],
  [('size check',RD+':newReaderFromBytes'),('metadata marker','db/format/awdb/reader.go:FromBytes'),('bounds checks','db/format/awdb/decoder.go'),('missing file',Q+':NewDb')],
  ['query.NewDb','query.NewDbFromBytes','convert.DumpFile'])
p('C20','Answers do not depend on history, concurrency or what callers do with them',
  'An opened database gives the same answer for an address at any time: after any other queries, from any number of concurrent callers, for addresses that were pre-cached or not, and after callers modified records they received earlier. Its version information stays the same in the same way, whatever callers do with what they got. Concurrent queries never race.',
  ['schedules','histories'],'every interleaving of queries by any number of callers, and every modification of returned records',
  'Tests issue one query at most, from one goroutine.',
  [QR,Q,RD,'db/format/awdb/querier.go'],[('record cache filled only while opening',QR+':BuildCache'),('returned record',QR+':QueryInternal')],
  ['Db.Query','Db.QueryStr','Db.QueryU32'],[('queryCache','records decoded ahead',QR)])
p('C21','The Go, Java and Rust readers answer alike',
  'For every ipdb file with Chinese records and every plainly written IPv4 or IPv6 address (the ::ffff:a.b.c.d form included), the Go, Java and Rust readers either all return a record with the same country, province, city, isp, asn, continent, line and district, or all report an error, whatever was asked before and whatever callers did with the records they got. They also agree on the version string (a file that has none is called "ipip.net-" and its build, which Go writes as a day, Java and Rust as seconds), the number of nodes, the build time, the extra information and the address families of the file.',
  ['inputs'],'every ipdb file x every address',
  'The Java tests need a file on the author\'s disk and Rust has no tests; nothing compares the readers.',
  [RD,QR,'java/src/main/java/qiniu/uip/db/format/ipdb/Reader.java','java/src/main/java/qiniu/uip/db/Query.java','rust/src/formats/ipdb/reader.rs','rust/src/formats/ipdb.rs','rust/src/query.rs'],
  [('Go',RD),('Java','java/src/main/java/qiniu/uip/db/format/ipdb/Reader.java'),('Rust','rust/src/formats/ipdb/reader.rs')],
  ['Db.QueryStr (Go)','qiniu.uip.db.Query.query (Java)','QueryDb::query_str (Rust)'])
p('C22','The HTTP service answers exactly what the library answers',
  'GET /<address> returns status 200 with the JSON of exactly the record a query for that address returns (empty fields omitted), and status 404 with an empty body when the query fails or the path is not an address; GET /version returns the database\'s version information as JSON. Requests in any number and order, also concurrently, do not affect each other. What happens to the file while it is served does not matter. A service that cannot open its file or listen at its address ends instead of serving.',
  ['inputs','schedules','histories'],'every request path x every database x every interleaving of requests',
  'The server has no tests.',
  ['cmd/server/server.go','cmd/server/main.go','db/inf/db_inf.go'],[('handlers','cmd/server/server.go:ListenAndServe')],['HTTP responses of the server command'])
p('C23','awdb lookups are right for all record sizes and for IPv4 in IPv6 databases',
  'For every awdb search tree with 24-, 28- or 32-bit records, IPv4 or IPv6, whose records hold text values, each address is answered with the record of the unique leaf on its path and that leaf\'s network, whatever the value of the pointers; in an IPv6 database an IPv4 address is answered from the tree below ::/96, with the prefix length counted in IPv4 bits, or with the IPv6 network holding ::/96 when one leaf covers all of it. A query\'s country, province, city, isp, asn, continent and line are the record\'s country, province, city, isp, asnumber, continent and line.',
  ['inputs'],'every tree shape x record size x address of either family',
  'No test opens an awdb file.',
  ['db/format/awdb/reader.go','db/format/awdb/node.go','db/format/awdb/querier.go'],
  [('node decoding','db/format/awdb/node.go'),('descent','db/format/awdb/reader.go:traverseTree,setIPv4Start,cidr')],['Db.Query','awdb.Reader.LookupNetwork','awdb.Reader.Lookup','awdb.Reader.LookupOffset'])
p('C24','Iterating an awdb tree yields every network once, in order',
  'Iterating all networks of an awdb database yields exactly the networks that hold a record, each once, in ascending order, with the record a lookup gives; iterating within a network of the database\'s own family yields exactly those inside it, or the single network that contains it, and finishes without error.',
  ['inputs'],'every tree shape x every enclosing network',
  'No test.',
  ['db/format/awdb/traverse.go'],[('explicit stack of pending right subtrees','db/format/awdb/traverse.go:Next')],['awdb.Reader.Networks','awdb.Reader.NetworksWithin'],
  [('nodes','subtrees still to visit','db/format/awdb/traverse.go')])
p('C25','awdb records decode to the values written, through any pointers',
  'A value stored in an awdb data section - strings and bytes of any length, unsigned and signed integers, big integers, floats, booleans, maps and arrays, nested and with any keys or values replaced by pointers of any size - decodes to exactly that value, into generic values and into structs and typed maps; a field a struct does not have is skipped without disturbing the others. A pointer cycle, nesting deeper than allowed (512), a value that is cut off, and a value that does not fit the type it is decoded into are errors, not crashes. (Text into a byte slice and bytes into a string are left open.)',
  ['inputs'],'every value x every choice of encoding (size class, pointer width, sharing)',
  'No test decodes anything.',
  ['db/format/awdb/decoder.go'],[('control bytes and sizes','db/format/awdb/decoder.go:decodeCtrlData,sizeFromCtrlByte'),('pointers','db/format/awdb/decoder.go:decodePointer,decodeKey,nextValueOffset')],['awdb.Reader.Decode','awdb.Reader.Lookup','awdb.Reader.Metadata'])
p('C26','memip text keeps every address\'s view',
  'Packing a single-family table as memip and dumping it again gives, for every covered address, the same province, district, ISP, country and continent, where empty, missing and 保留... values read 默认, an ISP other than 电信/联通/移动 reads 其他, and the district in 香港, 澳门, 台湾 reads 默认; no address is added or lost. Consecutive touching networks whose views differ at most in the city form one line; others stay apart. Spaces, hyphens and line breaks in values read as underscores. (Continent codes read as Chinese names; the city shown for a merged line is left open.)',
  ['inputs'],'every ordered table of either family and every text in it',
  'No test.',
  ['db/format/memip/packer.go','db/format/memip/dumper.go'],[('view','db/format/memip/packer.go:covertValues'),('ranges','db/format/memip/packer.go:pack'),('parsing','db/format/memip/dumper.go:parseLine')],['convert.PackBytes(".memip")','format.GetDumpFormat(".memip")'])
p('C27','Scan text round-trips a table',
  'Packing a table as scan text and dumping it again, with no rule or with a rule listing the fields, gives the same fields, version information, networks in the same order and values, with only commas, tabs and line breaks in values turned into underscores; with a rule the rows are those the rule exports. A malformed line is an error.',
  ['inputs','configurations'],'every table of either family x every rule',
  'No test.',
  ['db/format/plain/packer.go','db/format/plain/dumper.go'],[('writing','db/format/plain/packer.go:pack'),('parsing','db/format/plain/dumper.go:newDumper,parseLine,Dump')],['convert.PackBytes(".scan")','format.GetDumpFormat(".scan")'])
p('C28','Version information survives packing and conversion',
  'An ipdb packed from a table reports, when opened or dumped, the table\'s version string, address family and extra information unchanged, the language CN, and a build time within the packing; a file without a version string reports "ipip.net-" and its build date (in UTC). An awdb reports "ipplus360" followed by its database type, its build time, family and languages. Both report the number of nodes of their tree (Count), and HasIpV4, HasIpV6, IsIpV4, IsIpV6 and IsIpAll say what the family says.',
  ['inputs'],'every version string, family and extra information',
  'No test reads version information.',
  ['db/format/ipdb/fields.go',RD,'db/format/awdb/reader.go','db/inf/db_inf.go'],[('metadata','db/format/ipdb/fields.go:buildMeta'),('reading',RD+':version')],['Db.VersionInfo','IpData.Version'])
p('C29','All ways to write an address mean the same address, and its order is numeric',
  'Querying by text, by 32-bit number, by 4-byte, by 16-byte or by ::ffff: form gives the same result; number and address conversions are inverse to each other; and comparison, successor, last address of a network and network of an address agree with the numeric order of addresses, and networks are ordered IPv4 first, then longer prefix first, in both families and with every byte carry.',
  ['inputs'],'every address of both families in every written form',
  'Tests check a few IPv4 conversions.',
  [IP,NT,Q],[('conversions',IP+':Uint32ToIPv4,IPv4ToUint32,Uint64ToIP,Uint64ToIP2'),('order',IP+':IPLess,NextIP'),('networks',IP+':IpNet,'+NT+':LastIP,NextStart,MaskLess')],['Db.QueryStr','Db.QueryU32','Db.Query','ipnet functions'])
p('C30','Whatever bytes a database file holds, it is answered or refused, never a crash',
  'Opening, querying, iterating or dumping damaged or hostile bytes of any format (ipdb, awdb, scan, memip) ends with an answer or an error: no crash, no endless loop, no memory out of proportion to the file (at most 100 MB for small files). Where the search tree of an ipdb or awdb file is readable, however odd (cycles, shared parts, damaged records elsewhere), an address whose path ends at a readable record gets exactly that record and the length of its path, and any other address an error (the error for missing data only where the tree ends without a record, not for damage or for IPv6 in a file of IPv4 addresses); a dump or iteration yields the networks in order and does not claim success where the tree does not allow it. (Left open: files built on purpose so that shared parts or pointers unfold exponentially, and what a pointer into the middle of other data shows.)',
  ['inputs'],'every file content x every address',
  'No test opens a damaged file; damage has no end of shapes.',
  [RD,'db/format/awdb/reader.go','db/format/awdb/decoder.go','db/format/awdb/traverse.go','db/format/plain/dumper.go','db/format/memip/dumper.go'],
  [('ipdb metadata and node bounds',RD+':newReaderFromBytes,resolve'),('awdb metadata',"db/format/awdb/reader.go:FromBytes"),('values','db/format/awdb/decoder.go')],
  ['query.NewDbFromBytes','Db.Query','awdb.Reader.Networks','format.GetDumpFormat'])
p('C31','A table a format cannot hold is refused, not written as another table',
  'Packing as ipdb, scan or memip a table in which any row has another number of values than the table has fields fails with an error, and so does packing as ipdb a row with a value that holds a tab; a pack that succeeds holds every row under its own fields. (A row that is left out because it overlaps an earlier one need not be reported.)',
  ['inputs'],'every table x every position of a row that does not fit x every format',
  'No test packs a table that does not fit.',
  ['db/format/ipdb/writer.go','db/format/ipdb/packer.go','db/format/plain/packer.go','db/format/memip/packer.go'],
  [('ipdb','db/format/ipdb/writer.go:insert'),('scan','db/format/plain/packer.go:pack'),('memip','db/format/memip/packer.go:pack')],['convert.PackBytes','convert.PackFile'])
p('C32','The self checks report what the database says',
  'CheckV4 succeeds exactly when the database answers 8.8.8.8 with country 美国 and 119.29.29.29 with 中国, CheckV6 exactly when it answers 2001:4860:4860::8888 and 2606:4700:4700::1111 with 美国; otherwise they report, for the first address that is not so, the error of its query or that the check failed. Checking changes nothing.',
  ['inputs'],'every database of either format and family',
  'No test calls the self checks.',
  [Q],[('checks',Q+':CheckV4,CheckV6')],['Db.CheckV4','Db.CheckV6'])
p('C33','The Java and Rust readers answer or refuse damaged ipdb files, too',
  'Whatever bytes an ipdb file holds, opening and querying it with the Java or the Rust reader ends in an answer or a reported error (a declared exception in Java, Err in Rust), never in a panic, an unchecked exception or an endless loop; so does asking for text that is no address. A file that was cut off at any byte or has bytes appended, that does not exist, or (Java) whose name has no or an unknown extension is refused when it is opened. Where the search tree is readable, however odd, both open the file, and an address whose path ends at a readable record gets exactly that record, any other address an error.',
  ['inputs'],'every file content x every address x two readers',
  'No test opens a damaged file.',
  ['java/src/main/java/qiniu/uip/db/format/ipdb/Reader.java','java/src/main/java/qiniu/uip/db/Query.java','rust/src/formats/ipdb/reader.rs'],
  [('Java bounds','java/src/main/java/qiniu/uip/db/format/ipdb/Reader.java:Reader,resolveNode,readNode'),('Rust bounds','rust/src/formats/ipdb/reader.rs:new,resolve_node,read_node')],
  ['qiniu.uip.db.Query','qnip::query::QueryDb'])
p('C34','The command line tools print what the library answers',
  'cmd/simple FILE ADDRESS prints exactly the record a query of that file for that address returns, all its fields, and prints no record when the query fails, the address is none or the file cannot be opened; cmd/simple FILE version prints the version information of the database. The Rust command (query FILE ADDRESS) prints the same record of an ipdb file, or an error.',
  ['inputs'],'every file x every address',
  'No test runs a command.',
  ['cmd/simple/main.go','rust/src/bin/query.rs','rust/src/data.rs'],[('Go command','cmd/simple/main.go:main'),('Rust command','rust/src/bin/query.rs:main')],['standard output of the commands'])
p('C35','A packed ipdb is a file any ipdb reader understands',
  'A packed ipdb follows the published layout, so that readers of other makers find in it what was packed: metadata that states the address family (ip_version), node count, total size of what follows, fields under the names of the format (country_name, continent_code, ...) and the language CN at offset 0; following the bits of an address through the nodes (IPv4 addresses below ::ffff:0:0/96, also in an IPv4-only file) ends at the record of its network, which holds exactly the packed values in the order of the fields, continents as their two-letter codes, and equal records are stored once; where the file has no network it ends at the empty node, the one behind the last, whose both branches lead back to itself.',
  ['inputs'],'every table x every address',
  'Tests only read files back with the same code.',
  ['db/format/ipdb/writer.go','db/format/ipdb/packer.go','db/format/ipdb/fields.go'],[('nodes and records','db/format/ipdb/writer.go:insert,Nodes,Fields,Save'),('metadata','db/format/ipdb/fields.go:buildMeta,covertFields')],['convert.PackBytes(".ipdb")','convert.PackFile'])
p('C36','A failed conversion says why and touches no other file',
  'When a conversion cannot be done, because the line database or the input is missing, of an unknown format, cut off or does not cover its addresses, or an output cannot be written (unknown format, no such directory, a record too long for ipdb), the converter prints the error of the library and stops: outputs named before the failing one are complete, files of outputs named after it and all other files are as they were, and an output of unknown format is not created or changed. When it succeeds every output is complete, whatever a file of that name held before, also when the input itself or one name twice is among the outputs.',
  ['fault_sequences','configurations'],'every list of outputs x what is wrong with input, line database and outputs x what the files held before',
  'No test runs the converter, none packs over an existing file.',
  ['cmd/converter/main.go','db/convert/dumper.go','db/convert/packer.go'],[('converter','cmd/converter/main.go:main'),('output file','db/convert/packer.go:PackFile')],['files and output of the converter','convert.DumpFile','convert.PackFile'])
p('C37','Work on several databases at the same time does not mix',
  'Opening and asking, dumping (with any rule), processing, packing and converting are functions of their input: the same work on the same input gives the same result (apart from time stamps) whenever it is done, after whatever other work, and also while other goroutines do the same or other work, on the same input or another one; and what was returned stays as it was. Nothing of it changes the bytes it reads or the table it packs, and none of it races.',
  ['schedules','histories'],'every set of jobs of all kinds and formats x every interleaving x every order',
  'Tests do one thing at a time, once.',
  ['db/convert/dumper.go','db/convert/packer.go','db/field/operate/replace.go','db/field/operate/line.go','db/field/export/export.go','db/format/ipdb/writer.go','db/format/awdb/decoder.go','db/format/memip/packer.go','db/format/plain/packer.go'],
  [('dump','db/convert/dumper.go:DumpFile'),('pack','db/convert/packer.go:PackWriter'),('process','db/field/operate/operate.go:DefaultOperates')],['convert.DumpFile','convert.PackBytes','convert.PackFile','operate functions','query.NewDbFromBytes'])
p('C38','The Java reader may be shared by threads',
  'However many threads ask one open database of the Java reader at the same time, also while others open and ask databases of their own and change the records and version information they got, every answer is the one a single caller gets: the record the file holds for that address, or an error. No thread ends with an unchecked exception or waits for ever, and the version information is the same for all.',
  ['schedules','histories'],'every number of threads x every interleaving x every address',
  'The Java tests use one thread.',
  ['java/src/main/java/qiniu/uip/db/Query.java','java/src/main/java/qiniu/uip/db/format/ipdb/Reader.java','java/src/main/java/qiniu/uip/db/format/ipdb/Ipdb.java','java/src/main/java/qiniu/uip/util/IPAddress.java'],
  [('query','java/src/main/java/qiniu/uip/db/Query.java:query'),('find','java/src/main/java/qiniu/uip/db/format/ipdb/Reader.java:find0')],['qiniu.uip.db.Query'])
out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), 'properties.jsonl')
with open(out, 'w') as f:
    for x in P: f.write(json.dumps(x, ensure_ascii=False) + '\n')
print(len(P), 'properties')
