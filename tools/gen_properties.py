#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (the source of truth for the property texts)."""
import json, os
P=[]
def prop(id,title,statement,over,qtext,why,files,mech,state=(),observe=(),hook=None):
    P.append(dict(id=id,title=title,statement=statement,
      quantifier=dict(over=over,text=qtext),why_tests_cant=why,
      anchors=dict(files=files,
        state=[dict(name=n,meaning=m,where=w) for n,m,w in state],
        mechanism=[dict(name=n,where=w) for n,w in mech],
        observe_at=list(observe),hook_needed=hook)))
S='src/'
ALL=['src/hive.rs','src/key_node.rs','src/key_value.rs','src/key_values_list.rs','src/big_data.rs','src/leaf.rs','src/index_root.rs','src/subkeys_list.rs','src/string.rs','src/helpers.rs']

prop('C01','No public operation panics, whatever the hive bytes are',
 'For every byte slice passed as a hive and every sequence of public calls on the objects obtained from it (with any arguments), no call panics: no failed assertion or unwrap, no out-of-bounds slice access, no arithmetic overflow (overflow checks on), no explicit panic; corrupt bytes are reported as an NtHiveError instead.',
 ['inputs','histories'],'all byte slices of any length, all arguments (including extreme iterator indices), all call sequences on the resulting handles, overflow checks enabled',
 'The 11 tests read one well-formed hive; the panicking paths need specific corrupt offsets, sizes, counts and signatures (2^32 values per field, combined).',
 ALL,[('byte_subrange does checked range arithmetic','src/helpers.rs'),('cell_range_from_data_offset validates every offset before it is dereferenced','src/hive.rs'),('unwrap()s are guarded by an earlier length check','src/*.rs')],
 state=[('header_range/data_range/items_range','byte ranges into the hive data that every handle carries','src/key_node.rs, src/key_value.rs, src/leaf.rs, src/index_root.rs, src/key_values_list.rs, src/big_data.rs')],
 observe=['every public function and trait method'])

prop('C02','No arithmetic overflow or panic with a 32-bit usize either',
 'The no-panic guarantee also holds where usize has 32 bits: no offset, size or count read from a hive can make an address or length computation overflow or wrap, so a corrupt count or offset is rejected exactly as on a 64-bit machine.',
 ['inputs','configurations'],'all hive bytes, all call sequences, usize of 32 bits',
 'The tests only run on a 64-bit host; a wrap needs a 32-bit target plus a count above 2^30 or an offset near 2^32.',
 ALL,[('count * item size before byte_subrange','src/key_values_list.rs, src/big_data.rs, src/leaf.rs, src/index_root.rs'),('offset_of_data_offset','src/hive.rs')],
 observe=['Hive::root_key_node','KeyNode::values','KeyValue::data','iterators'])

prop('C03','Every read operation terminates; loops make progress',
 'Every public operation returns after finitely many steps for every hive, and each iterator yields at most as many items as the list it iterates declares: every loop makes strict progress towards its bound even when the data is corrupt, and an iterator that reported an error does not report the same entry for ever.',
 ['inputs','histories'],'all hive bytes; all loops reachable from the public API',
 'Non-termination needs a missing or unsorted name at a particular list position or a corrupt entry in the middle of a list; tests use one sorted, valid hive.',
 ['src/key_node.rs','src/index_root.rs','src/leaf.rs','src/big_data.rs','src/key_values_list.rs','src/key_value.rs','src/string.rs'],
 [('binary search window shrinks on every iteration','src/key_node.rs binary_search_subkey_in_leaf, binary_search_subkey_in_index_root'),('next() advances items_range before the entry is decoded','src/leaf.rs, src/index_root.rs, src/key_values_list.rs, src/big_data.rs')],
 observe=['KeyNode::subkey','iterators','KeyValue::string_data','RegMultiSZStrings'])

prop('C04','Hive::new accepts exactly the hives whose base block is valid',
 'Opening a hive with validation succeeds if and only if the base block is complete (4096 bytes), carries the regf signature, equal sequence numbers, major version 1 with minor version at least 3, file type 0 (primary), file format 1 (memory), a data size that is a multiple of 4096 and not larger than the data present, clustering factor 1, and the stored XOR-32 checksum of the first 508 bytes (0 stored as 1, 0xffffffff stored as 0xfffffffe). Opening without validation needs only the 4096 bytes, and a later validate() call gives the same verdict.',
 ['inputs'],'all byte slices',
 'The tests open one valid hive; no test feeds a single invalid header field, a truncated header, or a checksum corner case.',
 ['src/hive.rs'],[('validate() runs all eight checks','src/hive.rs'),('HiveBaseBlock layout','src/hive.rs')],
 observe=['Hive::new','Hive::without_validation','Hive::validate','Hive::major_version','Hive::minor_version'])

prop('C05','A cell is used only if it is allocated, aligned and inside the hive',
 'Any structure the library reads through an on-disk offset lies in a cell whose 4-byte size field is negative (allocated), whose magnitude is a multiple of 8, and whose whole extent lies inside the hive data after the base block; otherwise the operation that followed the offset reports an error. Conversely an offset to a cell that satisfies these rules and holds the expected structure is accepted.',
 ['inputs'],'all hive bytes, all offsets stored in them',
 'Tests contain only valid, allocated cells; the rejecting branches (free, unaligned, truncated, out-of-range cells) are never executed.',
 ['src/hive.rs','src/helpers.rs','src/key_node.rs','src/key_value.rs'],[('cell_range_from_data_offset','src/hive.rs'),('byte_subrange','src/helpers.rs')],
 observe=['Hive::root_key_node','KeyNode::subkeys','KeyNode::values','KeyNode::class_name','KeyValue::data'])

prop('C06','Structures are used only under their own signature',
 'A key node, key value, big data record or subkeys list is interpreted as such only if its cell begins with nk, vk, db, or lf/lh/li/ri respectively and is long enough for its header; lists referenced from an index root must be lf/lh/li with at least one entry (index roots never nest). Anything else is reported as an error naming the signature or size, and correctly signed structures are never refused for their signature.',
 ['inputs'],'all hive bytes',
 'The test hive has only correct signatures; accepting an extra or wrong one, or swapping two lists types, changes no test.',
 ['src/key_node.rs','src/key_value.rs','src/big_data.rs','src/subkeys_list.rs','src/leaf.rs','src/index_root.rs'],
 [('validate_signature of each structure','src/key_node.rs, src/key_value.rs, src/big_data.rs, src/subkeys_list.rs'),('count == 0 rejection','src/leaf.rs from_index_root_item_range')],
 observe=['Hive::root_key_node','KeyNode::subkeys','KeyNode::values','KeyValue::data'])

prop('C07','Key names and class names are exactly the bytes the key node declares',
 'The name of a key is exactly the key-name-length bytes that follow the 76-byte nk header, inside the key\'s cell, read as Latin1 if and only if flag 0x0020 is set and as UTF-16LE otherwise; the class name is absent if and only if its offset is 0xffffffff, and otherwise is exactly the declared number of bytes at the start of the referenced cell, as UTF-16LE. A length that does not fit the cell is an error, never a truncated or overlong name.',
 ['inputs'],'all hive bytes, all key nodes reachable in them',
 'Tests look at a few names; a wrong length bound, flag bit or cell bound shows only with crafted lengths.',
 ['src/key_node.rs'],[('name(), class_name()','src/key_node.rs'),('KeyNodeHeader layout and KeyNodeFlags','src/key_node.rs')],
 observe=['KeyNode::name','KeyNode::class_name'])

prop('C08','Value data is exactly the declared bytes, wherever it is stored',
 'For every key value, a successful data() gives exactly data_size() bytes: the first bytes of the data-offset field itself when bit 31 of the size is set (size at most 4), the start of the referenced cell when the size is at most 16344, and otherwise the concatenation of big-data segments in list order, each contributing 16344 bytes except the last; the value name is the declared bytes after the 20-byte header, Latin1 iff flag 0x0001. Sizes that do not fit their cell, their segment list or the inline field are errors.',
 ['inputs'],'all hive bytes, all key values, sizes 0 to 2^31-1',
 'The tests cover three sizes around one boundary and one multi-segment value, all well-formed.',
 ['src/key_value.rs','src/big_data.rs'],[('data(), data_size(), name()','src/key_value.rs'),('BigDataSlices::next and BIG_DATA_SEGMENT_SIZE','src/big_data.rs')],
 state=[('bytes_left','bytes of the value not yet returned','src/big_data.rs BigDataSlices')],
 observe=['KeyValue::data','KeyValue::data_size','KeyValue::name','KeyValueData::into_vec','BigDataSlices'])

prop('C09','Typed accessors check type and size and decode with the right endianness',
 'The data type reported is the one stored (codes 0 to 11 as in the Windows API; any other code is an error). dword_data and qword_data succeed only for REG_DWORD / REG_DWORD_BIG_ENDIAN with exactly 4 bytes and REG_QWORD with exactly 8 bytes, and return the little-endian value (big-endian for REG_DWORD_BIG_ENDIAN); string_data succeeds only for REG_SZ and REG_EXPAND_SZ, multi_string_data only for REG_MULTI_SZ. Every value with the right type, size and readable data is accepted.',
 ['inputs'],'all hive bytes, all type codes, sizes and contents',
 'Tests read one value per type with matching type and size; mismatching combinations are never tried.',
 ['src/key_value.rs'],[('dword_data, qword_data, string_data, multi_string_data, data_type','src/key_value.rs'),('KeyValueDataType discriminants','src/key_value.rs')],
 observe=['KeyValue::dword_data','KeyValue::qword_data','KeyValue::string_data','KeyValue::multi_string_data','KeyValue::data_type'])

prop('C10','String data decodes independently of how it is split into segments',
 'The text of REG_SZ, REG_EXPAND_SZ and REG_MULTI_SZ data is the UTF-16LE decoding of the whole byte sequence: it does not depend on where big-data segment boundaries fall, in particular a character encoded by two code units that lie in different segments is decoded as that character.',
 ['inputs'],'all string values longer than one segment, all contents',
 'The only multi-segment test string is ASCII, where a per-segment decoder and a whole-value decoder agree.',
 ['src/key_value.rs','src/big_data.rs'],[('utf16le_to_string_lossy','src/key_value.rs'),('RegMultiSZStrings::next','src/key_value.rs')],
 observe=['KeyValue::string_data','KeyValue::multi_string_data'])

prop('C11','subkey() finds a key if and only if the list contains it',
 'subkey(name) returns only a child whose name equals the given name case-insensitively, and on a subkeys list that is sorted (in the order the library itself defines) it returns none only if no child has that name, for single leaves and for index roots with any number of leaves of any size. The root of the list being absent means none; corrupt entries met on the way are reported as errors.',
 ['inputs'],'all hive bytes, all names, all list shapes (leaf type, entry counts 0..65535, index root fan-out)',
 'The test hive has one 512-entry list whose names are searched; other sizes, fan-outs and non-members at every position are not.',
 ['src/key_node.rs','src/leaf.rs','src/index_root.rs','src/subkeys_list.rs'],[('binary_search_subkey_in_leaf, binary_search_subkey_in_index_root','src/key_node.rs')],
 state=[('left, right','bounds of the window that can still contain the name','src/key_node.rs')],
 observe=['KeyNode::subkey'])

prop('C12','value() returns the first value with that name, or reports why not',
 'value(name) examines the values of the key in list order and returns the first one whose name equals the given name case-insensitively; it returns none only after every declared value was read successfully and none matched (or the key has no values); an unreadable entry or name met before a match is reported as an error and never returned as a match.',
 ['inputs'],'all hive bytes, all names, all value counts',
 'Tests look up existing names in lists without corrupt entries.',
 ['src/key_node.rs','src/key_values_list.rs'],[('KeyNodeItemRange::value','src/key_node.rs')],
 observe=['KeyNode::value'])

prop('C13','Iterators visit every list entry exactly once, in order',
 'Iterating the values of a key yields, for each of the declared entries in list order, either the key value at that entry\'s offset or an error; iterating the subkeys yields the same for the entries of a leaf, or for the entries of each leaf of an index root in turn. No entry is skipped, repeated or read from beyond the declared count, and iteration ends only after the last entry.',
 ['inputs','histories'],'all hive bytes, all counts, lists of every type',
 'Tests iterate one valid list (and stop at the shorter of two sequences, so missing entries pass).',
 ['src/leaf.rs','src/index_root.rs','src/key_values_list.rs','src/subkeys_list.rs'],[('LeafItemRanges::next, IndexRootItemRanges::next, KeyValuesListItemRanges::next','src/leaf.rs, src/index_root.rs, src/key_values_list.rs'),('IndexRootKeyNodes::next','src/index_root.rs')],
 observe=['KeyNode::subkeys','KeyNode::values'])

prop('C14','Iterator shortcuts agree with stepping: size_hint, count, nth, last, fused',
 'For every public iterator in every reachable state: size_hint (and len where offered) bounds the number of items next() will still yield, exactly where the iterator claims an exact size; count() gives that number; nth(n) yields what the (n+1)-th call of next() would and leaves the iterator in the same position; last() yields the final item; and once next() or nth() returned None every later next() returns None.',
 ['inputs','histories'],'all iterator states reachable by any sequence of next/nth calls, all n up to usize::MAX',
 'No test calls size_hint, count, nth or last on these iterators.',
 ['src/leaf.rs','src/index_root.rs','src/key_values_list.rs','src/big_data.rs','src/subkeys_list.rs','src/key_value.rs'],[('hand-written count/last/nth/size_hint and the ExactSizeIterator/FusedIterator impls','src/leaf.rs, src/key_values_list.rs, src/big_data.rs, src/subkeys_list.rs, src/key_value.rs')],
 observe=['SubKeyNodes','LeafKeyNodes','IndexRootKeyNodes','KeyValues','BigDataSlices','RegMultiSZStrings'])

prop('C15','Name comparison is one consistent case-insensitive total order',
 'Comparing two names, or a name with a str in either operand order, orders them lexicographically by UTF-16 code units after mapping each unit to upper case, a proper prefix being smaller; ==, partial_cmp and cmp agree with each other and with swapped operands, and the result does not depend on whether a name is stored as Latin1 or UTF-16LE.',
 ['inputs'],'all pairs of names and strs',
 'Tests compare about twenty pairs; swapped operands, prefixes and mixed encodings are sampled once or not at all.',
 ['src/string.rs'],[('cmp_iter and the PartialEq/PartialOrd/Ord impls','src/string.rs'),('utf16_code_unit_to_uppercase','src/string.rs')],
 observe=['NtHiveNameString comparison traits'])

prop('C16','The upper-case mapping is the simple Unicode mapping of the BMP',
 'Case-insensitive name comparison maps each UTF-16 code unit by the one-to-one (simple) Unicode upper-case mapping of the Basic Multilingual Plane and leaves every other unit, including surrogates, unchanged; the lookup finds every entry of the table.',
 ['inputs'],'all 65536 code units',
 'Tests exercise three mapped characters out of 1185.',
 ['src/string.rs'],[('BMP_UPPERCASE_TABLE','src/string.rs'),('binary search needs the table sorted','src/string.rs utf16_code_unit_to_uppercase')],
 observe=['NtHiveNameString comparison traits'])

prop('C17','Name conversions agree with the stored characters',
 'Displaying a name, to_string_lossy and to_string_checked produce one character per Latin1 byte, or the UTF-16LE decoding of the stored units with undecodable units replaced by U+FFFD (to_string_checked gives none instead, and only then); len() is the stored byte length and is_empty() is len() == 0.',
 ['inputs'],'all names, both encodings, including unpaired surrogates and odd lengths',
 'Only len and is_empty have tests, on two strings.',
 ['src/string.rs'],[('Display, to_string_checked, to_string_lossy, len, is_empty','src/string.rs')],
 observe=['NtHiveNameString'])

prop('C18','Clearing volatile subkeys writes nothing but zeroed volatile counts',
 'The only bytes of the hive any operation ever changes are the four bytes of the volatile-subkey-count field (offset 24) of nk-signed key nodes in valid cells, which clear_volatile_subkeys sets to zero; all other operations leave the hive bytes untouched.',
 ['inputs','histories'],'all hive bytes, all operations',
 'The only test of this operation checks that it returns Ok; it never compares bytes.',
 ['src/hive.rs','src/key_node.rs'],[('header_mut is the only way to a mutable view','src/key_node.rs'),('KeyNodeMut::clear_volatile_subkeys','src/key_node.rs')],
 observe=['Hive::clear_volatile_subkeys'])

prop('C19','Clearing volatile subkeys reaches every key or reports an error',
 'When clear_volatile_subkeys returns Ok, the root key and every key reachable from it through subkeys lists (leaves and index roots, every entry) has had its volatile count set to zero; if any key or list on the way cannot be read it returns that error.',
 ['inputs'],'all hive bytes, all tree shapes',
 'The test does not look at the result; skipping a branch or swallowing an error passes.',
 ['src/hive.rs','src/key_node.rs','src/index_root.rs','src/leaf.rs','src/subkeys_list.rs'],[('clear_volatile_subkeys recursion','src/key_node.rs'),('IndexRootKeyNodesMut::next, LeafKeyNodesMut::next mirror the read iterators','src/index_root.rs, src/leaf.rs')],
 observe=['Hive::clear_volatile_subkeys'])

prop('C20','A detected corruption is always reported, never swallowed',
 'Whenever reading some structure fails while an operation runs, that operation (or that iterator step) returns the error: a failure is never turned into "not found", an empty result, a default value or a successful result.',
 ['inputs'],'all hive bytes, all public operations',
 'No test contains corrupt data, so every error path is unexecuted.',
 ALL,[('? and iter_try! propagate every Result','src/*.rs')],
 observe=['every fallible public function'])

prop('C21','Errors name the faulty on-disk field and its real values',
 'The offset carried by an error is the file offset (from the start of the hive bytes) of the field or structure that is at fault, and the values it carries are the ones stored on disk or required there, so that two different corruptions are distinguishable.',
 ['inputs'],'all hive bytes, all error-returning paths',
 'No test inspects an error.',
 ['src/error.rs','src/hive.rs','src/key_node.rs','src/key_value.rs','src/leaf.rs','src/subkeys_list.rs','src/big_data.rs'],[('offset_of_field, offset_of_data_offset','src/hive.rs')],
 observe=['NtHiveError'])

prop('C22','Handles borrow from the hive only, and exclude mutation while alive',
 'Keys found by subkey, subkeys or subpath, values, value names, value data and their iterators stay usable after the handle they were obtained from is gone, for as long as the hive is borrowed; none of them can outlive the hive or its bytes, and the hive cannot be modified while any of them is alive. Violating programs do not compile.',
 ['programs'],'all client programs',
 'Tests keep every parent handle in scope, so a shortened lifetime compiles; a lengthened one cannot be tested at run time.',
 ['src/key_node.rs','src/key_value.rs','src/hive.rs','src/leaf.rs','src/index_root.rs','src/key_values_list.rs'],[('lifetime parameter h on every handle','src/key_node.rs, src/key_value.rs'),('clear_volatile_subkeys takes &mut self','src/hive.rs')],
 observe=['signatures of the public API'])

prop('C23','Safe, stateless and thread-shareable',
 'The library contains no unsafe code, no mutable or interior-mutable state (global, per handle or hidden behind a reference) and performs no I/O or environment access, so repeating a read on the same bytes gives the same result; hives, keys, values and their iterators are Send and Sync when the underlying bytes are.',
 ['programs','schedules'],'all client programs and thread schedules',
 'Unsafe code, a cache in a Cell or a lost auto trait changes no single-threaded result.',
 ['src/lib.rs','src/hive.rs','src/key_node.rs','src/key_value.rs'],[('#![forbid(unsafe_code)]','src/lib.rs'),('plain range/reference fields only','src/*.rs')],
 observe=['crate type structure'])

prop('C24','Core reading works without std and without allocation',
 'With default features off the library uses nothing from std or alloc and still offers opening, navigating, looking up and reading raw data; with alloc or std on, only the operations that return owned strings or vectors (and error formatting) allocate, everything else is zero-copy.',
 ['configurations','programs'],'all feature combinations; all call paths of the non-allocating API',
 'Tests run with all features on; an allocation on a read path or a std dependency in the no_std build passes them.',
 ['src/lib.rs','Cargo.toml','src/key_value.rs','src/string.rs'],[('cfg(feature = "alloc") gates','src/key_value.rs, src/string.rs'),('cfg_attr(not(feature = "std"), no_std)','src/lib.rs')],
 observe=['feature matrix, call graph'])

prop('C25','On-disk fields are read little-endian and without alignment requirements',
 'Every multi-byte field of the on-disk structures is decoded as little-endian on every host and at any address, from the offset the regf format assigns to it; no result depends on host endianness or on the alignment of the byte slice.',
 ['inputs','configurations'],'all hosts, all slice alignments',
 'Tests run on a little-endian x86 host that tolerates native reads, with an aligned buffer.',
 ['src/hive.rs','src/key_node.rs','src/key_value.rs','src/leaf.rs','src/index_root.rs','src/key_values_list.rs','src/big_data.rs','src/subkeys_list.rs'],[('zerocopy LittleEndian integer types, repr(packed), Unaligned','every on-disk struct')],
 observe=['all field accessors'])

prop('C26','subpath() equals step-by-step subkey lookups',
 'subpath(path) returns what following subkey() for each non-empty backslash-separated component in order would return, starting at the key itself: empty components are skipped, an empty path gives the key itself, the first missing component gives none, and the first error is returned.',
 ['inputs'],'all hive bytes, all paths',
 'Tests try a dozen short paths on one hive, without errors on the way.',
 ['src/key_node.rs'],[('subpath','src/key_node.rs')],
 observe=['KeyNode::subpath'])

prop('C27','Handle equality identifies the on-disk item',
 'Two key handles, or two value handles, compare equal exactly when they belong to the same hive object and denote the same on-disk cell, no matter how they were obtained.',
 ['inputs','histories'],'all pairs of handles',
 'One test compares two lookups of one key.',
 ['src/key_node.rs','src/key_value.rs'],[('PartialEq for KeyNode, KeyValue','src/key_node.rs, src/key_value.rs')],
 observe=['KeyNode ==','KeyValue =='])

prop('C28','Subkey lookup probes only logarithmically many children',
 'Each probe of a subkey lookup at least halves the part of the leaf (or of the index root) that is still considered, so a lookup among n children reads O(log n) of them.',
 ['inputs'],'all list sizes and names',
 'Tests only observe the result of a lookup, not the number of entries read.',
 ['src/key_node.rs'],[('mid = (left + right) / 2 and one-sided updates','src/key_node.rs')],
 observe=['KeyNode::subkey'])

prop('C29','Hives written by every supported Windows version read as Windows reads them',
 'For every hive file produced by Windows NT 4.0 to Windows 10, keys, values and data reported by the library are those the Windows registry API reports for that file.',
 ['inputs'],'all hive files written by real Windows versions',
 'One hive generated with one offreg version is tested.',
 ['src/hive.rs','src/key_value.rs','testdata/testhive'],[('minor version check','src/hive.rs')],
 observe=['whole API'])

prop('C30','The readhive example prints the complete tree',
 'The readhive example prints every key, class name, value and value data reachable from the root exactly once, indented by depth, and fails with a message instead of printing a partial tree when some structure is unreadable.',
 ['inputs'],'all hive files',
 'The example has no test.',
 ['examples/readhive.rs'],[('process_subkey','examples/readhive.rs')],
 observe=['example output'])

out=os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))),'properties.jsonl')
with open(out,'w') as f:
    for p in P: f.write(json.dumps(p,ensure_ascii=False)+'\n')
print(len(P))
