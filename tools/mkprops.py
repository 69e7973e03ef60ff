import json
P=[]
def p(id,title,statement,over,text,why,files,mech,observe,state=None,hook=None):
    d=dict(id=id,title=title,statement=statement,quantifier=dict(over=over,text=text),why_tests_cant=why,anchors=dict(files=files,mechanism=[dict(name=n,where=w) for n,w in mech],observe_at=observe,hook_needed=hook))
    if state: d['anchors']['state']=[dict(name=n,meaning=m,where=w) for n,m,w in state]
    P.append(d)
S='src/'
p('C01','No hive content and no call can make the library panic',
 "Whatever bytes a hive consists of (including an unvalidated, truncated or maliciously crafted one), every read operation of the public API returns normally: it never panics, never indexes out of bounds, never overflows an integer, and every single call and every iterator terminates. Malformed data is always reported as an error value (or as an absent item), never as an abort.",
 ['inputs','histories'],"all byte strings as hive contents, all argument values (names, paths, counts), and all sequences of API calls on the handles obtained from them",
 "The 11 tests read one well-formed hive file; the space of corrupt hives and of extreme arguments is never sampled.",
 [S+f for f in ('hive.rs','helpers.rs','key_node.rs','key_value.rs','key_values_list.rs','subkeys_list.rs','leaf.rs','index_root.rs','big_data.rs','string.rs')],
 [('checked range arithmetic before every slice access','src/helpers.rs byte_subrange'),('cell header validation','src/hive.rs cell_range_from_data_offset'),('binary search over 16-bit counts','src/key_node.rs binary_search_*'),('item iterators','src/leaf.rs, src/index_root.rs, src/key_values_list.rs, src/big_data.rs')],
 ['Hive::new','Hive::without_validation','KeyNode::*','KeyValue::*','NtHiveNameString::*','all iterators'])
p('C02','Opening a hive succeeds exactly for a valid base block',
 "Opening a hive with validation succeeds if and only if the buffer holds a full 4096-byte base block whose signature is \"regf\", whose two sequence numbers are equal, whose version is 1.x with x >= 3, whose file type is 0 and file format is 1, whose data size is a multiple of 4096 that fits into the rest of the buffer, whose clustering factor is 1, and whose stored checksum equals the XOR of the 127 preceding little-endian dwords (with 0 replaced by 1 and 0xFFFFFFFF by 0xFFFFFFFE). Otherwise the error reported names the first condition in this order that fails; opening without validation only requires the full base block, and validating later gives the same verdict as opening with validation. The major and minor version reported are the stored ones, and HiveMinorVersion::n names exactly the minor versions 0 to 6 (3 Windows NT 4, 4 Windows XP beta, 5 Windows XP, 6 Windows Vista).",
 ['inputs'],"all byte strings of all lengths",
 "Tests open one valid hive file; no test has a broken header, so neither direction of the equivalence nor the order of the checks is exercised.",
 [S+'hive.rs'],[('individual checks','src/hive.rs validate_*'),('order of the checks','src/hive.rs validate'),('checksum loop','src/hive.rs validate_checksum'),('prefix split','src/hive.rs without_validation')],
 ['Hive::new','Hive::without_validation','Hive::validate','Hive::major_version','Hive::minor_version'])
p('C03','Only allocated, aligned and fully contained cells are ever read',
 "An offset stored in a hive is followed if and only if it denotes a cell whose 4-byte size field lies inside the hive data, is not positive (allocated), has a magnitude that is a multiple of 8 and at least 4, and whose contents fit into the hive data; the bytes used are then exactly the magnitude minus 4 bytes that follow the size field. A structure read from a cell (key, value, list, name, class name, data) always consists of bytes of that cell alone, so that a structure or a name that does not fit into its cell is an error and never runs over into neighbouring bytes.",
 ['inputs'],"all hive contents and all 32-bit offsets stored in them",
 "The test hive only has valid offsets and cells; free, misaligned, overlong or truncated cells never occur.",
 [S+f for f in ('hive.rs','helpers.rs','key_node.rs','key_value.rs','subkeys_list.rs','leaf.rs','index_root.rs','key_values_list.rs','big_data.rs')],
 [('offset to cell','src/hive.rs cell_range_from_data_offset'),('sub-range check','src/helpers.rs byte_subrange'),('header and signature checks','KeyNodeItemRange::from_cell_range, KeyValue::new, SubkeysList::new_internal, BigDataListItemRanges::new')],
 ['Hive::root_key_node','KeyNode::subkeys','KeyNode::values','KeyNode::class_name','KeyValue::data'])
p('C04','Enumerating subkeys yields exactly the listed keys in stored order',
 "Enumerating the subkeys of a key yields, in stored order, one item for every entry of its subkey list, each being the key at that entry's offset or the error that explains why this entry cannot be read: for a leaf list (lf, lh, li) these are its entries, and for an index root (ri) these are the entries of all its leaf lists one after another, where a leaf list that cannot be read or is empty contributes a single error and the enumeration goes on after it. A key without a subkey list reports that there are none, and a list of any other type or one whose entries exceed its cell is an error before the first item.",
 ['inputs'],"all hive contents; all keys reachable in them; all list types and nestings",
 "One hive with one shape of list for each type is enumerated; broken entries, empty leafs and mixed leaf types inside an index root are never sampled.",
 [S+f for f in ('subkeys_list.rs','leaf.rs','index_root.rs','key_node.rs')],
 [('list dispatch by signature','src/subkeys_list.rs SubKeyNodes::new'),('leaf entries','src/leaf.rs LeafItemRanges, LeafKeyNodes'),('index root flattening','src/index_root.rs IndexRootKeyNodes')],
 ['KeyNode::subkeys','SubKeyNodes::next'])
p('C05','Looking up a subkey is sound always and complete on sorted lists',
 "Looking up a subkey by name returns a key only if this key is an entry of the subkey list and its name equals the searched name case-insensitively, no matter what the hive contains. If all entries of the list are readable and sorted in ascending case-insensitive name order (across all leaf lists of an index root), the lookup returns a key exactly when some entry has that name, and reports absence otherwise.",
 ['inputs'],"all hive contents, all list types and lengths, all searched names",
 "Tests look up a handful of names in one hive; the boundary positions of the two nested binary searches for all list lengths and names are not covered.",
 [S+'key_node.rs',S+'leaf.rs',S+'index_root.rs',S+'string.rs'],
 [('search over index root entries by first and last key','src/key_node.rs binary_search_subkey_in_index_root'),('search in a leaf','src/key_node.rs binary_search_subkey_in_leaf'),('name order','src/string.rs NtHiveNameString::partial_cmp')],
 ['KeyNode::subkey'])
p('C06','A path lookup equals looking up its components one after another',
 "Looking up a path gives the same result as splitting it at every backslash, dropping empty components, and looking up the remaining components one after another starting from the given key: the first component that is absent or fails decides the result. In particular, leading, trailing and repeated backslashes make no difference, and an empty path yields the key itself.",
 ['inputs'],"all hive contents, all keys and all path strings",
 "One path in one hive is tested, with no variation of backslashes, missing components or errors on the way.",
 [S+'key_node.rs'],[('component loop','src/key_node.rs KeyNodeItemRange::subpath')],['KeyNode::subpath'])
p('C07','Name comparison is one consistent case-insensitive order',
 "Comparing two names, or a name and a string in either operand order, gives the lexicographic order of their UTF-16 code units after mapping each unit through the simple uppercase mapping of the Basic Multilingual Plane (surrogate units are never mapped), whatever encoding each side is stored in; a proper prefix comes first. Equality, the ordering operators and the comparison function always agree with each other, and the result is a total preorder (antisymmetric up to equality, transitive).",
 ['inputs'],"all pairs and triples of names in both encodings and of strings",
 "Tests compare a dozen strings; the 1185-entry case table, all encoding combinations and operand orders, and transitivity are not settled by them.",
 [S+'string.rs'],[('comparison loop','src/string.rs cmp_iter'),('uppercase table and lookup','src/string.rs utf16_code_unit_to_uppercase, BMP_UPPERCASE_TABLE'),('operator implementations','src/string.rs impl Ord / PartialEq / PartialOrd')],
 ['NtHiveNameString::cmp','==','<','partial_cmp with str and &str'])
p('C08','Values: enumeration is exact and lookup returns the first match',
 "Enumerating the values of a key yields exactly as many items as its value count says, in stored order, each being the value at that entry's offset or the error that explains why it cannot be read; a key without a value list reports that there are none, and a list that is too short for the count is an error. Looking up a value by name returns the first value whose name equals the searched name case-insensitively; if an unreadable value (or one with an unreadable name) comes before it, its error is returned instead, and absence is reported only if all values are readable and none matches.",
 ['inputs'],"all hive contents, all keys, all searched names",
 "Tests look up a few existing values of one hive; duplicates, broken entries before or after the match, and short lists never occur.",
 [S+'key_values_list.rs',S+'key_node.rs',S+'key_value.rs'],[('value list bounds','src/key_values_list.rs KeyValuesListItemRanges::new'),('iteration','src/key_values_list.rs KeyValues::next'),('linear search','src/key_node.rs KeyNodeItemRange::value')],
 ['KeyNode::values','KeyNode::value'])
p('C09','Raw value data is returned byte for byte',
 "The raw data of a value has exactly the size given by its size field without the top bit: with the top bit set, it is the first bytes (at most 4) of the offset field itself; otherwise up to 16344 bytes (or any size in a hive of a minor version below 4) are the first bytes of the referenced cell; otherwise it is the concatenation of the first 16344 bytes of each listed segment cell in order, with the remaining bytes taken from the last one needed. If the size is too big for the inline field, the cell, the number of segments or a segment, an error is returned instead of short or foreign data, and no item after the last needed segment is ever used.",
 ['inputs'],"all hive contents, all data sizes, all segment lists",
 "Tests cover sizes around 16344 in one hive; inline sizes, exact multiples, missing or short segments and surplus segments are not covered.",
 [S+'key_value.rs',S+'big_data.rs'],[('storage selection','src/key_value.rs KeyValue::data'),('segment slicing','src/big_data.rs BigDataSlices::next'),('segment count check','src/big_data.rs BigDataListItemRanges::new')],
 ['KeyValue::data','KeyValue::data_size','KeyValueData::into_vec'])
p('C10','Typed integer access follows the stored type and size exactly',
 "The data type of a value is reported exactly for the twelve known type codes 0 to 11 and is an error for any other code. Reading a value as a 32-bit (64-bit) integer succeeds if and only if its data is readable, exactly 4 (8) bytes long and of type REG_DWORD or REG_DWORD_BIG_ENDIAN (REG_QWORD), and then gives the little-endian, or for REG_DWORD_BIG_ENDIAN the big-endian, number stored in the data.",
 ['inputs'],"all hive contents, all type codes, all data sizes and storage forms",
 "Tests read one value of each of three types; wrong sizes, wrong types, unknown codes and inline versus cell storage of each are not covered.",
 [S+'key_value.rs'],[('type decoding','src/key_value.rs KeyValue::data_type, KeyValueDataType'),('integer accessors','src/key_value.rs dword_data, qword_data')],
 ['KeyValue::data_type','KeyValue::dword_data','KeyValue::qword_data'])
p('C11','String data decodes the whole UTF-16 data up to the terminator',
 "Reading a REG_SZ or REG_EXPAND_SZ value gives the UTF-16LE decoding of its data up to but not including the first NUL (or all of it), with every unpaired surrogate replaced by U+FFFD and a trailing odd byte ignored, no matter how the data is split over segments. Reading a REG_MULTI_SZ value gives the NUL-terminated (or finally unterminated) strings of that decoding in order up to the first empty one, after which no more items follow; any other type is an error.",
 ['inputs'],"all hive contents, all data contents and segmentations",
 "Tests decode ASCII strings from one hive; surrogates, missing terminators, odd sizes, embedded empty strings and pairs across a segment boundary are not covered.",
 [S+'key_value.rs',S+'big_data.rs'],[('decoding loop','src/key_value.rs string data decoding'),('multi-string iterator','src/key_value.rs RegMultiSZStrings::next')],
 ['KeyValue::string_data','KeyValue::multi_string_data'])
p('C12','Iterator shortcuts agree with stepping through the iterator',
 "For every iterator the library hands out, in every state it can reach, the count, last element, n-th element (for every n up to the largest integer) and length are what repeated stepping would give, the size hint bounds it correctly (exactly wherever a length is offered), and skipping leaves the iterator in the state that stepping would leave it in. Once an iterator has reported its end, it keeps reporting its end.",
 ['inputs','histories'],"all hive contents, all iterators, all interleavings of next, nth, count, last, len and size_hint, all n",
 "Tests mostly call next; the overridden shortcuts with their own arithmetic are exercised only for a few small positions.",
 [S+f for f in ('leaf.rs','index_root.rs','key_values_list.rs','big_data.rs','subkeys_list.rs','key_value.rs')],
 [('overridden count/last/nth/size_hint','src/leaf.rs, src/index_root.rs, src/key_values_list.rs, src/big_data.rs, src/subkeys_list.rs')],
 ['SubKeyNodes','LeafKeyNodes','IndexRootKeyNodes','KeyValues','BigDataSlices','RegMultiSZStrings'])
p('C13','Clearing volatile subkeys zeroes exactly the volatile counts',
 "Clearing the volatile subkeys of a hive changes no byte other than the 4-byte volatile subkey count of keys that can be reached from the root key, and sets those it changes to zero. If it succeeds (and the volatile counts do not overlap other structures), the volatile count of the root key and of every key reachable through subkey lists is zero afterwards, and it fails only if some reachable structure cannot be read.",
 ['inputs'],"all hive contents and all key trees in them",
 "The only test checks that the call succeeds; which bytes change, and that every key of every list type is reached, is not checked at all.",
 [S+f for f in ('key_node.rs','subkeys_list.rs','leaf.rs','index_root.rs','hive.rs')],
 [('recursive traversal','src/key_node.rs KeyNodeMut::clear_volatile_subkeys'),('mutable list iterators','src/subkeys_list.rs SubKeyNodesMut, src/leaf.rs LeafKeyNodesMut, src/index_root.rs IndexRootKeyNodesMut')],
 ['Hive::clear_volatile_subkeys'])
p('C14','Every error points at the bytes that are wrong',
 "Every error that carries an offset carries the offset, counted from the start of the hive, of the structure or field that the error is about: the offending signature, size or count field, the start of the cell or its contents that is too small or unallocated, or the data whose size does not fit.",
 ['inputs'],"all hive contents and all operations that fail on them",
 "No test provokes any error.",
 [S+f for f in ('hive.rs','key_node.rs','key_value.rs','key_values_list.rs','subkeys_list.rs','leaf.rs','index_root.rs','big_data.rs')],
 [('field offsets','src/hive.rs offset_of_field'),('data offsets','src/hive.rs offset_of_data_offset'),('error construction','all Err(NtHiveError::...) sites')],
 ['NtHiveError returned by every operation'])
p('C15','Names and class names: stored bytes, right encoding, exact conversion',
 "The name of a key or value and the class name of a key consist of exactly the stored number of bytes directly after the header (for the class name: of the referenced cell); names are treated as Latin1 exactly when the compressed-name flag of that key or value is set and class names are always UTF-16LE, and a key without a class name reports that there is none. Converting a name to text maps each Latin1 byte to the character of that code and decodes UTF-16LE with U+FFFD for unpaired surrogates (the checked conversion reports failure instead), displaying it gives the same text, and the reported length is the number of stored bytes.",
 ['inputs'],"all hive contents, all flag values, all name bytes",
 "Tests check three names; flag combinations, name lengths that exceed the cell, and conversions are not covered.",
 [S+'key_node.rs',S+'key_value.rs',S+'string.rs'],[('key name','src/key_node.rs KeyNodeItemRange::name, class_name'),('value name','src/key_value.rs KeyValue::name'),('conversions','src/string.rs to_string_checked, to_string_lossy, Display, len, is_empty')],
 ['KeyNode::name','KeyNode::class_name','KeyValue::name','NtHiveNameString::to_string_*','Display'])
p('C16','Two handles are equal exactly when they denote the same location',
 "Two key handles, or two value handles, compare equal if and only if they come from the same open hive and denote the same cell in it, no matter by which way (enumeration, lookup by name, path) each one was obtained. Handles of different hives are never equal, even if the hives have identical contents.",
 ['inputs','histories'],"all hives, all pairs of handles and all ways of obtaining them",
 "Two equalities of keys of one hive are tested; inequality of different cells with equal contents and of equal hives is not.",
 [S+'key_node.rs',S+'key_value.rs'],[('key equality','src/key_node.rs impl PartialEq for KeyNode'),('value equality','src/key_value.rs impl PartialEq for KeyValue')],
 ['KeyNode ==','KeyValue =='])
p('C17','Every error tells exactly what was required and what was found',
 "Every error names the cause that stopped the operation, with true details: for a structure, size or count field that does not fit, the number of bytes that it needs or specifies and the number of bytes that are really left for it (for a cell size or list count below the minimum: the minimum and the stored one); the two- or four-byte signatures that are accepted at that place and the one that is stored there; for a field of the base block, the value that it must have and the one that is stored (for the checksum: the calculated and the stored one), or both sequence numbers, or the stored version; for a value, the stored type code if it is unknown, or the types that the operation accepts and the type that is stored; for a cell, its stored size if it is unallocated and its size and the alignment if it is not aligned.",
 ['inputs'],"all hive contents, all base blocks, and all operations that fail on them",
 "No test provokes any error, and none compares the details that an error carries.",
 [S+f for f in ('error.rs','hive.rs','key_node.rs','key_value.rs','key_values_list.rs','subkeys_list.rs','leaf.rs','index_root.rs','big_data.rs')],
 [('error construction','all Err(NtHiveError::...) sites'),('base block checks','src/hive.rs validate_*'),('cell header','src/hive.rs cell_range_from_data_offset'),('list sizes','src/leaf.rs LeafItemRanges::new, src/index_root.rs IndexRootItemRanges::new, src/key_values_list.rs KeyValuesListItemRanges::new'),('data sizes','src/key_value.rs data, dword_data, qword_data; src/big_data.rs')],
 ['NtHiveError returned by every operation'])
with open('/verif/properties.jsonl','w') as f:
    for d in P: f.write(json.dumps(d)+'\n')
for d in P:
    assert len(d['title'])<=80,(d['id'],len(d['title']))
