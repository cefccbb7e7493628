VX = ('contract-based deductive verification: contracts and loop invariants on the functions of /repo (extracted mechanically from LLVM IR on every run); '
      'every path of every function is executed symbolically and its obligations are discharged by Z3 over mathematical integers (with no-wrap obligations)')
NOTES = 'Every check re-extracts the functions under contract from /repo on every run (see DESIGN.md).'
PROPS = []
def P(**k): PROPS.append(k)

P(id='A01', title='Encoding a scalar value and decoding it again is lossless',
  statement='For every integer, character, date, time, fixed-point number, double, null, variable and record value that the encoder accepts, decoding the encoded word gives back the value that was encoded, and the reported type is the type it was encoded with. An encoded value of one type is never equal to an encoded value of another type. Out-of-range characters, dates, times and fixed-point numbers are refused with the error value.',
  over=['inputs'], quant='all 2^64 argument words and all segment contents and sizes up to 2^40 bytes',
  why='the tests encode a handful of constants; tag bits, sign extension and the immediate/stored split differ at boundaries no sample covers',
  files=['Db/dbdata.c', 'Db/dbdata.h', 'Db/dballoc.c'],
  state=[('encoded word', 'tag bits select the type, the rest is the value or an offset', 'Db/dbdata.h')],
  mech=[('wg_encode_*/wg_decode_*', 'Db/dbdata.c'), ('wg_get_encoded_type', 'Db/dbdata.c')], observe=['wg_decode_int', 'wg_get_encoded_type'],
  note='proof for all inputs; stored numbers rely on the contract of the fixed-size allocator (property A05); the fixed-point product and quotient are uninterpreted floating-point operations in the round-trip lemma')
P(id='A02', title='Calendar conversions are exact inverses and reject impossible dates',
  statement='For every calendar date from year 1 on, converting year, month and day to the stored day number and back gives the same date, and consecutive calendar days get consecutive day numbers. Every hour, minute, second and hundredth of a day converts to a stored time and back unchanged. A negative year, a month outside 1 to 12 or a day outside 1 to 31 is refused, and so is a negative or too large hour, minute, second or hundredth.',
  over=['inputs'], quant='all dates of years 1 to 22787 (the whole range the stored day number covers) and all times of a day',
  why='the tests print a few dates; leap-century rules and estimate-and-correct loops fail only at isolated days',
  files=['Db/dbdata.c'], mech=[('ymd_to_scalar / scalar_to_ymd', 'Db/dbdata.c'), ('wg_ymd_to_date, wg_hms_to_time, wg_date_to_ymd, wg_time_to_hms', 'Db/dbdata.c')],
  observe=['wg_ymd_to_date', 'wg_date_to_ymd'],
  note='proof by induction on days: successor step, inverse step and bounds of the initial estimate are separate obligations')

P(id='A03', title='Reading and updating a record field touches exactly that field',
  statement='Reading a field returns exactly the word last stored in it, and a field number outside the record is refused without any change. A successful update changes only that field, the references between the records involved and the reference count of a string stored in it: the old value is released, the referring records and the indexes of the field are told exactly once before and once after, and the journal is told before the change. No other field of any record changes.',
  over=['inputs', 'histories'], quant='all records of any length, all 2^64 field numbers, all old and new values of every type, referrer chains of any length, journal on or off, indexes present or not',
  why='the tests update short records with small field numbers and few referrers; chains, wrap-around of field numbers and special records need particular states',
  files=['Db/dbdata.c', 'Db/dbdata.h'],
  state=[('record', 'header words followed by one word per field', 'Db/dbdata.h'), ('backlink chain', 'list cells, one per reference to the record', 'Db/dbdata.c')],
  mech=[('wg_set_field, wg_set_new_field', 'Db/dbdata.c'), ('wg_get_field, wg_get_field_type, wg_get_record_len', 'Db/dbdata.c')], observe=['wg_get_field', 'wg_set_field'],
  technique=VX, note='proof for all inputs and chain lengths; index maintenance, release of stored values and the journal are by contract; a record that refers to itself and values of registered external databases are outside the proof')
P(id='A04', title='Lock-free field updates are atomic and never lose an update',
  statement='A lock-free update succeeds only if the field held exactly the expected value at the moment of the swap, and a lock-free addition adds exactly the given amount to the value it replaced, whatever other processes do to the field at any moment. A field that is indexed or journalled, or a value that does not fit in the word itself, is never written this way. Failure is reported exactly when the field was not changed by the call.',
  over=['inputs', 'schedules'], quant='all field contents, arguments and numbers of retries, with arbitrary interference on the field between the read and the swap',
  why='losing an update needs another process to write between two machine instructions; the tests run one process', files=['Db/dbdata.c', 'Db/dbdata.h'],
  state=[('field word', 'changed only by one compare-and-swap', 'Db/dbdata.c')],
  mech=[('wg_update_atomic_field, wg_set_atomic_field, wg_add_int_atomic_field', 'Db/dbdata.c'), ('wg_compare_and_swap', 'Db/dbdata.c')], observe=['wg_add_int_atomic_field'],
  technique=VX + '; wg_compare_and_swap itself by CBMC', note='proof; interference by other processes is in the contract of the compare-and-swap (rely: fields hold values stored in the word itself); memory is sequentially consistent')
P(id='A05', title='Fixed-size cells are never handed out twice',
  statement='An allocation of a fixed-size cell hands out a free cell of its area and removes exactly that cell from the free list; when the list is empty the area grows by a new subarea and the free list becomes exactly the other whole cells of it. Freeing puts the cell back in front. No allocation or release changes any other cell.',
  over=['inputs', 'histories'], quant='all free lists of any length, all six cell sizes, all subarea sizes and segment sizes up to 2^40 bytes',
  why='overlap and lost cells show up only after particular allocation histories and at subarea boundaries', files=['Db/dballoc.c', 'Db/dballoc.h'],
  state=[('area free list', 'list of cells not in use', 'Db/dballoc.h')],
  mech=[('wg_alloc_fixlen_object, extend_fixedlen_area, make_subarea_freelist', 'Db/dballoc.c'), ('wg_free_listcell and its siblings', 'Db/dballoc.c')],
  technique=VX, note='proof; a new subarea lies in unused memory (property A07)')
P(id='A07', title='Segment growth hands out disjoint chunks inside the segment',
  statement='A chunk handed out when an area grows starts where the unused space started, lies wholly inside the segment, and the unused space afterwards starts after it at an aligned offset; it is refused, changing nothing, only when it does not fit. The usable part of a subarea lies inside its chunk and is aligned. The reported database size and free size agree with these bounds.',
  over=['inputs', 'histories'], quant='all segment sizes, fill levels and requested sizes up to 2^60',
  why='the tests never fill a segment to its last aligned chunk, nor ask for huge sizes', files=['Db/dballoc.c'],
  state=[('free offset', 'start of the unused end of the segment', 'Db/dballoc.h')], mech=[('alloc_db_segmentchunk, init_db_subarea', 'Db/dballoc.c'), ('wg_database_size, wg_database_freesize', 'Db/dballoc.c')],
  observe=['wg_database_freesize'], technique=VX, note='proof for all sizes')
P(id='A09', title='Deleting a record leaves nothing behind and never a dangling reference',
  statement='A record that other records still refer to is not deleted. Otherwise deletion is journalled, takes the record out of the indexes, removes exactly one reference from each record it referred to, releases every stored value and then the record itself, once each, and changes no other record. Walking the referrers of a record visits the stored references in order and changes nothing.',
  over=['inputs', 'histories'], quant='all records of any length, all field values of every type, referrer chains of any length, journal on or off',
  why='the tests delete records with few fields and referrers; leaks and double releases are not observed by them', files=['Db/dbdata.c'],
  state=[('backlink chain', 'list cells, one per reference to the record', 'Db/dbdata.c')], mech=[('wg_delete_record', 'Db/dbdata.c')], observe=['wg_delete_record'],
  technique=VX, note='proof for all lengths; release of stored values, index removal and the journal are by contract; self-references and registered external databases are outside the proof')
P(id='A14', title='Every change is journalled before it is made, and replay repeats it',
  statement='With the journal on, every creation and deletion of a record, every change of a field and every encoding of a stored value appends one entry to the journal file before the database is changed (an operation whose entry cannot be written is refused and changes nothing), and the entry holds the whole operation: all bytes of strings and blobs, the full width of numbers. Numbers are written in a form that reads back as the same number for all 64-bit values. Replaying a journal makes exactly one call of the described operation per entry, with the offsets and values of the journal translated to those of the new database (a later entry for a reused offset replaces the earlier translation), is not itself journalled, and ends with success only at the end of the file; the first entry that cannot be read or repeated ends it with an error. A process whose journal file was replaced by another writes to the new one. An existing journal is set aside under a free backup number, or over the oldest, before a new one is started.',
  over=['inputs', 'histories', 'faults'], quant='all entries and byte values, all contents and lengths, all results of the system calls, all segment contents',
  why='a journal that cannot be replayed is noticed only after a loss; the tests replay one small journal without a failing call or reused offset',
  files=['Db/dblog.c', 'Db/dbdata.c'], mech=[('wg_log_encode, wg_log_create_record, wg_log_delete_record, wg_log_set_field, wg_log_encval', 'Db/dblog.c'), ('recover_journal, recover_encode, fget_varint, translate_encoded', 'Db/dblog.c'), ('open_journal, backup_journal, check_journal, write_log_buffer, wg_replay_log', 'Db/dblog.c')],
  observe=['wg_start_logging', 'wg_stop_logging', 'wg_replay_log'],
  technique=VX + '; the number codec and the translation table by CBMC (all numbers, complete unrolling)',
  note='the system calls (open, write, read, stat, rename, umask) are modelled by contracts with every result they may have; the translation table is a map by the contract of wg_ginthash_addkey and wg_ginthash_getkey; an unaligned word store into the malloced buffer of an entry is accepted (x86-64)')
P(id='A21', title='References between databases translate to the same address',
  statement='A value translated from one database for use in another keeps its type and denotes the same address, and values stored in the word itself are unchanged. The owner of a value is this database or the registered database whose range contains it. Registering another database is refused in shared memory, when there are indexes and when the table is full, and otherwise makes its values recognisable from then on.',
  over=['inputs', 'configurations'], quant='all base addresses, sizes, encoded words and numbers of registered databases',
  why='the tests register one database at whatever address the allocator gives', files=['Db/dbdata.c', 'Db/dbmem.c', 'Db/dballoc.c'],
  state=[('table of external databases', 'offset and size of each', 'Db/dballoc.h')],
  mech=[('wg_encode_external_data, wg_translate_hdroffset', 'Db/dbdata.c'), ('get_ptr_owner, wg_get_rec_owner, wg_register_external_db', 'Db/dballoc.c')], observe=['wg_encode_external_data', 'wg_register_external_db'],
  technique=VX, note='proof; databases are 16-aligned and disjoint, and a value at the very first byte of another database does not occur')

P(id='A08', title='Every data record is visited exactly once by a scan, and creation starts empty',
  statement='Starting from the first record and asking for the next one visits every data record of the database exactly once, in address order, across all subareas, never visits a record that was deleted, a special record, free space or anything that is not a record, and then ends; walking changes nothing. A newly created record has the requested number of fields, all of them null, nobody refers to it, its creation is journalled, and the indexes are told about it; a raw record differs only in not being indexed. A negative length is refused and a creation that fails reports failure.',
  over=['inputs', 'histories'], quant='all layouts of used, free and special objects in any number of subareas of any size, all record lengths',
  why='the layouts that matter (free block at the end of a subarea, several subareas, the current allocation victim in the middle) arise from long histories', files=['Db/dbdata.c', 'Db/dballoc.c'],
  state=[('subarea', 'a sequence of adjacent objects between two markers', 'Db/dballoc.h')],
  mech=[('wg_get_first_record, wg_get_next_record, wg_get_first_raw_record, wg_get_next_raw_record', 'Db/dbdata.c'), ('wg_create_record, wg_create_raw_record', 'Db/dbdata.c')],
  observe=['wg_get_first_record', 'wg_get_next_record', 'wg_create_record'], technique=VX,
  note='proof for any number and layout of objects; the object sequence is the invariant of the allocator, assumed here; allocation, journal and index maintenance by contract')
P(id='A12', title='Strings are stored once, read back unchanged and released with their last use',
  statement='Encoding a string, URI, XML literal or blob, with or without a language, type or prefix, gives a value from which the same bytes, length, second part and type are read back; copying to a buffer writes exactly the value and never past the buffer, and is refused when the buffer is too small. Equal values (same type, length, bytes and second part) that need their own storage are stored once and any difference makes them distinct; every stored string stays reachable from its hash chain until it is released. Releasing a value drops one reference; the last one takes the string out of its chain, releases its second part and its storage, exactly once each, and changes nothing else. Encoding is journalled before it happens.',
  over=['inputs', 'histories'], quant='all string contents and lengths up to 2^40, all second parts, hash chains of any length, all buffer sizes',
  why='hash collisions, block boundaries and huge lengths are not met by a few test strings', files=['Db/dbdata.c', 'Db/dbhash.c'],
  state=[('hash chain', 'list of the long strings with the same hash', 'Db/dbhash.c'), ('long string', 'header with length, type, reference count, second part; then the bytes', 'Db/dbdata.h')],
  mech=[('wg_encode_unistr, wg_encode_uniblob, find_create_longstr', 'Db/dbdata.c'), ('wg_find_strhash_bucket, wg_right_strhash_bucket, wg_remove_from_strhash', 'Db/dbhash.c'),
        ('wg_decode_unistr and its siblings', 'Db/dbdata.c'), ('free_field_encoffset, wg_free_encoded', 'Db/dbdata.c')], observe=['wg_encode_str', 'wg_decode_str', 'wg_free_encoded'],
  technique=VX, note='proof for all lengths and chains; the hash function itself is by contract (any value below the table size, the same for equal values)')
P(id='A13', title='Comparing values is a total preorder that agrees with their meaning',
  statement='Comparing two stored values gives less, equal or greater, and swapping the arguments swaps the answer. Integers, characters, dates, times, fixed-point numbers and doubles compare by value (a NaN is equal to itself and above every other double), null comes first, values of different types compare by type, strings and blobs compare byte by byte and a shorter one that is a prefix comes first (for URIs and XML literals the prefix or type part decides first; the language of a plain string does not count). A record with fewer fields comes first; records of the same length compare field by field up to the depth limit, and at the limit by address. Transitivity follows, because the answer is the order of a key computed from each value alone.',
  over=['inputs'], quant='all pairs of encoded values of every type, all lengths of strings, blobs and records, all segment contents',
  why='an inconsistent comparison corrupts indexes and sorted results only for particular triples of values; the tests compare a few',
  files=['Db/dbcompare.c'], mech=[('wg_compare', 'Db/dbcompare.c')], observe=['wg_compare'],
  technique=VX + '; the comparison of doubles and fixed-point numbers by CBMC (bit-precise floating point)',
  note='proof for all values and lengths; the decoders of strings by contract (property A12); the comparison of the fields of a record is by the contract of wg_compare at the next depth (induction on the depth)')
P(id='A15', title='Writers exclude everyone, readers share, and no lock request is forgotten',
  statement='A write lock is held by at most one process and never while a read lock is held; a lock is handed out only when it was granted, also when the wait is interrupted or ends. Requests are served in order of arrival, readers next to granted readers are let in together, and a released lock passes to the next waiting request, whose process is woken. A wait lasts no longer than the given time; a request that gives up is no longer in the queue and blocks nobody. The locks are free after initialisation, and queue places are neither lost nor handed out twice.',
  over=['schedules', 'histories', 'inputs'], quant='any number of processes and requests, every interleaving of their critical sections, every outcome of each wait, queues of any length',
  why='races between giving up, releasing and arriving need particular interleavings; the tests take locks from one process', files=['Db/dblock.c', 'Db/dblock.h'],
  state=[('lock queue', 'doubly linked list of requests, granted ones first', 'Db/dblock.h')], mech=[('wg_start_write, wg_end_write, wg_start_read, wg_end_read', 'Db/dblock.c'), ('lock_queue, unlock_queue, alloc_lock, free_lock, deref_link', 'Db/dblock.c'), ('wg_init_locks', 'Db/dblock.c')],
  observe=['wg_start_write', 'wg_end_write', 'wg_start_read', 'wg_end_read'], technique=VX,
  note='rely/guarantee proof for the configured task-fair queue protocol: the queue invariant is proved at every release of the queue mutex and assumed, with arbitrary changes by others, at every acquisition; mutual exclusion of the queue mutex is proved from the atomic test-and-set; stores are not reordered with the release (x86-64); a process does not die while it holds a lock; the two spinlock protocols are not in this configuration')
P(id='A16', title='A dump is a faithful image, damage is noticed and an import restores it',
  statement='A dump that reports success has put into the file exactly the used part of the database as it was at one moment while the dump held the exclusive lock, with its checksum; any failure to open, write, finish or close is reported, and lock and file are released. A dump changes nothing, and the journal, when active, goes on with a new file. Checking a file accepts it only when it was made by this version, has the right length and the right checksum over all its bytes, and reports the sizes needed; a good file is accepted. Importing puts the image into the segment only when it fits and has no references into other databases; size, key and journal number of the segment stay its own, an active journal goes on, and the locks are free. An import that could not be made leaves the database alone or reports a fatal error.',
  over=['inputs', 'faults', 'schedules'], quant='all segment contents and sizes, file contents and lengths, every outcome of each file operation, arbitrary changes by others before the lock is obtained',
  why='the tests dump and import one small database without a failing write, a full disk or a damaged file', files=['Db/dbdump.c', 'Db/crc1.h'],
  mech=[('wg_dump, wg_dump_internal', 'Db/dbdump.c'), ('wg_check_dump', 'Db/dbdump.c'), ('wg_import_dump', 'Db/dbdump.c'), ('update_crc32', 'Db/crc1.h')], observe=['wg_dump', 'wg_import_dump'], technique=VX,
  note='proof for all sizes; the file operations are modelled by contracts with every result they may have; the checksum is the iterated table step (that the table is the CRC-32 table is not part of it); locks and journal by contract (A15, A14)')
P(id='A11', title='A hash index finds exactly the rows that are stored under the values asked for',
  statement='A search in a hash index returns the rows stored under the key of the values given, and nothing when there are none; it changes nothing. Adding a row puts it under the key of its own column values, removing takes exactly that row away, and the rows of all other keys stay as they are; the entry of a key goes with its last row. The key takes every value in full (type and all bytes or the whole number, also beyond 32 bits, in one form only), columns are in order and separated, and in an index for documents an array gives one key per element. When memory runs out the index stays as it was.',
  over=['inputs', 'histories', 'faults'], quant='all column values, keys of any length, chains and lists of any length, every outcome of each allocation',
  why='hash collisions, huge keys, arrays and failing allocations are not met by a few test rows', files=['Db/dbhash.c', 'Db/dbindex.c'],
  state=[('bucket chain', 'list of the keys with the same hash', 'Db/dbhash.c'), ('row list', 'list of the rows of a key', 'Db/dbhash.c')],
  mech=[('wg_idxhash_store, wg_idxhash_remove, wg_idxhash_find, find_idxhash_bucket', 'Db/dbhash.c'), ('wg_decode_for_hashing', 'Db/dbhash.c'), ('hash_recurse, hash_extend_prefix, hash_add_row, hash_remove_row, wg_search_hash', 'Db/dbindex.c')],
  observe=['wg_search_hash', 'wg_set_field', 'wg_delete_record'], technique=VX,
  note='proof for all keys, chains and lists; the hash function is by contract (the same value, below the table size, for the same bytes); values whose bytes contain the separator may share a key; integers, characters, dates and times are checked by their whole number')
P(id='A24', title='Every index is told of every change that concerns it, and of no other',
  statement='When a field changes or a record is created or deleted, the row is removed from or put under exactly the indexes on that column (or with that column fixed by their template) for which the record is long enough, matches the template and is of the right kind, once each; a failure is reported. A record matches a template when it has the fixed value in every fixed column and any value elsewhere. A new index gets exactly the existing records that qualify. An index of an unknown kind is refused and an index that cannot be dropped stays, both without any change; a dropped index leaves every list before its contents, header and unused template are released. The list of all indexes has each index once. Records that are not data are never indexed.',
  over=['inputs', 'histories', 'faults'], quant='all columns, record lengths, kinds and numbers of indexes, lists of any length, every outcome of each update',
  why='the combination of templates, several columns, document indexes and short records is too large for the tests, and a row missing in an index is only noticed by a query much later',
  files=['Db/dbindex.c'], state=[('index lists', 'for every column the indexes on it and those with it fixed', 'Db/dballoc.h')],
  mech=[('wg_index_add_field, wg_index_del_field, wg_index_add_rec, wg_index_del_rec', 'Db/dbindex.c'), ('wg_match_template', 'Db/dbindex.c'), ('create_hash_index, create_ttree_index, wg_create_multi_index', 'Db/dbindex.c'), ('wg_drop_index, wg_get_all_indexes, insert_into_list, delete_from_list', 'Db/dbindex.c')],
  observe=['wg_set_field', 'wg_create_record', 'wg_delete_record', 'wg_create_index', 'wg_drop_index', 'wg_get_all_indexes'], technique=VX,
  note='proof for all lists; the operations on the contents of an index are by contract (A11 for the hash index; the T-tree operations are assumed); a scan visits every record (A08); of wg_create_multi_index only the refusal is under contract, not how the new index is linked into the lists')
P(id='A17', title='A query returns exactly the rows that satisfy all its conditions',
  statement='A query returns every record that satisfies all conditions and all fixed fields of the match record, once, and no other; a record too short for a condition fails it. This does not depend on whether an index is used: an index is used only if it is a T-tree on a column with a condition and every fixed column of its template is required by the query; the range of the index holds exactly the rows within the bounds, and the remaining conditions are checked on every row. Bounds that exclude each other give no rows. A query with a row limit stops at the limit, rows fetched in advance are handed out in order and counted. A failed query is reported and released.',
  over=['inputs', 'histories', 'faults'], quant='all lists of conditions and match records, values of any kind, indexes with any number of nodes and rows and any distribution of equal keys over nodes, every outcome of each allocation',
  why='which bounds meet which node boundary, equal keys across nodes, contradictory bounds and templates multiply to more cases than tests sample',
  files=['Db/dbquery.c', 'Db/dbindex.c'], state=[('T-tree nodes', 'chained nodes, each with up to 8 rows in order', 'Db/dbindex.h'), ('query', 'cursor, range, remaining conditions, pages of rows', 'Db/dbapi.h')],
  mech=[('prepare_params, most_restricting_column, internal_build_query', 'Db/dbquery.c'), ('find_ttree_bounds, check_arglist, wg_fetch', 'Db/dbquery.c'), ('wg_search_ttree_leftmost, wg_search_ttree_rightmost, wg_search_tnode_first, wg_search_tnode_last', 'Db/dbindex.c')],
  observe=['wg_make_query', 'wg_make_query_rc', 'wg_fetch'], technique=VX,
  note='proof for all lists of conditions and trees; assumed: a T-tree is in order with correct node bounds, links and chain (its insertion and removal are not under contract; that the right rows reach them is A24), wg_compare is an order (A13), a scan visits every record (A08), pages of a memory pool do not overlap; values of conditions are valid and columns not negative; scores in the choice of an index are not checked for overflow (they decide speed only); queries on documents (wg_make_json_query) are not covered')
