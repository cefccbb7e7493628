/* prints the layout constants of /repo's own headers (compiled on every run) */
#include <stdio.h>
#include <stddef.h>
#include <sys/stat.h>
#include <fcntl.h>
#include <errno.h>
#include <sys/syscall.h>
#include <linux/futex.h>
#include "../config.h"
#include "dballoc.h"
#include "dbdata.h"
#include "dbcompare.h"
#include "dbhash.h"
#include "dbindex.h"
#include "dbmem.h"
#include "dbquery.h"
#include "dblock.h"
#include "dblog.h"
#include "dbschema.h"
#include "dbmpool.h"
#define C(x) printf("#define K_%s ((u64)%ldL)\n", #x, (long)(x))
#define O(t,f) printf("#define O_%s ((u64)%ldUL)\n", #f, (long)offsetof(t,f))
#define OH(f) O(db_memsegment_header,f)
int main(void) {
  printf("#define HDRSIZE ((u64)%ldUL)\n", (long)sizeof(db_memsegment_header));
  OH(mark); OH(version); OH(features); OH(checksum); OH(size); OH(free); OH(initialadr); OH(key);
  OH(datarec_area_header); OH(longstr_area_header); OH(listcell_area_header); OH(shortstr_area_header);
  OH(word_area_header); OH(doubleword_area_header); OH(strhash_area_header); OH(index_control_area_header);
  OH(tnode_area_header); OH(indexhdr_area_header); OH(indextmpl_area_header); OH(indexhash_area_header);
  OH(logging); OH(locks); OH(extdbs);
  printf("#define AREASIZE ((u64)%ldUL)\n", (long)sizeof(db_area_header));
  O(db_area_header,fixedlength); O(db_area_header,objlength); O(db_area_header,freelist);
  O(db_area_header,last_subarea_index); O(db_area_header,subarea_array); O(db_area_header,freebuckets);
  printf("#define SUBSIZE ((u64)%ldUL)\n", (long)sizeof(db_subarea_header));
  printf("#define OS_size ((u64)%ldUL)\n", (long)offsetof(db_subarea_header,size));
  printf("#define OS_offset ((u64)%ldUL)\n", (long)offsetof(db_subarea_header,offset));
  printf("#define OS_alignedsize ((u64)%ldUL)\n", (long)offsetof(db_subarea_header,alignedsize));
  printf("#define OS_alignedoffset ((u64)%ldUL)\n", (long)offsetof(db_subarea_header,alignedoffset));
  C(SUBAREA_ARRAY_SIZE); C(EXACTBUCKETS_NR); C(VARBUCKETS_NR); C(DVBUCKET); C(DVSIZEBUCKET); C(MIN_VARLENOBJ_SIZE);
  C(MEMSEGMENT_MAGIC_MARK); C(MEMSEGMENT_MAGIC_INIT); C(MEMSEGMENT_VERSION); C(INITIAL_SUBAREA_SIZE); C(MINIMAL_SUBAREA_SIZE); C(SUBAREA_ALIGNMENT_BYTES);
  C(SHORTSTR_SIZE); C(MAX_EXTDB); C(MAX_INDEXED_FIELDNR); C(MAX_INDEX_FIELDS); C(WG_TNODE_ARRAY_SIZE);
  printf("#define OX_count ((u64)%ldUL)\n#define OX_offset ((u64)%ldUL)\n#define OX_size ((u64)%ldUL)\n", (long)offsetof(extdb_area,count), (long)offsetof(extdb_area,offset), (long)offsetof(extdb_area,size));
  C(RECORD_HEADER_GINTS); C(RECORD_META_POS); C(RECORD_BACKLINKS_POS);
  C(RECORD_META_NOTDATA); C(RECORD_META_MATCH); C(RECORD_META_DOC); C(RECORD_META_OBJECT); C(RECORD_META_ARRAY);
  C(LONGSTR_HEADER_GINTS); C(LONGSTR_META_POS); C(LONGSTR_REFCOUNT_POS); C(LONGSTR_BACKLINKS_POS); C(LONGSTR_HASHCHAIN_POS); C(LONGSTR_EXTRASTR_POS);
  C(LONGSTR_META_LENDIFSHFT); C(LONGSTR_META_LENDIFMASK); C(LONGSTR_META_TYPEMASK);
  C(WG_NULLTYPE); C(WG_RECORDTYPE); C(WG_INTTYPE); C(WG_DOUBLETYPE); C(WG_STRTYPE); C(WG_XMLLITERALTYPE); C(WG_URITYPE); C(WG_BLOBTYPE);
  C(WG_CHARTYPE); C(WG_FIXPOINTTYPE); C(WG_DATETYPE); C(WG_TIMETYPE); C(WG_ANONCONSTTYPE); C(WG_VARTYPE);
  C(WG_ILLEGAL); C(WG_EQUAL); C(WG_LESSTHAN); C(WG_GREATER);
  C(DATARECBITS); C(LONGSTRBITS); C(SHORTSTRBITS); C(FULLDOUBLEBITS); C(FULLINTBITS); C(FULLINTBITSV0); C(FULLINTBITSV1); C(SMALLINTBITS);
  C(CHARBITS); C(DATEBITS); C(TIMEBITS); C(VARBITS); C(FIXPOINTBITS); C(TINYSTRBITS);
  C(WG_COND_EQUAL); C(WG_COND_NOT_EQUAL); C(WG_COND_LESSTHAN); C(WG_COND_GREATER); C(WG_COND_LTEQUAL); C(WG_COND_GTEQUAL);
  C(REALLY_BOUNDING_NODE); C(DEAD_END_LEFT_NOT_BOUNDING); C(DEAD_END_RIGHT_NOT_BOUNDING);
  C(WG_QTYPE_TTREE); C(WG_QTYPE_HASH); C(WG_QTYPE_SCAN); C(WG_QTYPE_PREFETCH);
  printf("#define OI_index_list ((u64)%ldUL)\n#define OI_index_table ((u64)%ldUL)\n", (long)offsetof(db_index_area_header,index_list), (long)offsetof(db_index_area_header,index_table));
  printf("#define OI_number_of_indexes ((u64)%ldUL)\n", (long)offsetof(db_index_area_header,number_of_indexes));
#ifdef USE_INDEX_TEMPLATE
  printf("#define OI_index_template_table ((u64)%ldUL)\n#define OI_index_template_list ((u64)%ldUL)\n", (long)offsetof(db_index_area_header,index_template_table), (long)offsetof(db_index_area_header,index_template_list));
  printf("#define OT_offset_matchrec ((u64)%ldUL)\n#define OT_fixed_columns ((u64)%ldUL)\n#define OT_refcount ((u64)%ldUL)\n", (long)offsetof(wg_index_template,offset_matchrec), (long)offsetof(wg_index_template,fixed_columns), (long)offsetof(wg_index_template,refcount));
#endif
  O(wg_index_header,type); O(wg_index_header,fields); O(wg_index_header,rec_field_index); O(wg_index_header,template_offset);
  printf("#define O_offset_root_node ((u64)%ldUL)\n#define O_offset_max_node ((u64)%ldUL)\n#define O_offset_min_node ((u64)%ldUL)\n", (long)offsetof(wg_index_header,ctl.t.offset_root_node), (long)offsetof(wg_index_header,ctl.t.offset_max_node), (long)offsetof(wg_index_header,ctl.t.offset_min_node));
  printf("#define O_hasharea ((u64)%ldUL)\n", (long)offsetof(wg_index_header,ctl.h.hasharea));
  C(WG_INDEX_TYPE_TTREE); C(WG_INDEX_TYPE_TTREE_JSON); C(WG_INDEX_TYPE_HASH); C(WG_INDEX_TYPE_HASH_JSON);
  printf("#define OHA_size ((u64)%ldUL)\n#define OHA_offset ((u64)%ldUL)\n#define OHA_arraysize ((u64)%ldUL)\n#define OHA_arraystart ((u64)%ldUL)\n#define OHA_arraylength ((u64)%ldUL)\n",
    (long)offsetof(db_hash_area_header,size),(long)offsetof(db_hash_area_header,offset),(long)offsetof(db_hash_area_header,arraysize),(long)offsetof(db_hash_area_header,arraystart),(long)offsetof(db_hash_area_header,arraylength));
  printf("#define SZ_index_header ((u64)%ldUL)\n#define SZ_index_template ((u64)%ldUL)\n#define SZ_gcell ((u64)%ldUL)\n", (long)sizeof(wg_index_header), (long)sizeof(wg_index_template), (long)sizeof(gcell));
  printf("#define TNSIZE ((u64)%ldUL)\n", (long)sizeof(struct wg_tnode));
  O(struct wg_tnode,parent_offset); O(struct wg_tnode,current_max); O(struct wg_tnode,current_min); O(struct wg_tnode,number_of_elements);
  O(struct wg_tnode,left_subtree_height); O(struct wg_tnode,right_subtree_height); O(struct wg_tnode,array_of_values);
  O(struct wg_tnode,left_child_offset); O(struct wg_tnode,right_child_offset);
#ifdef TTREE_CHAINED_NODES
  O(struct wg_tnode,succ_offset); O(struct wg_tnode,pred_offset);
#endif
  printf("#define OQ_qtype ((u64)%ldUL)\n", (long)offsetof(wg_query,qtype));
  O(wg_query,arglist); O(wg_query,argc); printf("#define OQ_column ((u64)%ldUL)\n", (long)offsetof(wg_query,column)); O(wg_query,curr_offset); O(wg_query,end_offset);
  O(wg_query,curr_slot); O(wg_query,end_slot); O(wg_query,direction); O(wg_query,curr_record); O(wg_query,mpool); O(wg_query,curr_page); O(wg_query,curr_pidx); O(wg_query,res_count);
  printf("#define SZ_wg_query ((u64)%ldUL)\n#define SZ_wg_query_arg ((u64)%ldUL)\n", (long)sizeof(wg_query), (long)sizeof(wg_query_arg));
  printf("#define OA_column ((u64)%ldUL)\n#define OA_cond ((u64)%ldUL)\n#define OA_value ((u64)%ldUL)\n", (long)offsetof(wg_query_arg,column),(long)offsetof(wg_query_arg,cond),(long)offsetof(wg_query_arg,value));
#if LOCK_PROTO==3
  printf("#define OL_tail ((u64)%ldUL)\n#define OL_queue_lock ((u64)%ldUL)\n#define OL_storage ((u64)%ldUL)\n#define OL_max_nodes ((u64)%ldUL)\n#define OL_freelist ((u64)%ldUL)\n",
   (long)offsetof(syn_var_area,tail),(long)offsetof(syn_var_area,queue_lock),(long)offsetof(syn_var_area,storage),(long)offsetof(syn_var_area,max_nodes),(long)offsetof(syn_var_area,freelist));
  C(MAX_LOCKS); C(SYN_VAR_PADDING); printf("#define SZ_locks ((u64)%ldUL)\n", (long)sizeof(syn_var_area)); C(DEFAULT_LOCK_TIMEOUT); C(SYS_futex); C(FUTEX_WAIT); C(FUTEX_WAKE); C(ETIMEDOUT);
  printf("#define OQ_next_cell ((u64)%ldUL)\n#define OQ_class ((u64)%ldUL)\n#define OQ_waiting ((u64)%ldUL)\n#define OQ_next ((u64)%ldUL)\n#define OQ_prev ((u64)%ldUL)\n#define SZ_qnode ((u64)%ldUL)\n", (long)offsetof(lock_queue_node,next_cell),(long)offsetof(lock_queue_node,class),(long)offsetof(lock_queue_node,waiting),(long)offsetof(lock_queue_node,next),(long)offsetof(lock_queue_node,prev),(long)sizeof(lock_queue_node));
#endif
  printf("#define OST_mtime ((u64)%ldUL)\n", (long)offsetof(struct stat, st_mtime));
  C(ENOENT); C(O_APPEND); C(O_CREAT); C(O_TRUNC); C(O_RDWR); C(O_RDONLY); C(O_WRONLY); C(O_EXCL); C(O_ACCMODE);
#ifdef USE_DBLOG
  C(WG_JOURNAL_ENTRY_ENC); C(WG_JOURNAL_ENTRY_CRE); C(WG_JOURNAL_ENTRY_DEL); C(WG_JOURNAL_ENTRY_SET); C(WG_JOURNAL_ENTRY_META);
  C(WG_JOURNAL_MAGIC_BYTES); C(WG_JOURNAL_MAX_BACKUPS); C(WG_JOURNAL_FN_BUFSIZE);
  printf("#define OJ_fd ((u64)%ldUL)\n#define OJ_serial ((u64)%ldUL)\n#define OJ_umask ((u64)%ldUL)\n#define SZ_logdata ((u64)%ldUL)\n", (long)offsetof(db_handle_logdata,fd),(long)offsetof(db_handle_logdata,serial),(long)offsetof(db_handle_logdata,umask),(long)sizeof(db_handle_logdata));
  printf("#define OG_active ((u64)%ldUL)\n#define OG_dirty ((u64)%ldUL)\n#define OG_serial ((u64)%ldUL)\n", (long)offsetof(db_logging_area_header,active),(long)offsetof(db_logging_area_header,dirty),(long)offsetof(db_logging_area_header,serial));
#endif
  return 0;
}
