From 1f9c17c2b87d25dfe98740c57f4ac57285cead80 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:19:49 +0000
Subject: [PATCH 01/33] fix: field number check wraps for huge field numbers

A field number within 3 of the largest integer overflowed in the bounds
check, passed it and let the record header be read or overwritten.
---
 Db/dbdata.c | 4 ++--
 Db/dbdata.h | 2 +-
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/Db/dbdata.c b/Db/dbdata.c
index 66c3c3a..0e26905 100644
--- a/Db/dbdata.c
+++ b/Db/dbdata.c
@@ -1153,7 +1153,7 @@ wg_int wg_get_field(void* db, void* record, wg_int fieldnr) {
     show_data_error_nr(db,"wrong database pointer given to wg_get_field",fieldnr);
     return WG_ILLEGAL;
   }
-  if (fieldnr<0 || (getusedobjectwantedgintsnr(*((gint*)record))<=fieldnr+RECORD_HEADER_GINTS)) {
+  if (fieldnr<0 || (getusedobjectwantedgintsnr(*((gint*)record))-RECORD_HEADER_GINTS<=fieldnr)) {
     show_data_error_nr(db,"wrong field number given to wg_get_field",fieldnr);\
     return WG_ILLEGAL;
   }
@@ -1171,7 +1171,7 @@ wg_int wg_get_field_type(void* db, void* record, wg_int fieldnr) {
     show_data_error_nr(db,"wrong database pointer given to wg_get_field_type",fieldnr);\
     return 0;
   }
-  if (fieldnr<0 || (getusedobjectwantedgintsnr(*((gint*)record))<=fieldnr+RECORD_HEADER_GINTS)) {
+  if (fieldnr<0 || (getusedobjectwantedgintsnr(*((gint*)record))-RECORD_HEADER_GINTS<=fieldnr)) {
     show_data_error_nr(db,"wrong field number given to wg_get_field_type",fieldnr);\
     return 0;
   }
diff --git a/Db/dbdata.h b/Db/dbdata.h
index 988db22..d25957f 100644
--- a/Db/dbdata.h
+++ b/Db/dbdata.h
@@ -636,7 +636,7 @@ gint usage from start:
     show_data_error_str(db,"wrong database pointer given to ",opname);\
     return -1;\
   }\
-  if (fieldnr<0 || getusedobjectwantedgintsnr(*((gint*)record))<=fieldnr+RECORD_HEADER_GINTS) {\
+  if (fieldnr<0 || getusedobjectwantedgintsnr(*((gint*)record))-RECORD_HEADER_GINTS<=fieldnr) {\
     show_data_error_str(db,"wrong field number given to ",opname);\
     return -2;\
   }\
-- 
2.43.0


From 6475f2a5ac225734d9a96392b2978cffaa90ebf0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:19:49 +0000
Subject: [PATCH 02/33] fix: wg_set_field decides about the old value by the
 owner of the new value

Whether the backlink of the old value has to be removed depends on the
owner of the old value. Overwriting an external record reference with a
local value failed (or changed the other database), and overwriting a
local reference with an external one left the backlink behind.
---
 Db/dbdata.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/Db/dbdata.c b/Db/dbdata.c
index 0e26905..0661126 100644
--- a/Db/dbdata.c
+++ b/Db/dbdata.c
@@ -702,7 +702,7 @@ wg_int wg_set_field(void* db, void* record, wg_int fieldnr, wg_int data) {
 #ifdef USE_CHILD_DB
   /* Only touch local records */
   if(wg_get_encoded_type(db, fielddata) == WG_RECORDTYPE &&
-    offset_owner == dbmemseg(db)) {
+    is_local_offset(db, decode_datarec_offset(fielddata))) {
 #else
   if(wg_get_encoded_type(db, fielddata) == WG_RECORDTYPE) {
 #endif
-- 
2.43.0


From c3ef7f0c45aa845c070241c1b434627bef32fa5f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:19:49 +0000
Subject: [PATCH 03/33] fix: backlink allocation failure overwrites the segment
 header

When no list cell was available for a backlink, offset 0 was used as the
new cell, overwriting the start of the database segment.
---
 Db/dbdata.c | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/Db/dbdata.c b/Db/dbdata.c
index 0661126..1d11914 100644
--- a/Db/dbdata.c
+++ b/Db/dbdata.c
@@ -770,6 +770,10 @@ setfld_backlink_removed:
       &(dbmemsegh(db)->listcell_area_header));
     gcell *new_cell = (gcell *) offsettoptr(db, new_offset);
 
+    if(!new_offset) {
+      show_data_error(db, "Failed to allocate a backlink");
+      return -4; /* backlink error */
+    }
     while(*next_offset)
       next_offset = &(((gcell *) offsettoptr(db, *next_offset))->cdr);
     new_cell->car = ptrtooffset(db, record);
@@ -900,6 +904,10 @@ wg_int wg_set_new_field(void* db, void* record, wg_int fieldnr, wg_int data) {
       &(dbmemsegh(db)->listcell_area_header));
     gcell *new_cell = (gcell *) offsettoptr(db, new_offset);
 
+    if(!new_offset) {
+      show_data_error(db, "Failed to allocate a backlink");
+      return -4; /* backlink error */
+    }
     while(*next_offset)
       next_offset = &(((gcell *) offsettoptr(db, *next_offset))->cdr);
     new_cell->car = ptrtooffset(db, record);
-- 
2.43.0


From b43084aeee51c8056b63265c8773d12dc24a9f51 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:19:49 +0000
Subject: [PATCH 04/33] fix: wg_add_int_atomic_field truncates the sum to 32
 bits

Immediate integers hold up to 61 bits, but the sum was computed in an
int, so adding to a larger value stored a wrong number.
---
 Db/dbdata.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/Db/dbdata.c b/Db/dbdata.c
index 1d11914..7a10a49 100644
--- a/Db/dbdata.c
+++ b/Db/dbdata.c
@@ -1114,8 +1114,8 @@ wg_int wg_set_atomic_field(void* db, void* record, wg_int fieldnr, wg_int data)
 
 wg_int wg_add_int_atomic_field(void* db, void* record, wg_int fieldnr, int data) {
   gint* fieldadr;
-  gint old,nxt,r;
-  int i,sum;
+  gint old,nxt,r,sum;
+  int i;
 #ifdef _WIN32
   int ts=1;
 #else
-- 
2.43.0


From 3c5b8c0fce0765d652dd4e484850b7385381f06f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:20:27 +0000
Subject: [PATCH 05/33] fix: adding a subarea changes the length of the object
 after the old victim

The header of the object following the designated victim was rewritten
with the rounded block size instead of the stored length: a record with
no fields got one field, and longer strings changed their length.
---
 Db/dballoc.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/Db/dballoc.c b/Db/dballoc.c
index 2e9bf9b..7abf2a6 100644
--- a/Db/dballoc.c
+++ b/Db/dballoc.c
@@ -665,7 +665,7 @@ gint init_subarea_freespace(void* db, void* area_header, gint arrayindex) {
       nextobj = dv + dvsize;
       nextobjhead = dbfetch(db, nextobj);
       if( isnormalusedobject(nextobjhead) )
-        dbstore(db, nextobj, makeusedobjectsizeprevfree(getusedobjectsize(nextobjhead)));
+        dbstore(db, nextobj, makeusedobjectsizeprevfree(nextobjhead));
       if (freelist!=0) dbstore(db,freelist+2*sizeof(gint),dv); // update prev ptr
       dbstore(db,dv+sizeof(gint),freelist); // store previous freelist
       dbstore(db,dv+2*sizeof(gint),dbaddr(db,&freebuckets[dvindex])); // store ptr to previous
-- 
2.43.0


From 706ce99adda0b8f836cd6359a1ae255f541d557a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:20:27 +0000
Subject: [PATCH 06/33] fix: size of an allocation request overflows

For a huge number of gints the byte count wrapped, so the allocation
succeeded with a tiny object and the caller wrote past it.
---
 Db/dballoc.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/Db/dballoc.c b/Db/dballoc.c
index 7abf2a6..a743bed 100644
--- a/Db/dballoc.c
+++ b/Db/dballoc.c
@@ -883,8 +883,9 @@ gint wg_alloc_gints(void* db, void* area_header, gint nr) {
   db_area_header* areah;
 
   areah=(db_area_header*)area_header;
+  // cannot allocate negative sizes or more than there is (avoids overflow below)
+  if (nr<0 || nr>dbmemsegh(db)->size/(gint)sizeof(gint)) return 0;
   wantedbytes=nr*sizeof(gint); // object sizes are stored in bytes
-  if (wantedbytes<0) return 0; // cannot allocate negative or zero sizes
   if (wantedbytes<=MIN_VARLENOBJ_SIZE) usedbytes=MIN_VARLENOBJ_SIZE;
   /* XXX: modifying the next line breaks encode_query_param_unistr().
    * Rewrite this using macros to reduce the chance of accidental breakage */
-- 
2.43.0


From 92f8d84155b5aa7ebf7352744233c5172523623f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:51:26 +0000
Subject: [PATCH 07/33] fix: wg_register_external_db reports success when its
 table is full

---
 Db/dballoc.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/Db/dballoc.c b/Db/dballoc.c
index a743bed..2273191 100644
--- a/Db/dballoc.c
+++ b/Db/dballoc.c
@@ -1418,7 +1418,7 @@ gint wg_register_external_db(void *db, void *extdb) {
       "Database has indexes, external references not allowed");
   }
   if(dbh->extdbs.count >= MAX_EXTDB) {
-    show_dballoc_error(db, "cannot register external database");
+    return show_dballoc_error(db, "cannot register external database");
   } else {
     dbh->extdbs.offset[dbh->extdbs.count] = ptrtooffset(db, dbmemsegh(extdb));
     dbh->extdbs.size[dbh->extdbs.count++] = \
-- 
2.43.0


From c1d5712ba8434db59db2b7f1d43e5455813e59ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:10:24 +0000
Subject: [PATCH 08/33] fix: string is lost from its hash chain when its
 language string has the same hash

---
 Db/dbdata.c | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/Db/dbdata.c b/Db/dbdata.c
index 7a10a49..54f3329 100644
--- a/Db/dbdata.c
+++ b/Db/dbdata.c
@@ -2671,7 +2671,9 @@ static gint find_create_longstr(void* db, const char* data, const char* extrastr
     dbstore(db,offset+LONGSTR_BACKLINKS_POS*sizeof(gint),0); // no backlinks yet
     // encode
     res=encode_longstr_offset(offset);
-    // store to hash and update hashchain
+    // store to hash and update hashchain: read the chain head again, since
+    // encoding extrastr may have added an element to the same chain
+    hasharrel=dbfetch(db,((dbh->strhash_area_header).arraystart)+(sizeof(gint)*hash));
     dbstore(db,((dbh->strhash_area_header).arraystart)+(sizeof(gint)*hash),res);
     //printf("hasharrel 2 %d \n",hasharrel);
     dbstore(db,offset+LONGSTR_HASHCHAIN_POS*sizeof(gint),hasharrel); // store old hash array el
-- 
2.43.0


From 01ab13606a2f4acaf96a85b3c1a3fc38aa05cb7e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:18:34 +0000
Subject: [PATCH 09/33] fix: a string was taken for one that is 4 GiB shorter

---
 Db/dbhash.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/Db/dbhash.c b/Db/dbhash.c
index 3051bc0..23cd00f 100644
--- a/Db/dbhash.c
+++ b/Db/dbhash.c
@@ -187,7 +187,7 @@ int wg_right_strhash_bucket
             (void* db, gint longstr, const char* cstr, const char* cextrastr, gint ctype, gint cstrsize) {
   char* str;
   char* extrastr;
-  int strsize;
+  gint strsize;
   gint type;
   //printf("wg_right_strhash_bucket called with %s %s type %d size %d\n",
   //              cstr,cextrastr,ctype,cstrsize);
-- 
2.43.0


From 15e890e999c0c7bcd439c7a1b55da449e57f2863 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:26:39 +0000
Subject: [PATCH 10/33] fix: comparison of a NaN depends on the order of the
 arguments

---
 Db/dbcompare.c | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/Db/dbcompare.c b/Db/dbcompare.c
index c8ddbac..9a74623 100644
--- a/Db/dbcompare.c
+++ b/Db/dbcompare.c
@@ -176,6 +176,9 @@ gint wg_compare(void *db, gint a, gint b, int depth) {
         deca = wg_decode_double(db, a);
         decb = wg_decode_double(db, b);
         if(deca==decb) return WG_EQUAL; /* decoded doubles can be equal */
+        /* NaN: equal to itself, greater than any number */
+        if(deca!=deca) return (decb!=decb ? WG_EQUAL : WG_GREATER);
+        if(decb!=decb) return WG_LESSTHAN;
         return (deca>decb ? WG_GREATER : WG_LESSTHAN);
       }
     }
-- 
2.43.0


From 19494ec51b190ccb968ff649ae79d5b0c7f9cae0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:27:48 +0000
Subject: [PATCH 11/33] fix: blobs larger than 2 GiB are compared by the wrong
 length

---
 Db/dbcompare.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/Db/dbcompare.c b/Db/dbcompare.c
index 9a74623..d734d4b 100644
--- a/Db/dbcompare.c
+++ b/Db/dbcompare.c
@@ -256,8 +256,8 @@ gint wg_compare(void *db, gint a, gint b, int depth) {
 
       if(typea==WG_BLOBTYPE) {
         /* Blobs are not 0-terminated */
-        int lena = wg_decode_blob_len(db, a);
-        int lenb = wg_decode_blob_len(db, b);
+        gint lena = wg_decode_blob_len(db, a);
+        gint lenb = wg_decode_blob_len(db, b);
         res = memcmp(deca, decb, (lena < lenb ? lena : lenb));
         if(!res) res = lena - lenb;
       } else {
-- 
2.43.0


From dd11ee3268a70969c91d16b83147560347c114d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:20:26 +0000
Subject: [PATCH 12/33] fix: integers are cut to int in the journal, which
 cannot be replayed

---
 Db/dblog.c | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/Db/dblog.c b/Db/dblog.c
index b9c5a47..9f8ef86 100644
--- a/Db/dblog.c
+++ b/Db/dblog.c
@@ -532,12 +532,12 @@ gint recover_encode(void *db, FILE *f, gint type)
 {
   char *strbuf, *extbuf;
   gint length = 0, extlength = 0, enc;
-  int intval;
+  gint intval;
   double doubleval;
 
   switch(type) {
     case WG_INTTYPE:
-      if(fread((char *) &intval, sizeof(int), 1, f) != 1) {
+      if(fread((char *) &intval, sizeof(gint), 1, f) != 1) {
         show_log_error(db, "Failed to read log entry");
         return WG_ILLEGAL;
       }
@@ -1079,14 +1079,14 @@ gint wg_log_encode(void *db, gint type, const void *data, gint length,
       return 0;
       break;
     case WG_INTTYPE:
-      /* int argument */
-      if(fits_smallint(*((int *) data))) {
+      /* gint argument */
+      if(fits_smallint(*((gint *) data))) {
         return 0; /* self-contained, don't log */
       } else {
-        buflen = 1 + sizeof(int);
+        buflen = 1 + sizeof(gint);
         buf = (unsigned char *) malloc(buflen);
         optr = buf + 1;
-        *((int *) optr) = *((int *) data);
+        *((gint *) optr) = *((gint *) data);
       }
       break;
     case WG_DOUBLETYPE:
-- 
2.43.0


From 9a9fb7ec2dff7a65a92574f391eed447c2897c4e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:20:26 +0000
Subject: [PATCH 13/33] fix: journal of a string with a language or prefix
 cannot be replayed

---
 Db/dbdata.c | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/Db/dbdata.c b/Db/dbdata.c
index 54f3329..01cc344 100644
--- a/Db/dbdata.c
+++ b/Db/dbdata.c
@@ -2504,7 +2504,7 @@ gint wg_encode_unistr(void* db, const char* str, const char* lang, gint type) {
   /* Log before allocating. */
   if(dbmemsegh(db)->logging.active) {
     gint extlen = 0;
-    if(lang) extlen = strlen(lang);
+    if(lang) extlen = strlen(lang)+1; /* 0 means that there is none */
     if(wg_log_encode(db, type, str, len, lang, extlen))
       return WG_ILLEGAL;
   }
@@ -2644,7 +2644,15 @@ static gint find_create_longstr(void* db, const char* data, const char* extrastr
     }
     // if extrastr exists, encode extrastr and store ptr to longstr record field
     if (extrastr!=NULL) {
+#ifdef USE_DBLOG
+      // extrastr is part of the journal entry of the string itself
+      gint active=dbh->logging.active;
+      dbh->logging.active=0;
+#endif
       tmp=wg_encode_str(db,extrastr,NULL);
+#ifdef USE_DBLOG
+      dbh->logging.active=active;
+#endif
       if (tmp==WG_ILLEGAL) {
         //show_data_error_nr(db,"cannot create an (extra)string of size ",strlen(extrastr));
         return 0;
-- 
2.43.0


From 7a45b09cc2a77673e26a26a859d57098a9191a81 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:20:26 +0000
Subject: [PATCH 14/33] fix: blobs are not journalled

---
 Db/dbdata.c | 20 ++++++++++++++++++++
 Db/dblog.c  |  9 ++++++---
 2 files changed, 26 insertions(+), 3 deletions(-)

diff --git a/Db/dbdata.c b/Db/dbdata.c
index 01cc344..b672808 100644
--- a/Db/dbdata.c
+++ b/Db/dbdata.c
@@ -2582,11 +2582,31 @@ gint wg_encode_uniblob(void* db, const char* str, const char* lang, gint type, g
 
   if (0) {
   } else {
+#ifdef USE_DBLOG
+    /* Log before allocating. */
+    if(dbmemsegh(db)->logging.active) {
+      gint extlen = 0;
+      if(lang) extlen = strlen(lang)+1; /* 0 means that there is none */
+      if(wg_log_encode(db, type, str, len, lang, extlen))
+        return WG_ILLEGAL;
+    }
+#endif
     offset=find_create_longstr(db,str,lang,type,len);
     if (!offset) {
       show_data_error_nr(db,"cannot create a blob of size ",len);
+#ifdef USE_DBLOG
+      if(dbmemsegh(db)->logging.active) {
+        wg_log_encval(db, WG_ILLEGAL);
+      }
+#endif
       return WG_ILLEGAL;
     }
+#ifdef USE_DBLOG
+    if(dbmemsegh(db)->logging.active) {
+      if(wg_log_encval(db, encode_longstr_offset(offset)))
+        return WG_ILLEGAL; /* journal error */
+    }
+#endif
     return encode_longstr_offset(offset);
   }
 }
diff --git a/Db/dblog.c b/Db/dblog.c
index 9f8ef86..1d1085c 100644
--- a/Db/dblog.c
+++ b/Db/dblog.c
@@ -552,7 +552,7 @@ gint recover_encode(void *db, FILE *f, gint type)
     case WG_URITYPE:
     case WG_XMLLITERALTYPE:
     case WG_ANONCONSTTYPE:
-    case WG_BLOBTYPE: /* XXX: no encode func for this yet */
+    case WG_BLOBTYPE:
       /* strings with extdata */
       GET_LOG_VARINT(db, f, length, WG_ILLEGAL)
       GET_LOG_VARINT(db, f, extlength, WG_ILLEGAL)
@@ -587,7 +587,10 @@ gint recover_encode(void *db, FILE *f, gint type)
         extbuf = NULL;
       }
 
-      enc = wg_encode_unistr(db, strbuf, extbuf, type);
+      if(type == WG_BLOBTYPE)
+        enc = wg_encode_uniblob(db, strbuf, extbuf, type, length);
+      else
+        enc = wg_encode_unistr(db, strbuf, extbuf, type);
       free(strbuf);
       if(extbuf)
         free(extbuf);
@@ -1100,7 +1103,7 @@ gint wg_log_encode(void *db, gint type, const void *data, gint length,
     case WG_URITYPE:
     case WG_XMLLITERALTYPE:
     case WG_ANONCONSTTYPE:
-    case WG_BLOBTYPE: /* XXX: no encode func for this yet */
+    case WG_BLOBTYPE:
       /* strings with extdata */
       buflen = 1 + 2*VARINT_SIZE + length + extlength;
       buf = (unsigned char *) malloc(buflen);
-- 
2.43.0


From 47e3a96668a86cd5d989142f17d25862d9101a1a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:20:26 +0000
Subject: [PATCH 15/33] fix: replay uses a stale translation when an offset is
 reused

---
 Db/dbhash.c |  8 ++++++++
 Db/dblog.c  | 18 ++++++++----------
 2 files changed, 16 insertions(+), 10 deletions(-)

diff --git a/Db/dbhash.c b/Db/dbhash.c
index 23cd00f..6fddd45 100644
--- a/Db/dbhash.c
+++ b/Db/dbhash.c
@@ -594,6 +594,7 @@ void *wg_ginthash_init(void *db) {
 }
 
 /** Add a key/value pair to the hash table.
+ *  Replaces the value of a key that is already present.
  *  tbl should be created with wg_ginthash_init()
  *  Returns 0 on success
  *  Returns -1 on failure
@@ -614,6 +615,13 @@ gint wg_ginthash_addkey(void *db, void *tbl, gint key, gint val) {
     ((ext_ginthash *)tbl)->directory[hash] = bucket;
   }
   else {
+    int i;
+    for(i=0; i<bucket->fill; i++) {
+      if(bucket->key[i] == key) {
+        bucket->value[i] = val;
+        return 0;
+      }
+    }
     add_to_bucket(bucket, key, val);
     while(bucket->fill > GINTHASH_BUCKETCAP) {
       ginthash_bucket *newb;
diff --git a/Db/dblog.c b/Db/dblog.c
index 1d1085c..7768c2f 100644
--- a/Db/dblog.c
+++ b/Db/dblog.c
@@ -624,12 +624,12 @@ static gint recover_journal(void *db, FILE *f, void *table)
           if(!rec) {
             return show_log_error(db, "Failed to create a new record");
           }
+          /* The offset may be known already: it is reused after its
+           * previous owner was deleted. */
           newoffset = ptrtooffset(db, rec);
-          if(newoffset != offset) {
-            if(add_tran_offset(db, table, offset, newoffset)) {
-              return show_log_error(db, "Failed to parse log "\
-                "(out of translation memory)");
-            }
+          if(add_tran_offset(db, table, offset, newoffset)) {
+            return show_log_error(db, "Failed to parse log "\
+              "(out of translation memory)");
           }
         }
         break;
@@ -650,11 +650,9 @@ static gint recover_journal(void *db, FILE *f, void *table)
           if(newenc == WG_ILLEGAL) {
             return -1;
           }
-          if(newenc != enc) {
-            if(add_tran_enc(db, table, enc, newenc)) {
-              return show_log_error(db, "Failed to parse log "\
-                "(out of translation memory)");
-            }
+          if(add_tran_enc(db, table, enc, newenc)) {
+            return show_log_error(db, "Failed to parse log "\
+              "(out of translation memory)");
           }
         }
         break;
-- 
2.43.0


From 67d51f7675c66ef3739cf915dc7153b3118eb080 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:20:26 +0000
Subject: [PATCH 16/33] fix: a refused journal leaves the file open and logging
 off

---
 Db/dblog.c | 26 ++++++++++++++++++++------
 1 file changed, 20 insertions(+), 6 deletions(-)

diff --git a/Db/dblog.c b/Db/dblog.c
index 7768c2f..00adc99 100644
--- a/Db/dblog.c
+++ b/Db/dblog.c
@@ -887,24 +887,39 @@ gint wg_replay_log(void *db, char *filename)
   }
 
   if(check_journal(db, fd)) {
-    err = -1;
-    goto abort2;
+#ifndef _WIN32
+    close(fd);
+#else
+    _close(fd);
+#endif
+    return -1;
   }
 
-  active = dbh->logging.active;
-  dbh->logging.active = 0; /* turn logging off before restoring */
-
   /* Reading can be done with buffered IO */
 #ifndef _WIN32
   f = fdopen(fd, "r");
 #else
   f = _fdopen(fd, "rb");
 #endif
+  if(!f) {
+    show_log_error(db, "Error opening log file");
+#ifndef _WIN32
+    close(fd);
+#else
+    _close(fd);
+#endif
+    return -1;
+  }
+
+  active = dbh->logging.active;
+  dbh->logging.active = 0; /* turn logging off before restoring */
+
   /* XXX: may consider fcntl-locking here */
   /* restore the log contents */
   tran_tbl = wg_ginthash_init(db);
   if(!tran_tbl) {
     show_log_error(db, "Failed to create log translation table");
+    dbh->logging.active = active;
     err = -1;
     goto abort1;
   }
@@ -921,7 +936,6 @@ abort0:
 abort1:
   fclose(f);
 
-abort2:
   if(!err && active) {
     if(wg_start_logging(db)) {
       show_log_error(db, "Log restored but failed to reactivate logging");
-- 
2.43.0


From 220787f1ad4bf9a3fa777aae823bd91e6a064290 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:20:26 +0000
Subject: [PATCH 17/33] fix: journal is lost after a failed write, and long
 entries are cut

---
 Db/dblog.c | 14 ++++++++------
 1 file changed, 8 insertions(+), 6 deletions(-)

diff --git a/Db/dblog.c b/Db/dblog.c
index 00adc99..60e3df6 100644
--- a/Db/dblog.c
+++ b/Db/dblog.c
@@ -121,7 +121,7 @@ static gint translate_encoded(void *db, void *table, gint enc);
 static gint recover_encode(void *db, FILE *f, gint type);
 static gint recover_journal(void *db, FILE *f, void *table);
 
-static gint write_log_buffer(void *db, void *buf, int buflen);
+static gint write_log_buffer(void *db, void *buf, size_t buflen);
 #endif /* USE_DBLOG */
 
 static gint show_log_error(void *db, char *errmsg);
@@ -953,7 +953,7 @@ abort1:
 /** Write a byte buffer to the log file.
  *
  */
-static gint write_log_buffer(void *db, void *buf, int buflen)
+static gint write_log_buffer(void *db, void *buf, size_t buflen)
 {
   db_memsegment_header* dbh = dbmemsegh(db);
   db_handle_logdata *ld = \
@@ -993,12 +993,14 @@ static gint write_log_buffer(void *db, void *buf, int buflen)
   dbh->logging.dirty = 1;
 
 #ifndef _WIN32
-  if(write(ld->fd, (char *) buf, buflen) != buflen) {
+  if(write(ld->fd, (char *) buf, buflen) != (ssize_t) buflen) {
 #else
-  if(_write(ld->fd, (char *) buf, buflen) != buflen) {
+  if(_write(ld->fd, (char *) buf, buflen) != (int) buflen) {
 #endif
+    int fd = ld->fd;
     show_log_error(db, "Error writing to log file");
-    JOURNAL_FAIL(ld->fd, -5)
+    ld->fd = -1;
+    JOURNAL_FAIL(fd, -5)
   }
 
   return 0;
@@ -1080,7 +1082,7 @@ gint wg_log_encode(void *db, gint type, const void *data, gint length,
 #ifdef USE_DBLOG
   unsigned char *buf, *optr, *oend, *iptr;
   size_t buflen = 0;
-  int err;
+  gint err;
 
   switch(type) {
     case WG_NULLTYPE:
-- 
2.43.0


From 4616f8cbc014c2ef36a62277db1002b21db453b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:20:42 +0000
Subject: [PATCH 18/33] fix: out of memory and unknown types while journalling
 are not errors

---
 Db/dblog.c | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/Db/dblog.c b/Db/dblog.c
index 60e3df6..f793f6b 100644
--- a/Db/dblog.c
+++ b/Db/dblog.c
@@ -599,7 +599,8 @@ gint recover_encode(void *db, FILE *f, gint type)
       break;
   }
 
-  return show_log_error(db, "Unsupported data type");
+  show_log_error(db, "Unsupported data type");
+  return WG_ILLEGAL;
 }
 
 /** Parse the journal file. Used internally only.
@@ -1102,6 +1103,8 @@ gint wg_log_encode(void *db, gint type, const void *data, gint length,
       } else {
         buflen = 1 + sizeof(gint);
         buf = (unsigned char *) malloc(buflen);
+        if(!buf)
+          return show_log_error(db, "Failed to allocate buffers");
         optr = buf + 1;
         *((gint *) optr) = *((gint *) data);
       }
@@ -1110,6 +1113,8 @@ gint wg_log_encode(void *db, gint type, const void *data, gint length,
       /* double precision argument */
       buflen = 1 + sizeof(double);
       buf = (unsigned char *) malloc(buflen);
+      if(!buf)
+        return show_log_error(db, "Failed to allocate buffers");
       optr = buf + 1;
       *((double *) optr) = *((double *) data);
       break;
@@ -1121,6 +1126,8 @@ gint wg_log_encode(void *db, gint type, const void *data, gint length,
       /* strings with extdata */
       buflen = 1 + 2*VARINT_SIZE + length + extlength;
       buf = (unsigned char *) malloc(buflen);
+      if(!buf)
+        return show_log_error(db, "Failed to allocate buffers");
 
       /* data and extdata length */
       optr = buf + 1;
-- 
2.43.0


From ea972b8ca89051937dfc3b023799e4d430ca9d0e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:40:23 +0000
Subject: [PATCH 19/33] fix: an interrupted or timed out wait for a lock is
 taken for success

A thread waiting for the queued lock returned the lock as acquired when the
futex wait was interrupted by a signal, and left the next waiting thread
without a wakeup when its own lock was granted between the timeout and the
removal of its queue node. The fraction of the timeout was given in
milliseconds where nanoseconds are expected.
---
 Db/dblock.c | 37 +++++++++++++++++++++++--------------
 1 file changed, 23 insertions(+), 14 deletions(-)

diff --git a/Db/dblock.c b/Db/dblock.c
index 29ced95..3f1b9c0 100644
--- a/Db/dblock.c
+++ b/Db/dblock.c
@@ -144,7 +144,7 @@ typedef int (kernel_cmpxchg_t) (int oldval, int newval, int *ptr);
 
 #define INIT_QLOCK_TIMEOUT(t, ts) \
   ts.tv_sec = t / 1000; \
-  ts.tv_nsec = t % 1000;
+  ts.tv_nsec = (t % 1000) * 1000000;
 
 #define ALLOC_LOCK(d, l) \
   l = alloc_lock(d); \
@@ -1024,16 +1024,20 @@ gint db_tfqueue_wlock(void * db) {
 
   unlock_queue(db);
 
-  if(lockp->waiting) {
+  /* the wait may be interrupted */
+  while(lockp->waiting) {
 #ifdef __linux__
 #ifdef USE_LOCK_TIMEOUT
     INIT_QLOCK_TIMEOUT(timeout, ts)
     if(futex_trywait(&lockp->waiting, 1, &ts) == ETIMEDOUT) {
       lock_queue(db);
-      DEQUEUE_LOCK(db, dbh, lock, lockp)
-      free_lock(db, lock);
+      if(lockp->waiting) { /* could have been granted meanwhile */
+        DEQUEUE_LOCK(db, dbh, lock, lockp)
+        free_lock(db, lock);
+        unlock_queue(db);
+        return 0;
+      }
       unlock_queue(db);
-      return 0;
     }
 #else
     futex_wait(&lockp->waiting, 1);
@@ -1142,23 +1146,28 @@ gint db_tfqueue_rlock(void * db) {
 
   if(lockp->waiting) {
     volatile gint *syn_addr = NULL;
+    do { /* the wait may be interrupted */
 #ifdef __linux__
 #ifdef USE_LOCK_TIMEOUT
-    INIT_QLOCK_TIMEOUT(timeout, ts)
-    if(futex_trywait(&lockp->waiting, 1, &ts) == ETIMEDOUT) {
-      lock_queue(db);
-      DEQUEUE_LOCK(db, dbh, lock, lockp)
-      free_lock(db, lock);
-      unlock_queue(db);
-      return 0;
-    }
+      INIT_QLOCK_TIMEOUT(timeout, ts)
+      if(futex_trywait(&lockp->waiting, 1, &ts) == ETIMEDOUT) {
+        lock_queue(db);
+        if(lockp->waiting) { /* could have been granted meanwhile */
+          DEQUEUE_LOCK(db, dbh, lock, lockp)
+          free_lock(db, lock);
+          unlock_queue(db);
+          return 0;
+        }
+        unlock_queue(db);
+      }
 #else
-    futex_wait(&lockp->waiting, 1);
+      futex_wait(&lockp->waiting, 1);
 #endif
 #else
 /* XXX: add support for other platforms */
 #error This code needs Linux SYS_futex service to function
 #endif
+    } while(lockp->waiting);
     lock_queue(db);
     if(lockp->next) {
       lock_queue_node *nextp = offsettoptr(db, lockp->next);
-- 
2.43.0


From 9746ceb099237fe9518d275926f3850b5bcabeea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:40:23 +0000
Subject: [PATCH 20/33] fix: size of a dump is read before the database is
 locked

A database that grows while wg_dump() waits for the lock was dumped
incompletely. The file was left open when the lock was not obtained.
---
 Db/dbdump.c | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/Db/dbdump.c b/Db/dbdump.c
index ecab351..20cf0f6 100644
--- a/Db/dbdump.c
+++ b/Db/dbdump.c
@@ -85,7 +85,7 @@ gint wg_dump(void * db,char fileName[]) {
 gint wg_dump_internal(void * db, char fileName[], int locking) {
   FILE *f;
   db_memsegment_header* dbh = dbmemsegh(db);
-  gint dbsize = dbh->free; /* first unused offset - 0 = db size */
+  gint dbsize;
 #ifdef USE_DBLOG
   gint active;
 #endif
@@ -115,6 +115,7 @@ gint wg_dump_internal(void * db, char fileName[], int locking) {
     lock_id = db_rlock(db, DEFAULT_LOCK_TIMEOUT);
     if(!lock_id) {
       show_dump_error(db, "Failed to lock the database for dump");
+      fclose(f);
       return -1;
     }
   }
@@ -124,6 +125,7 @@ gint wg_dump_internal(void * db, char fileName[], int locking) {
     lock_id = db_wlock(db, DEFAULT_LOCK_TIMEOUT);
     if(!lock_id) {
       show_dump_error(db, "Failed to lock the database for dump");
+      fclose(f);
       return -1;
     }
   }
@@ -134,6 +136,8 @@ gint wg_dump_internal(void * db, char fileName[], int locking) {
   }
 #endif
 
+  dbsize = dbh->free; /* first unused offset - 0 = db size */
+
   /* Compute the CRC32 of the used area */
   crc = update_crc32(dbmemsegbytes(db), dbsize, 0x0);
 
-- 
2.43.0


From 7192e6c6b61e69ae60000331f95955e4b7cadb8c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:40:23 +0000
Subject: [PATCH 21/33] fix: wg_dump reports success when the end of the file
 is not written

Errors that show up when buffered data is written out were ignored.
---
 Db/dbdump.c | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/Db/dbdump.c b/Db/dbdump.c
index 20cf0f6..26c40a4 100644
--- a/Db/dbdump.c
+++ b/Db/dbdump.c
@@ -144,8 +144,8 @@ gint wg_dump_internal(void * db, char fileName[], int locking) {
   /* Now, write the memory area to file */
   if(fwrite(dbmemseg(db), dbsize, 1, f) == 1) {
     /* Overwrite checksum field */
-    fseek(f, ptrtooffset(db, &(dbh->checksum)), SEEK_SET);
-    if(fwrite(&crc, sizeof(gint32), 1, f) == 1) {
+    if(!fseek(f, ptrtooffset(db, &(dbh->checksum)), SEEK_SET) &&
+      fwrite(&crc, sizeof(gint32), 1, f) == 1 && !fflush(f)) {
       err = 0;
     }
   }
@@ -178,8 +178,10 @@ gint wg_dump_internal(void * db, char fileName[], int locking) {
   }
 #endif
 
-  fflush(f);
-  fclose(f);
+  if(fclose(f) && !err) {
+    show_dump_error(db, "Error writing file");
+    err = -1;
+  }
 
   return err;
 }
-- 
2.43.0


From 1dbb8d050a46232910e7ec8ff60da28537f7227a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:40:23 +0000
Subject: [PATCH 22/33] fix: importing a dump changes the key and the journal
 of the database

The key (part of the journal file name) and the serial number of the
journal were taken over from the dump, so that the journal of another
database or one already set aside was written to.
---
 Db/dbdump.c | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/Db/dbdump.c b/Db/dbdump.c
index 26c40a4..a2143c2 100644
--- a/Db/dbdump.c
+++ b/Db/dbdump.c
@@ -286,10 +286,11 @@ gint wg_import_dump(void * db,char fileName[]) {
   db_memsegment_header* dumph;
   FILE *f;
   db_memsegment_header* dbh = dbmemsegh(db);
-  gint dbsize = -1, newsize;
+  gint dbsize = -1, newsize, key;
   gint err = -1;
 #ifdef USE_DBLOG
   gint active = dbh->logging.active;
+  gint serial = dbh->logging.serial;
 #endif
 
 
@@ -331,6 +332,7 @@ gint wg_import_dump(void * db,char fileName[]) {
   } else if(dbsize > 0) {
     /* We have a compatible dump file. */
     newsize = dbh->size;
+    key = dbh->key;
     fseek(f, 0, SEEK_SET);
     if(fread(dbmemseg(db), dbsize, 1, f) != 1) {
       show_dump_error(db, "Error reading dump file");
@@ -338,7 +340,11 @@ gint wg_import_dump(void * db,char fileName[]) {
     } else {
       err = 0;
       dbh->size = newsize;
+      dbh->key = key;
       dbh->checksum = 0;
+#ifdef USE_DBLOG
+      dbh->logging.serial = serial;
+#endif
     }
   }
 
-- 
2.43.0


From 223736accac5028398317c0e82b6ea2a57f75c21 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:42:15 +0000
Subject: [PATCH 23/33] fix: a dump that cannot be imported is reported as made

wg_import_dump() refuses dumps with external references.
---
 Db/dbdump.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/Db/dbdump.c b/Db/dbdump.c
index a2143c2..8bbe271 100644
--- a/Db/dbdump.c
+++ b/Db/dbdump.c
@@ -95,7 +95,7 @@ gint wg_dump_internal(void * db, char fileName[], int locking) {
 
 #ifdef CHECK
   if(dbh->extdbs.count != 0) {
-    show_dump_error(db, "Database contains external references");
+    return show_dump_error(db, "Database contains external references");
   }
 #endif
 
-- 
2.43.0


From 439a120844c15c182f4a6b8a81b288fd1b7e3e01 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:50:37 +0000
Subject: [PATCH 24/33] fix: header buffer is leaked when a dump with external
 references is refused

---
 Db/dbdump.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/Db/dbdump.c b/Db/dbdump.c
index 8bbe271..aa98882 100644
--- a/Db/dbdump.c
+++ b/Db/dbdump.c
@@ -319,6 +319,7 @@ gint wg_import_dump(void * db,char fileName[]) {
     dbsize = dumph->free;
     if(dumph->extdbs.count != 0) {
       show_dump_error(db, "Dump contains external references");
+      free(dumph);
       goto abort;
     }
   }
-- 
2.43.0


From 317b1d699fb8e35871af30978e43684fe41efa41 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:55:46 +0000
Subject: [PATCH 25/33] fix: hash index takes integers that differ only above
 32 bits for the same

---
 Db/dbhash.c | 24 ++++++++++++++++++------
 1 file changed, 18 insertions(+), 6 deletions(-)

diff --git a/Db/dbhash.c b/Db/dbhash.c
index 6fddd45..39d760f 100644
--- a/Db/dbhash.c
+++ b/Db/dbhash.c
@@ -312,9 +312,15 @@ gint wg_decode_for_hashing(void *db, gint enc, char **decbytes) {
       bytedata = (char *) &ptrdata;
       break;
     case WG_INTTYPE:
-      len = sizeof(int);
-      intdata = wg_decode_int(db, enc);
-      bytedata = (char *) &intdata;
+      ptrdata = wg_decode_int(db, enc);
+      intdata = (int) ptrdata;
+      if(intdata == ptrdata) {
+        len = sizeof(int);
+        bytedata = (char *) &intdata;
+      } else { /* does not fit, use all of it */
+        len = sizeof(gint);
+        bytedata = (char *) &ptrdata;
+      }
       break;
     case WG_DOUBLETYPE:
       len = sizeof(double);
@@ -358,9 +364,15 @@ gint wg_decode_for_hashing(void *db, gint enc, char **decbytes) {
       bytedata = (char *) &intdata;
       break;
     case WG_VARTYPE:
-      len = sizeof(int);
-      intdata = wg_decode_var(db, enc);
-      bytedata = (char *) &intdata;
+      ptrdata = wg_decode_var(db, enc);
+      intdata = (int) ptrdata;
+      if(intdata == ptrdata) {
+        len = sizeof(int);
+        bytedata = (char *) &intdata;
+      } else {
+        len = sizeof(gint);
+        bytedata = (char *) &ptrdata;
+      }
       break;
     case WG_ANONCONSTTYPE:
       /* Ignore anonconst */
-- 
2.43.0


From c71f3287a9c5dce1e89b807521b528a24825fbd7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:55:46 +0000
Subject: [PATCH 26/33] fix: index hash is corrupted when no list cell can be
 allocated

---
 Db/dbhash.c | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/Db/dbhash.c b/Db/dbhash.c
index 39d760f..c1e664f 100644
--- a/Db/dbhash.c
+++ b/Db/dbhash.c
@@ -456,6 +456,12 @@ gint wg_idxhash_store(void* db, db_hash_area_header *ha,
   head_offset = (ha->arraystart)+(sizeof(gint) * hash);
   head = dbfetch(db, head_offset);
 
+  /* The list cell is needed in any case. */
+  rec_offset = wg_alloc_fixlen_object(db, &(dbh->listcell_area_header));
+  if(!rec_offset) {
+    return -1;
+  }
+
   /* Traverse the hash chain to check if there is a matching
    * hash string already
    */
@@ -473,6 +479,7 @@ gint wg_idxhash_store(void* db, db_hash_area_header *ha,
          &(dbh->indexhash_area_header),
         lengints + HASHIDX_HEADER_SIZE);
     if(!bucket) {
+      wg_free_listcell(db, rec_offset);
       return -1;
     }
 
@@ -496,7 +503,6 @@ gint wg_idxhash_store(void* db, db_hash_area_header *ha,
 
   /* Add the record offset to the list. */
   rec_head = dbfetch(db, bucket + HASHIDX_RECLIST_POS*sizeof(gint));
-  rec_offset = wg_alloc_fixlen_object(db, &(dbh->listcell_area_header));
   rec_cell = (gcell *) offsettoptr(db, rec_offset);
   rec_cell->car = offset;
   rec_cell->cdr = rec_head;
-- 
2.43.0


From 8c5b6fadfcd7061ca95698055aeecb250c5c544b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:09:41 +0000
Subject: [PATCH 27/33] fix: a refused index creation leaves an index without
 contents behind

---
 Db/dbindex.c | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/Db/dbindex.c b/Db/dbindex.c
index 65b9ddc..48a1739 100644
--- a/Db/dbindex.c
+++ b/Db/dbindex.c
@@ -2092,6 +2092,13 @@ gint wg_create_multi_index(void *db, gint *columns, gint col_count, gint type,
     return -1;
   }
 
+  if(type != WG_INDEX_TYPE_TTREE && type != WG_INDEX_TYPE_HASH &&\
+    type != WG_INDEX_TYPE_HASH_JSON) {
+    /* WG_INDEX_TYPE_TTREE_JSON has no proper implementation yet */
+    show_index_error(db, "Invalid index type");
+    return -1;
+  }
+
   if(sort_columns(sorted_cols, columns, col_count) < col_count) {
     show_index_error(db, "Duplicate columns not allowed");
     return -1;
-- 
2.43.0


From d22eea4235a49e397bda324a8c01345fabc87a54 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:09:41 +0000
Subject: [PATCH 28/33] fix: a hash index that cannot be dropped is taken out
 of use

---
 Db/dbindex.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/Db/dbindex.c b/Db/dbindex.c
index 48a1739..897a7a1 100644
--- a/Db/dbindex.c
+++ b/Db/dbindex.c
@@ -2291,6 +2291,8 @@ gint wg_drop_index(void *db, gint index_id){
     ilistelem = (gcell *) offsettoptr(db, *ilist);
     if(ilistelem->car == index_id) {
       hdr = (wg_index_header *) offsettoptr(db, index_id);
+      if(hdr->type == WG_INDEX_TYPE_HASH || hdr->type == WG_INDEX_TYPE_HASH_JSON)
+        return drop_hash_index(db, index_id); /* refused, keep the index */
       /* Delete current element */
       delete_from_list(db, ilist);
       break;
-- 
2.43.0


From c18d9449cf7923dc9587698808a908223c08a0e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:09:41 +0000
Subject: [PATCH 29/33] fix: building a hash index reads past the end of
 records

---
 Db/dbindex.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/Db/dbindex.c b/Db/dbindex.c
index 897a7a1..3f771f1 100644
--- a/Db/dbindex.c
+++ b/Db/dbindex.c
@@ -1611,7 +1611,7 @@ static gint create_hash_index(void *db, gint index_id){
   void *rec;
   wg_index_header *hdr = (wg_index_header *) offsettoptr(db, index_id);
   gint type = hdr->type;
-  gint firstcol = hdr->rec_field_index[0];
+  gint lastcol = hdr->rec_field_index[hdr->fields - 1];
   gint i;
 
   /* Initialize the hash table (0 - use default size) */
@@ -1623,7 +1623,7 @@ static gint create_hash_index(void *db, gint index_id){
   rowsprocessed = 0;
 
   while(rec != NULL) {
-    if(firstcol >= wg_get_record_len(db, rec)) {
+    if(lastcol >= wg_get_record_len(db, rec)) {
       rec=wg_get_next_record(db,rec);
       continue;
     }
-- 
2.43.0


From b615809cc3bfb9a022fe356b5705946165a55f2d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:10:02 +0000
Subject: [PATCH 30/33] fix: listing the indexes overruns its buffer if one has
 several columns

---
 Db/dbindex.c | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/Db/dbindex.c b/Db/dbindex.c
index 3f771f1..531fe25 100644
--- a/Db/dbindex.c
+++ b/Db/dbindex.c
@@ -2608,7 +2608,11 @@ void * wg_get_all_indexes(void *db, gint *count) {
     while(*ilist) {
       gcell *ilistelem = (gcell *) offsettoptr(db, *ilist);
       if(ilistelem->car) {
-        res[(*count)++] = ilistelem->car;
+        wg_index_header *hdr = \
+          (wg_index_header *) offsettoptr(db, ilistelem->car);
+        /* A multi-column index is in the list of each column */
+        if(hdr->rec_field_index[0] == column)
+          res[(*count)++] = ilistelem->car;
       }
       ilist = &ilistelem->cdr;
     }
-- 
2.43.0


From ac6dc9a6c7f6180900b5787ebe45f76a3a73428b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:11:18 +0000
Subject: [PATCH 31/33] fix: index creation that runs out of memory corrupts
 the database

---
 Db/dbindex.c | 45 +++++++++++++++++++++++++++------------------
 1 file changed, 27 insertions(+), 18 deletions(-)

diff --git a/Db/dbindex.c b/Db/dbindex.c
index 531fe25..894de6c 100644
--- a/Db/dbindex.c
+++ b/Db/dbindex.c
@@ -1380,6 +1380,8 @@ static gint create_ttree_index(void *db, gint index_id){
   /* allocate (+ init) root node for new index tree and save
    * the offset into index_array */
   node = wg_alloc_fixlen_object(db, &dbh->tnode_area_header);
+  if(!node)
+    return -1;
   nodest =(struct wg_tnode *)offsettoptr(db,node);
   nodest->parent_offset = 0;
   nodest->left_subtree_height = 0;
@@ -1718,15 +1720,15 @@ gint wg_search_hash(void *db, gint index_id, gint *values, gint count) {
  */
 static gint insert_into_list(void *db, gint *head, gint value) {
   db_memsegment_header* dbh = dbmemsegh(db);
-  gint old = *head;
+  gint cell = wg_alloc_fixlen_object(db, &dbh->listcell_area_header);
 
-  *head = wg_alloc_fixlen_object(db, &dbh->listcell_area_header);
-  if(*head) {
-    gcell *listelem = (gcell *) offsettoptr(db, *head);
+  if(cell) {
+    gcell *listelem = (gcell *) offsettoptr(db, cell);
     listelem->car = value;
-    listelem->cdr = old;
+    listelem->cdr = *head;
+    *head = cell;
   }
-  return *head;
+  return cell;
 }
 
 /** Delete from list
@@ -1835,9 +1837,12 @@ nextelem:
 
   /* Add new template header */
   template_offset = wg_alloc_fixlen_object(db, &dbh->indextmpl_area_header);
+  if(!template_offset)
+    return 0;
   tmpl = (wg_index_template *) offsettoptr(db, template_offset);
   tmpl->offset_matchrec = ptrtooffset(db, rec);
   tmpl->fixed_columns = fixed_columns;
+  tmpl->refcount = 0;
 
   /* Insert it into the template list */
   if(!insert_into_list(db, ilist, template_offset))
@@ -2200,17 +2205,8 @@ gint wg_create_multi_index(void *db, gint *columns, gint col_count, gint type,
 
   /* Add new index header */
   index_id = wg_alloc_fixlen_object(db, &dbh->indexhdr_area_header);
-
-  for(i=0; i<col_count; i++) {
-    if(!insert_into_list(db, ilist[i], index_id)) {
-      if(i) {
-        /* XXX: need to clean up the earlier inserts :-( */
-        return -1;
-      } else {
-        return -1;
-      }
-    }
-  }
+  if(!index_id)
+    return -1;
 
   /* Set up the header */
   hdr = (wg_index_header *) offsettoptr(db, index_id);
@@ -2224,7 +2220,8 @@ gint wg_create_multi_index(void *db, gint *columns, gint col_count, gint type,
   /* create the actual index */
   switch(hdr->type) {
     case WG_INDEX_TYPE_TTREE:
-      create_ttree_index(db, index_id);
+      if(create_ttree_index(db, index_id))
+        return -1;
       break;
     case WG_INDEX_TYPE_HASH:
     case WG_INDEX_TYPE_HASH_JSON:
@@ -2238,6 +2235,18 @@ gint wg_create_multi_index(void *db, gint *columns, gint col_count, gint type,
       return -1;
   }
 
+  /* Add to the lists of the columns, now that the contents are complete */
+  for(i=0; i<col_count; i++) {
+    if(!insert_into_list(db, ilist[i], index_id)) {
+      if(i) {
+        /* XXX: need to clean up the earlier inserts :-( */
+        return -1;
+      } else {
+        return -1;
+      }
+    }
+  }
+
   /* Add to master list */
   if(!insert_into_list(db,
      &dbh->index_control_area_header.index_list ,index_id))
-- 
2.43.0


From 2d8fbd32465ce25ba689d037d0fd5b9e1620560e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:27:18 +0000
Subject: [PATCH 32/33] fix: a query for an empty range of an index returns
 rows outside it or no valid count

---
 Db/dbquery.c | 22 +++++++++++-----------
 1 file changed, 11 insertions(+), 11 deletions(-)

diff --git a/Db/dbquery.c b/Db/dbquery.c
index f533691..702199d 100644
--- a/Db/dbquery.c
+++ b/Db/dbquery.c
@@ -715,7 +715,7 @@ static wg_query *internal_build_query(void *db, void *matchrec, gint reclen,
   }
 
   if(index_id > 0) {
-    int start_inclusive = 0, end_inclusive = 0;
+    int start_inclusive = 0, end_inclusive = 0, empty_range = 0;
     gint start_bound = WG_ILLEGAL; /* encoded values */
     gint end_bound = WG_ILLEGAL;
 
@@ -812,18 +812,18 @@ static wg_query *internal_build_query(void *db, void *matchrec, gint reclen,
       }
     }
 
-    /* Simple sanity check. Is start_bound greater than end_bound? */
-    if(start_bound!=WG_ILLEGAL && end_bound!=WG_ILLEGAL &&\
-      WG_COMPARE(db, start_bound, end_bound) == WG_GREATER) {
-      /* return empty query */
-      query->argc = 0;
-      query->arglist = NULL;
-      free(full_arglist);
-      return query;
+    /* Simple sanity check. Is start_bound greater than end_bound, or
+     * are they equal, with the value itself excluded? */
+    if(start_bound!=WG_ILLEGAL && end_bound!=WG_ILLEGAL) {
+      gint cmp = WG_COMPARE(db, start_bound, end_bound);
+      if(cmp == WG_GREATER ||\
+        (cmp == WG_EQUAL && !(start_inclusive && end_inclusive)))
+        empty_range = 1;
     }
 
-    /* Now find the bounding nodes for the query */
-    if(find_ttree_bounds(db, index_id, col,
+    /* Now find the bounding nodes for the query. In case of an empty
+     * range, no node is set and the query returns no rows. */
+    if(!empty_range && find_ttree_bounds(db, index_id, col,
         start_bound, end_bound, start_inclusive, end_inclusive,
         &query->curr_offset, &query->curr_slot, &query->end_offset,
         &query->end_slot)) {
-- 
2.43.0


From d7c07c88c51a6df5d8e17dc6aef7ab4f25542e5b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:27:18 +0000
Subject: [PATCH 33/33] fix: offsets of indexes above 2 GiB are cut short when
 a query picks one

---
 Db/dbquery.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/Db/dbquery.c b/Db/dbquery.c
index 702199d..c00c629 100644
--- a/Db/dbquery.c
+++ b/Db/dbquery.c
@@ -140,7 +140,7 @@ static gint most_restricting_column(void *db,
   struct column_score {
     gint column;
     int score;
-    int index_id;
+    gint index_id;
   };
   struct column_score *sc;
   int i, j, mrc_score = -1;
-- 
2.43.0

