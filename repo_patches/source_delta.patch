From d4dfa8339ce1f2c8c4bf45654620a11a66e36a29 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:14:16 +0000
Subject: [PATCH 01/50] fix: read and write bit-fields of any width and
 position exactly

Bit-fields of 31 bits and more were read and written through int-sized masks
(undefined shifts, wrong values), and a bit-field of a packed structure which
crosses its storage unit lost its upper bits.
---
 src/value.c | 82 ++++++++++++++++++++++++++++++++---------------------
 1 file changed, 50 insertions(+), 32 deletions(-)

diff --git a/src/value.c b/src/value.c
index 1d15d06..14e35db 100644
--- a/src/value.c
+++ b/src/value.c
@@ -111,6 +111,11 @@ static metac_flag_t _entry_bitfield_supported(metac_encoding_t encoding) {
     return 1;
 }
 
+/** mask with bit_size lower bits set */
+static uint64_t _bitfield_mask(metac_offset_t bit_size) {
+    return (bit_size < 64) ? ((((uint64_t)1) << bit_size) - 1) : (~(uint64_t)0);
+}
+
 /**
  * read bitfield to normal var
  * Note: base_addr pointing on the beginning of structure; 
@@ -122,33 +127,41 @@ static int _entry_bitfield_read(metac_entry_t *p_memb_entry, void * base_addr, v
     metac_offset_t byte_offset;
     metac_offset_t bit_offset;
     metac_offset_t bit_size;
-    uint8_t buf[16];
+    uint8_t buf[16] = {0,};
+    uint64_t bits = 0;
 
     _check_(metac_entry_member_bitfield_offsets(p_memb_entry, &byte_offset, &bit_offset, &bit_size) != 0, -(EINVAL));
+    _check_(bit_size == 0 || bit_size > 64 || bit_size > 8 * var_size, -(EINVAL));
 
      /* TODO: Caution: this has been tested only with little-endian machines*/
+    base_addr += byte_offset;
     if (IS_LITTLE_ENDIAN) {
-        base_addr += byte_offset;
-        // read only number of bytes that we really need
+        // read only number of bytes that we really need (it can be up to 9 bytes for packed structures)
         // TODO: make it without extra copy if possible
         // TODO: need to make it for both endians
-        assert(bit_size != 0);
         memcpy(buf, base_addr, (bit_offset + bit_size - 1)/8 + 1);
-        base_addr = buf;
+        memcpy(&bits, buf, sizeof(bits));
+        bits >>= bit_offset;
+        if (bit_offset + bit_size > 64) {
+            bits |= ((uint64_t)buf[8]) << (64 - bit_offset);
+        }
     } else {
-        base_addr += byte_offset;
         bit_offset = 8 * var_size - (bit_offset + bit_size);
     }
 
 #define _read_(_type_) \
     do{ \
-        _type_ data = *((_type_*)base_addr); \
-        data = (data >> bit_offset) & ((1 << bit_size) - 1); \
-        \
-        if ((correct_sign) && (data & (1 << (bit_size-1)))) { \
-            data = ((-1) << ((bit_size))) ^ data; \
+        _type_ data; \
+        if (!IS_LITTLE_ENDIAN) { \
+            memcpy(&data, base_addr, sizeof(data)); \
+            bits = ((uint64_t)data) >> bit_offset; \
+        } \
+        bits &= _bitfield_mask(bit_size); \
+        if ((correct_sign) && ((bits >> (bit_size - 1)) & 1)) { \
+            bits |= ~_bitfield_mask(bit_size); \
         } \
-        *((_type_*)p_var) = data; \
+        data = (_type_)bits; \
+        memcpy(p_var, &data, sizeof(data)); \
     } while(0)
 
     if (var_size == sizeof(unsigned char)) {
@@ -176,30 +189,40 @@ static int _entry_bitfield_write(metac_entry_t *p_memb_entry, void * base_addr,
     metac_offset_t byte_offset;
     metac_offset_t bit_offset;
     metac_offset_t bit_size;
-    void * base_addr_orig = NULL;
-    uint8_t buf[16];
+    uint8_t buf[16] = {0,};
 
     _check_(metac_entry_member_bitfield_offsets(p_memb_entry, &byte_offset, &bit_offset, &bit_size) != 0, -(EINVAL));
+    _check_(bit_size == 0 || bit_size > 64 || bit_size > 8 * var_size, -(EINVAL));
 
      /* TODO: Caution: this has been tested only with little-endian machines*/
-    if (IS_LITTLE_ENDIAN) {
-        base_addr += byte_offset;
-        // write only number of bytes that we really need
-        // TODO: make it without extra copy if possible
-        // TODO: need to make it for both endians
-        assert(bit_size != 0);
-        base_addr_orig = base_addr;
-        memcpy(buf, base_addr, (bit_offset + bit_size - 1)/8 + 1);
-        base_addr = buf;
-    } else {
-        base_addr += byte_offset;
+    base_addr += byte_offset;
+    if (!IS_LITTLE_ENDIAN) {
         bit_offset = 8 * var_size - (bit_offset + bit_size);
     }
 
 #define _write_(_type_) \
     do { \
-        _type_ data = ((*(_type_*)p_var) & ((1 << bit_size) - 1)) << bit_offset; \
-        *((_type_*)base_addr) = *((_type_*)base_addr) & (~(((1 << bit_size) - 1) << bit_offset )) | data;\
+        _type_ data; \
+        memcpy(&data, p_var, sizeof(data)); \
+        uint64_t mask = _bitfield_mask(bit_size); \
+        uint64_t bits = ((uint64_t)data) & mask; \
+        if (IS_LITTLE_ENDIAN) { \
+            /* write only number of bytes that we really need (it can be up to 9 bytes for packed structures) */ \
+            uint64_t low; \
+            memcpy(buf, base_addr, (bit_offset + bit_size - 1)/8 + 1); \
+            memcpy(&low, buf, sizeof(low)); \
+            low = (low & ~(mask << bit_offset)) | (bits << bit_offset); \
+            memcpy(buf, &low, sizeof(low)); \
+            if (bit_offset + bit_size > 64) { \
+                buf[8] = (uint8_t)((buf[8] & ~(mask >> (64 - bit_offset))) | (bits >> (64 - bit_offset))); \
+            } \
+            memcpy(base_addr, buf, (bit_offset + bit_size - 1)/8 + 1); \
+        } else { \
+            _type_ dst; \
+            memcpy(&dst, base_addr, sizeof(dst)); \
+            dst = (_type_)((dst & ~(mask << bit_offset)) | (bits << bit_offset)); \
+            memcpy(base_addr, &dst, sizeof(dst)); \
+        } \
     } while (0)
 
     if (var_size == sizeof(unsigned char)) {
@@ -217,11 +240,6 @@ static int _entry_bitfield_write(metac_entry_t *p_memb_entry, void * base_addr,
     }
 #undef _write_
 
-    if (IS_LITTLE_ENDIAN) {
-        // write back only needed data
-        memcpy(base_addr_orig, buf, (bit_offset + bit_size-1)/8 +1);
-    }
-
     return 0;
 }
 
-- 
2.43.0


From 93506d2503b4fd0c97ae9ae3a2b7e748d02bdd61 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:14:46 +0000
Subject: [PATCH 02/50] fix: read and write enumerations according to their
 sign and bit position

Enumerators above the signed range of the enum's storage (e.g. 200 in a packed
enum, 0xffffffff) were read as negative and lost their names, and enum
bit-fields were read from and written to the start of the structure.
---
 src/value.c | 109 ++++++++++++++++++++++++++++++++++------------------
 1 file changed, 71 insertions(+), 38 deletions(-)

diff --git a/src/value.c b/src/value.c
index 14e35db..14c6119 100644
--- a/src/value.c
+++ b/src/value.c
@@ -490,6 +490,35 @@ struct metac_type_enumerator_info const * metac_value_enumeration_info(metac_val
     return metac_entry_enumeration_info(p_final_entry, id);
 }
 
+/* compilers use unsigned type for enum if none of its enumerators is negative */
+static metac_flag_t _enumeration_is_signed(metac_entry_t * p_final_entry) {
+    metac_num_t size = metac_entry_enumeration_info_size(p_final_entry);
+    for (metac_num_t i = 0; i < size; ++i) {
+        struct metac_type_enumerator_info const * p_info = metac_entry_enumeration_info(p_final_entry, i);
+        if (p_info != NULL && p_info->const_value < 0) {
+            return 1;
+        }
+    }
+    return 0;
+}
+
+/* non-zero if the value is a bitfield of structure/union */
+static metac_flag_t _value_is_bitfield(metac_value_t * p_val) {
+    struct metac_member_raw_location_info raw_info;
+    return metac_entry_is_member(p_val->p_entry) != 0 &&
+        metac_entry_member_raw_location_info(p_val->p_entry, &raw_info) == 0 &&
+        raw_info.p_bit_size != NULL;
+}
+
+/* address of the beginning of structure/union that contains the bitfield (see metac_new_value_by_member_id) */
+static void * _value_bitfield_base_addr(metac_value_t * p_val) {
+    struct metac_member_raw_location_info raw_info;
+    if (metac_entry_member_raw_location_info(p_val->p_entry, &raw_info) != 0) {
+        return NULL;
+    }
+    return p_val->addr - raw_info.byte_offset;
+}
+
 int metac_value_enumeration(metac_value_t * p_val, metac_const_value_t *p_var) {
     _check_(p_var == NULL, -(EINVAL));
 
@@ -501,27 +530,32 @@ int metac_value_enumeration(metac_value_t * p_val, metac_const_value_t *p_var) {
     if (metac_entry_byte_size(p_final_entry, &enum_byte_size) != 0) {
         return -(EFAULT);
     }
+    metac_flag_t is_signed = _enumeration_is_signed(p_final_entry);
 
-    if (enum_byte_size == sizeof(char)) {
-        *p_var = *(char*)p_val->addr;
-        return 0;
-    }
-    if (enum_byte_size == sizeof(short)){
-        *p_var = *(short*)p_val->addr;
-        return 0;
-    }
-    if (enum_byte_size == sizeof(int)){
-        *p_var = *(int*)p_val->addr;
-        return 0;
-    }
-    if (enum_byte_size == sizeof(long)){
-        *p_var = *(long*)p_val->addr;
-        return 0;
-    }
-    if (enum_byte_size == sizeof(long long)){
-        *p_var = *(long long*)p_val->addr;
-        return 0;
+    if (_value_is_bitfield(p_val) != 0) {
+        uint64_t v = 0;
+        int err = _entry_bitfield_read(p_val->p_entry, _value_bitfield_base_addr(p_val), &v, sizeof(v), is_signed);
+        if (err == 0) {
+            *p_var = (metac_const_value_t)v;
+        }
+        return err;
     }
+
+#define _read_(_signed_type_, _unsigned_type_) \
+    do { \
+        if (enum_byte_size == sizeof(_signed_type_)) { \
+            _signed_type_ v; \
+            memcpy(&v, p_val->addr, sizeof(v)); /* can be not aligned in packed structures */ \
+            *p_var = (is_signed != 0) ? (metac_const_value_t)v : (metac_const_value_t)(_unsigned_type_)v; \
+            return 0; \
+        } \
+    } while(0)
+    _read_(signed char, unsigned char);
+    _read_(short, unsigned short);
+    _read_(int, unsigned int);
+    _read_(long, unsigned long);
+    _read_(long long, unsigned long long);
+#undef _read_
     return -(ENOTSUP);
 }
 
@@ -540,26 +574,25 @@ int metac_value_set_enumeration(metac_value_t * p_val, metac_const_value_t var)
         return -(EFAULT);
     }
 
-    if (enum_byte_size == sizeof(char)) {
-        *(char*)p_val->addr = (char)var;
-        return 0;
-    }
-    if (enum_byte_size == sizeof(short)){
-        *(short*)p_val->addr = (short)var;
-        return 0;
-    }
-    if (enum_byte_size == sizeof(int)){
-        *(int*)p_val->addr = (int)var;
-        return 0;
-    }
-    if (enum_byte_size == sizeof(long)){
-        *(long*)p_val->addr = (long)var;
-        return 0;
-    }
-    if (enum_byte_size == sizeof(long long)){
-        *(long long*)p_val->addr = (long long)var;
-        return 0;
+    if (_value_is_bitfield(p_val) != 0) {
+        uint64_t v = (uint64_t)var;
+        return _entry_bitfield_write(p_val->p_entry, _value_bitfield_base_addr(p_val), &v, sizeof(v));
     }
+
+#define _write_(_type_) \
+    do { \
+        if (enum_byte_size == sizeof(_type_)) { \
+            _type_ v = (_type_)var; \
+            memcpy(p_val->addr, &v, sizeof(v)); /* can be not aligned in packed structures */ \
+            return 0; \
+        } \
+    } while(0)
+    _write_(char);
+    _write_(short);
+    _write_(int);
+    _write_(long);
+    _write_(long long);
+#undef _write_
     return -(ENOTSUP);
 }
 
-- 
2.43.0


From e1882fbba1efcf7f1c5648c842f1809818e571c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:15:03 +0000
Subject: [PATCH 03/50] fix: do not access pointers of packed structures as if
 they were aligned

---
 src/value.c | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/value.c b/src/value.c
index 14c6119..e2d039f 100644
--- a/src/value.c
+++ b/src/value.c
@@ -668,7 +668,7 @@ int metac_value_pointer(metac_value_t *p_val, void ** pp_addr) {
     _check_(p_final_entry == NULL, -(EINVAL));
     _check_(p_val->addr == NULL, -(EINVAL));
 
-    *pp_addr = *((void**)p_val->addr);
+    memcpy(pp_addr, p_val->addr, sizeof(*pp_addr)); /* can be not aligned in packed structures */
     return 0;
 }
 
@@ -677,7 +677,7 @@ int metac_value_set_pointer(metac_value_t *p_val, void * addr) {
     _check_(p_final_entry == NULL, -(EINVAL));
     _check_(p_val->addr == NULL, -(EINVAL));
 
-    *((void**)p_val->addr) = addr;
+    memcpy(p_val->addr, &addr, sizeof(addr)); /* can be not aligned in packed structures */
     return 0;
 }
 
@@ -804,7 +804,7 @@ metac_value_t * metac_new_element_count_value(metac_value_t *p_val, metac_num_t
     case METAC_KND_array_type:
         break;
     case METAC_KND_pointer_type:
-        p_addr = *((void**)p_addr);
+        memcpy(&p_addr, p_val->addr, sizeof(p_addr)); /* can be not aligned in packed structures */
         _check_(p_addr == NULL, NULL);
         break;
     default:
-- 
2.43.0


From f3fbfba29a978e7d4e5f56645fc0436ceb1c6290 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:20:59 +0000
Subject: [PATCH 04/50] fix: hash without signed overflow

---
 src/hashmap.c | 15 ++++++++-------
 1 file changed, 8 insertions(+), 7 deletions(-)

diff --git a/src/hashmap.c b/src/hashmap.c
index 8a73998..da44ccb 100644
--- a/src/hashmap.c
+++ b/src/hashmap.c
@@ -86,15 +86,16 @@ Hashmap* hashmapCreate(size_t initialCapacity,
  * Hashes the given key.
  */
 static inline int hashKey(Hashmap* map, void* key) {
-    int h = map->hash(key);
+    // unsigned: the mixing relies on wrap-around, which is undefined for int
+    unsigned int h = (unsigned int) map->hash(key);
     // We apply this secondary hashing discovered by Doug Lea to defend
     // against bad hashes.
     h += ~(h << 9);
-    h ^= (((unsigned int) h) >> 14);
+    h ^= (h >> 14);
     h += (h << 4);
-    h ^= (((unsigned int) h) >> 10);
+    h ^= (h >> 10);
        
-    return h;
+    return (int) h;
 }
 size_t hashmapSize(Hashmap* map) {
     return map->size;
@@ -156,14 +157,14 @@ void hashmapFree(Hashmap* map) {
     free(map);
 }
 int hashmapHash(void* key, size_t keySize) {
-    int h = keySize;
+    unsigned int h = (unsigned int) keySize; // unsigned: wrap-around is intended
     char* data = (char*) key;
     size_t i;
     for (i = 0; i < keySize; i++) {
-        h = h * 31 + *data;
+        h = h * 31 + (unsigned int) *data;
         data++;
     }
-    return h;
+    return (int) h;
 }
 static Entry* createEntry(void* key, int hash, void* value) {
     Entry* entry = malloc(sizeof(Entry));
-- 
2.43.0


From 382be854213821665035c63d4f770745863743c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:20:59 +0000
Subject: [PATCH 05/50] fix: report no previous value when a put runs out of
 memory

---
 src/hashmap.c | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/hashmap.c b/src/hashmap.c
index da44ccb..6c46d24 100644
--- a/src/hashmap.c
+++ b/src/hashmap.c
@@ -198,6 +198,9 @@ int hashmapPut(Hashmap* map, void* key, void* value, void ** p_res) {
         if (current == NULL) {
             *p = createEntry(key, hash, value);
             if (*p == NULL) {
+                if (p_res != NULL) {
+                    *p_res = NULL;
+                }
                 return -(ENOMEM);
             }
             map->size++;
-- 
2.43.0


From bc2a0398a52dcbce5a6e3792b26a96cfd79817ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:20:59 +0000
Subject: [PATCH 06/50] fix: allow new sub-tasks after all previous ones were
 dequeued

---
 src/iterator.c | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/iterator.c b/src/iterator.c
index 4d4738a..1c55e5f 100644
--- a/src/iterator.c
+++ b/src/iterator.c
@@ -284,6 +284,9 @@ void * metac_recursive_iterator_dequeue_and_delete_dep(metac_recursive_iterator_
     recursive_iterator_entry_t * p_entry = LIST_FIRST(&p_iterator->p_current->deps);
     assert(metac_r_iter_state_is_end(p_entry->state));
     LIST_REMOVE(p_entry, links);
+    if (LIST_EMPTY(&p_iterator->p_current->deps)) { // the removed one was the last - more deps can be added later
+        p_iterator->p_current->last_dep = NULL;
+    }
 
     void * p_out = metac_recursive_iterator_entry_get_out(p_entry, pp_in, p_fail);
     metac_recursive_iterator_entry_free(p_entry);
-- 
2.43.0


From 6ee26a3473fc8ad73b87e6c49de8c984c5624c6f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:27:38 +0000
Subject: [PATCH 07/50] fix: declare pointers to arrays and multi-qualified
 pointers correctly

---
 src/entry_cdecl.c | 25 +++++++++++++++++++++++--
 1 file changed, 23 insertions(+), 2 deletions(-)

diff --git a/src/entry_cdecl.c b/src/entry_cdecl.c
index 49547cc..7787c93 100644
--- a/src/entry_cdecl.c
+++ b/src/entry_cdecl.c
@@ -9,6 +9,24 @@ dsprintf_render_with_buf(64)
 
 #include <assert.h>
 
+/* skips qualifiers, but not typedefs: declaration text refers to typedefs by name */
+static metac_entry_t * skip_quals(metac_entry_t * p_entry) {
+    while (p_entry != NULL) {
+        switch (p_entry->kind) {
+            case METAC_KND_const_type:
+            case METAC_KND_volatile_type:
+            case METAC_KND_restrict_type:
+            case METAC_KND_mutable_type:
+            case METAC_KND_shared_type:
+            case METAC_KND_packed_type:
+                p_entry = p_entry->qual_type_info.type;
+                continue;
+        }
+        break;
+    }
+    return p_entry;
+}
+
 /**
  * convert metac_entry to the C-declaration like string.
  * if entry is type the result will container a placeholder %s
@@ -184,7 +202,8 @@ char * metac_entry_cdecl(metac_entry_t * p_entry) {
                             continue;
                         }
                         char * res = NULL;
-                        if (p->qual_type_info.type != NULL && p->qual_type_info.type->kind == METAC_KND_pointer_type) {
+                        metac_entry_t * p_unqual_entry = skip_quals(p->qual_type_info.type);
+                        if (p_unqual_entry != NULL && p_unqual_entry->kind == METAC_KND_pointer_type) {
                             /* this is more universal way... maybe we will switch to that*/
                             /*printf("PTR: returned %s, qual_str %s\n", (type_pattern != NULL)?type_pattern:"void %%s", qual_str);*/
                             res = dsprintf((type_pattern != NULL)?type_pattern:"void %s",
@@ -225,8 +244,10 @@ char * metac_entry_cdecl(metac_entry_t * p_entry) {
                                 continue;
                             }
                         }
+                        metac_entry_t * p_pointee = skip_quals(p->pointer_type_info.type);
                         char * res = dsprintf((type_pattern != NULL)?type_pattern:"void %s",
-                            "* %s");
+                            /* [] binds tighter than *. functions already provide () */
+                            (p_pointee != NULL && p_pointee->kind == METAC_KND_array_type)?"(* %s)":"* %s");
                         if (type_pattern != NULL) {
                             free(type_pattern);
                         }
-- 
2.43.0


From 28a875e81e7c0da3bbb54e90b76bc25fda440838 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:27:55 +0000
Subject: [PATCH 08/50] fix: declare functions that return function or array
 pointers correctly

---
 src/entry_cdecl.c | 62 +++++++++++++++++++----------------------------
 1 file changed, 25 insertions(+), 37 deletions(-)

diff --git a/src/entry_cdecl.c b/src/entry_cdecl.c
index 7787c93..a6e8e00 100644
--- a/src/entry_cdecl.c
+++ b/src/entry_cdecl.c
@@ -458,30 +458,23 @@ char * metac_entry_cdecl(metac_entry_t * p_entry) {
                             metac_recursive_iterator_fail(p_iter);
                             continue;
                         }
-                        // append type_pattern with (%s)
-                        char * subprogram_pattern = dsprintf("%s(%s)",
-                            (type_pattern != NULL)?type_pattern:"void %s",
-                            "%s");
-                        if (type_pattern != NULL) {
-                            free(type_pattern);
-                        }
-                        if (subprogram_pattern == NULL) {
-                            if (params != NULL) {
-                                free(params);
-                            }
-                            metac_recursive_iterator_fail(p_iter);
-                            continue;
-                        }
-                        // put everything into pattern
-                        char * res = dsprintf(subprogram_pattern,
+                        // the name with its parameters takes the place of the name in the result type:
+                        // that is not the end if the result is e.g. a pointer to function
+                        char * declarator = dsprintf("%s(%s)",
                             p->name,
                             (params!=NULL)?params:"");
-                        if (subprogram_pattern != NULL) {
-                            free(subprogram_pattern);
-                        }
                         if (params != NULL) {
                             free(params);
                         }
+                        char * res = NULL;
+                        if (declarator != NULL) {
+                            res = dsprintf((type_pattern != NULL)?type_pattern:"void %s",
+                                declarator);
+                            free(declarator);
+                        }
+                        if (type_pattern != NULL) {
+                            free(type_pattern);
+                        }
                         if (res == NULL) {
                             metac_recursive_iterator_fail(p_iter);
                             continue;
@@ -568,28 +561,23 @@ char * metac_entry_cdecl(metac_entry_t * p_entry) {
                             metac_recursive_iterator_fail(p_iter);
                             continue;
                         }
-                        // append type_pattern with (%s)
-                        char * subroutine_pattern = dsprintf("%s(%s)",
-                            (type_pattern != NULL)?type_pattern:"void %s",
-                            "%s");
-                        if (type_pattern != NULL) {
-                            free(type_pattern);
-                        }
-                        if (subroutine_pattern == NULL) {
-                            if (params != NULL) {
-                                free(params);
-                            }
-                            metac_recursive_iterator_fail(p_iter);
-                            continue;
-                        }
-                        // now we can form final result
-                        char * res = dsprintf(subroutine_pattern,
-                            "(%s)",
+                        // put the placeholder with parameters to the place of the name in the result type:
+                        // that is not the end if the result is e.g. a pointer to function
+                        char * declarator = dsprintf("(%s)(%s)",
+                            "%s",
                             (params!=NULL)?params:"");
-                        free(subroutine_pattern);
                         if (params != NULL) {
                             free(params);
                         }
+                        char * res = NULL;
+                        if (declarator != NULL) {
+                            res = dsprintf((type_pattern != NULL)?type_pattern:"void %s",
+                                declarator);
+                            free(declarator);
+                        }
+                        if (type_pattern != NULL) {
+                            free(type_pattern);
+                        }
                         if (res == NULL) {
                             metac_recursive_iterator_fail(p_iter);
                             continue;
-- 
2.43.0


From 192fb0072f2e23bfebdeccc783b12517ac0e1af1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:29:10 +0000
Subject: [PATCH 09/50] fix: declare qualified arrays of pointers correctly

---
 src/entry_cdecl.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/entry_cdecl.c b/src/entry_cdecl.c
index a6e8e00..a1f2d87 100644
--- a/src/entry_cdecl.c
+++ b/src/entry_cdecl.c
@@ -203,6 +203,10 @@ char * metac_entry_cdecl(metac_entry_t * p_entry) {
                         }
                         char * res = NULL;
                         metac_entry_t * p_unqual_entry = skip_quals(p->qual_type_info.type);
+                        while (p_unqual_entry != NULL && p_unqual_entry->kind == METAC_KND_array_type) {
+                            /* qualifiers of array are qualifiers of its elements */
+                            p_unqual_entry = skip_quals(p_unqual_entry->array_type_info.type);
+                        }
                         if (p_unqual_entry != NULL && p_unqual_entry->kind == METAC_KND_pointer_type) {
                             /* this is more universal way... maybe we will switch to that*/
                             /*printf("PTR: returned %s, qual_str %s\n", (type_pattern != NULL)?type_pattern:"void %%s", qual_str);*/
-- 
2.43.0


From f300912b14f557895e7a5ee4a2e304c12773b0b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:40:21 +0000
Subject: [PATCH 10/50] fix: copy several pointers to the same inner part of a
 memory block

---
 src/value_deep.c | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/src/value_deep.c b/src/value_deep.c
index 1e44f49..164c805 100644
--- a/src/value_deep.c
+++ b/src/value_deep.c
@@ -1097,14 +1097,17 @@ metac_value_t *metac_value_copy_ex(metac_value_t * p_src_val, metac_value_t * p_
                                 src = metac_value_addr(p->pp_children[0]->p_val);
                                 assert(src != NULL); /* since children count >0 this must be true */
                                 assert(context.src_to_dst != NULL);
-                                if (p->pp_children[0]->offset_from_allocate_base != 0) {
-                                    void * allocate_src = src - p->pp_children[0]->offset_from_allocate_base;
+                                /* several pointers can have the same address. only the entry from the map has valid offset */
+                                struct metac_memory_entry * p_src_entry = hashmapGet(context.p_map->p_addr_ptr_val_to_memory_entry, src);
+                                assert(p_src_entry != NULL);
+                                if (p_src_entry->offset_from_allocate_base != 0) {
+                                    void * allocate_src = src - p_src_entry->offset_from_allocate_base;
                                     void * allocate_dst = hashmapGet(context.src_to_dst, allocate_src);
                                     if (allocate_dst == NULL) {
                                         metac_recursive_iterator_fail(p_iter);
                                         continue;
                                     }
-                                    p_dst_children_addr_override = allocate_dst + p->pp_children[0]->offset_from_allocate_base;
+                                    p_dst_children_addr_override = allocate_dst + p_src_entry->offset_from_allocate_base;
                                 } else {
                                     p_dst_children_addr_override = hashmapGet(context.src_to_dst, src);
                                     if (p_dst_children_addr_override == NULL) {
-- 
2.43.0


From 18962a798c10dba02682eecb757724afba3a7ea1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:40:21 +0000
Subject: [PATCH 11/50] fix: copy NULL pointers to the destination in all modes

---
 src/value_deep.c | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/value_deep.c b/src/value_deep.c
index 164c805..0983666 100644
--- a/src/value_deep.c
+++ b/src/value_deep.c
@@ -1158,6 +1158,11 @@ metac_value_t *metac_value_copy_ex(metac_value_t * p_src_val, metac_value_t * p_
                             metac_recursive_iterator_fail(p_iter);
                             continue;
                         }
+                    } else { /* NULL pointer, destination may contain something different */
+                        if (metac_value_set_pointer(p_dst_val, NULL)!=0) {
+                            metac_recursive_iterator_fail(p_iter);
+                            continue;
+                        }
                     }
                 }else if (metac_value_is_enumeration(p->p_val)) {
                     if (metac_value_copy_enumeration(p->p_val, p_dst_val) == NULL) {
-- 
2.43.0


From 44e5110bd669c5771dd30170443f73529a36c6df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:40:52 +0000
Subject: [PATCH 12/50] fix: release everything allocated by a failed copy with
 the given free function

---
 src/value_deep.c | 25 ++++++++++++-------------
 1 file changed, 12 insertions(+), 13 deletions(-)

diff --git a/src/value_deep.c b/src/value_deep.c
index 0983666..c07b1ad 100644
--- a/src/value_deep.c
+++ b/src/value_deep.c
@@ -954,7 +954,7 @@ static bool _value_copy_preallocate(void* key, void* value, void* context) {
             return false;
         }
         if (hashmapPut(p_context->src_to_dst, key, dst, NULL) != 0) {
-            free(dst);
+            p_context->free_fn(dst);
             p_context->preallocation_failed = 1;
             return false;
         }
@@ -1042,13 +1042,14 @@ metac_value_t *metac_value_copy_ex(metac_value_t * p_src_val, metac_value_t * p_
         return NULL;
     }
 
+    /* all allocated memory is tracked here: by source address in DAG mode, by its own address in tree mode */
+    context.src_to_dst = hashmapCreate(1024, addr_ptr_key_hash, addr_ptr_key_equals);
+    if (context.src_to_dst == NULL) {
+        metac_value_memory_map_delete(context.p_map);
+        return NULL;
+    }
     if (p_mode->memory_block_mode != METAC_MMODE_tree) {
         /* preparations are needed for that mode - we need to allocate memory for all allocatable blocks */
-        context.src_to_dst = hashmapCreate(1024, addr_ptr_key_hash, addr_ptr_key_equals);
-        if (context.src_to_dst == NULL) {
-            metac_value_memory_map_delete(context.p_map);
-            return NULL;   
-        }
         hashmapForEach(context.p_map->p_addr_ptr_val_to_memory_entry, _value_copy_preallocate, &context);
 
         if (context.preallocation_failed != 0) {
@@ -1090,6 +1091,11 @@ metac_value_t *metac_value_copy_ex(metac_value_t * p_src_val, metac_value_t * p_
                                     metac_recursive_iterator_fail(p_iter);
                                     continue;
                                 }
+                                if (hashmapPut(context.src_to_dst, p_dst_children_addr_override, p_dst_children_addr_override, NULL) != 0) {
+                                    free_fn(p_dst_children_addr_override);
+                                    metac_recursive_iterator_fail(p_iter);
+                                    continue;
+                                }
                                 break;
                             case METAC_MMODE_dag:
                             default:
@@ -1234,13 +1240,6 @@ metac_value_t *metac_value_copy_ex(metac_value_t * p_src_val, metac_value_t * p_
                         gfail = 1;
                     }
                     if (p_children != NULL && p_children->private_data != NULL) {
-                        if (fail != 0 && metac_value_is_pointer(p->p_val) && p_mode->memory_block_mode == METAC_MMODE_tree) {
-                            /*need to free memory in that case */
-                            assert(p->children_count == 1);
-                            void * p_dst_children_addr_override = metac_value_addr((metac_value_t*)p_children->private_data);
-                            assert(p_dst_children_addr_override != NULL);
-                            free (p_dst_children_addr_override);
-                        }
                         metac_value_delete((metac_value_t*)p_children->private_data);
                         p_children->private_data = NULL;
                     }
-- 
2.43.0


From d6cfa8ef18175efe8f33823c7a7facc7182406cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:44:33 +0000
Subject: [PATCH 13/50] fix: compare pointers that close a loop by the loop,
 not by the address

---
 src/value_deep.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/value_deep.c b/src/value_deep.c
index c07b1ad..34362ae 100644
--- a/src/value_deep.c
+++ b/src/value_deep.c
@@ -1321,7 +1321,7 @@ int metac_value_equal_ex(metac_value_t * p_val1, metac_value_t * p_val2,
 
                 if (metac_value_is_pointer(p1->p_val) != 0 && metac_value_is_pointer(p2->p_val) != 0) {
                     if (p1->children_count == 0 && p2->children_count == 0) {
-                        if (p_mode->unknown_ptr_mode == METAC_UPTR_as_values) {
+                        if (p_mode->unknown_ptr_mode == METAC_UPTR_as_values && p1->loop_level == 0) {
                             /*treat pointer as value*/
                             int _cmp = metac_value_equal_pointer(p1->p_val, p2->p_val);
                             if (_cmp < 0) {
-- 
2.43.0


From 89d4719860c95cb03df75eb0b67500f05e6621fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:44:33 +0000
Subject: [PATCH 14/50] fix: do not use memory entries that were deleted when a
 part of the value failed

---
 src/value_deep.c | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/value_deep.c b/src/value_deep.c
index 34362ae..de1692a 100644
--- a/src/value_deep.c
+++ b/src/value_deep.c
@@ -346,6 +346,7 @@ struct metac_memory_map * metac_new_value_memory_map_ex(
         }
     }
 
+    metac_flag_t entries_deleted = 0; /* after the first failure the hashmap may refer to deleted entries */
     metac_recursive_iterator_t * p_iter = metac_new_recursive_iterator(p_val);
     for (metac_value_t * p = (metac_value_t *)metac_recursive_iterator_next(p_iter); p != NULL;
         p = (metac_value_t *)metac_recursive_iterator_next(p_iter)) {
@@ -543,6 +544,7 @@ struct metac_memory_map * metac_new_value_memory_map_ex(
                 case 2: 
                 default: {
                     /* failure cleanup*/
+                    entries_deleted = 1;
                     while(metac_recursive_iterator_dep_queue_is_empty(p_iter) == 0) {
                         metac_value_t * p_memb_val = NULL;
                         struct metac_memory_entry * p_member_memory_entry = metac_recursive_iterator_dequeue_and_delete_dep(p_iter, (void**)&p_memb_val, NULL);
@@ -718,7 +720,7 @@ struct metac_memory_map * metac_new_value_memory_map_ex(
                     p_memory_entry->pp_children[0] = p_member_memory_entry;
                     p_member_memory_entry->p_parent = p_memory_entry;
                     /* if in DAG mode - keep also info about new entries where pointers point in hashmap*/
-                    if (p_map->p_addr_ptr_val_to_memory_entry != NULL) {
+                    if (p_map->p_addr_ptr_val_to_memory_entry != NULL && entries_deleted == 0) {
                         void * addr = metac_value_addr(p_member_memory_entry->p_val);
 
                         if (hashmapContainsKey(p_map->p_addr_ptr_val_to_memory_entry, addr) != 0) {
@@ -727,6 +729,7 @@ struct metac_memory_map * metac_new_value_memory_map_ex(
                                 (struct metac_memory_entry *)hashmapGet(p_map->p_addr_ptr_val_to_memory_entry, addr);
                             if (p_member_memory_entry->byte_size > p_prev_member_memory_entry->byte_size) {
                                 if (hashmapPut(p_map->p_addr_ptr_val_to_memory_entry, addr, (void*)p_member_memory_entry, NULL)!=0) {
+                                    entries_deleted = 1;
                                     // p_in stil must exist if we fail
                                     if (p_memory_entry->p_val == p) {
                                         p_memory_entry->p_val = NULL;
@@ -738,6 +741,7 @@ struct metac_memory_map * metac_new_value_memory_map_ex(
                             }
                         } else {
                             if (hashmapPut(p_map->p_addr_ptr_val_to_memory_entry, addr, (void*)p_member_memory_entry, NULL)!=0) {
+                                entries_deleted = 1;
                                 // p_in stil must exist if we fail
                                 if (p_memory_entry->p_val == p) {
                                     p_memory_entry->p_val = NULL;
@@ -823,6 +827,7 @@ struct metac_memory_map * metac_new_value_memory_map_ex(
                 case 2: 
                 default: {
                     /* failure cleanup*/
+                    entries_deleted = 1;
                     while(metac_recursive_iterator_dep_queue_is_empty(p_iter) == 0) {
                         metac_value_t * p_memb_val = NULL;
                         struct metac_memory_entry * p_member_memory_entry = metac_recursive_iterator_dequeue_and_delete_dep(p_iter, (void**)&p_memb_val, NULL);
-- 
2.43.0


From 5ea19639124d30a468b86f92093311c429b25d87 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:46:26 +0000
Subject: [PATCH 15/50] fix: recognise qualified and typedefed void and
 incomplete type pointers

---
 src/entry.c | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/src/entry.c b/src/entry.c
index 362a2cb..68fe12e 100644
--- a/src/entry.c
+++ b/src/entry.c
@@ -298,14 +298,17 @@ metac_flag_t metac_entry_is_pointer(metac_entry_t *p_entry) {
 metac_flag_t metac_entry_is_void_pointer(metac_entry_t *p_entry) {
     _check_(p_entry == NULL, 0);
     metac_entry_t * p_final_entry = _entry_with_pointer_info(p_entry);
-    return p_final_entry != NULL && p_final_entry->pointer_type_info.type == NULL;
+    /* void can be hidden by qualifiers and typedefs */
+    return p_final_entry != NULL && metac_entry_final_entry(p_final_entry->pointer_type_info.type, NULL) == NULL;
 }
 
 metac_flag_t metac_entry_is_declaration_pointer(metac_entry_t *p_entry) {
     _check_(p_entry == NULL, 0);
     metac_entry_t * p_final_entry = _entry_with_pointer_info(p_entry);
-    if (p_final_entry != NULL && p_final_entry->pointer_type_info.type != NULL) {
-        return p_final_entry->pointer_type_info.type->declaration != 0;
+    if (p_final_entry != NULL) {
+        /* declaration can be hidden by qualifiers and typedefs */
+        p_final_entry = metac_entry_final_entry(p_final_entry->pointer_type_info.type, NULL);
+        return p_final_entry != NULL && p_final_entry->declaration != 0;
     }
     return 0;
 }
-- 
2.43.0


From 1f9d66c7239d9a02783315a805ed340470041a34 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:09:44 +0000
Subject: [PATCH 16/50] fix: packed bit-fields made memory blocks look bigger
 than they are in the memory map

The declared type of a bit-field may reach beyond the end of a packed
structure. Its size was used to extend the block, so that a block placed
directly behind it was taken for its part: it wasn't freed and its copy
was written outside of the allocated memory.
---
 src/value_deep.c | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/value_deep.c b/src/value_deep.c
index de1692a..a7098ed 100644
--- a/src/value_deep.c
+++ b/src/value_deep.c
@@ -367,6 +367,12 @@ struct metac_memory_map * metac_new_value_memory_map_ex(
                 metac_recursive_iterator_fail(p_iter);
                 continue;       
             }
+            struct metac_member_raw_location_info location_info;
+            if (metac_value_kind(p) == METAC_KND_member &&
+                metac_entry_member_raw_location_info(metac_value_entry(p), &location_info) == 0 &&
+                location_info.p_bit_size != NULL) {
+                sz = 0; /* bitfield, it never goes beyond the structure, unlike its declared type (e.g. if packed) */
+            }
             struct metac_memory_entry * p_memory_entry = metac_new_memory_entry(p, sz, 0);
             if (p_memory_entry == NULL) {
                 metac_recursive_iterator_fail(p_iter);
-- 
2.43.0


From 6b7728cccdf3ce325fc5ce8caf11faec88637b19 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:31:29 +0000
Subject: [PATCH 17/50] fix: escape quote and backslash in the text of a
 character

The text of a value is C code: ''' and '\' could not be compiled.
---
 src/value_base_type.c | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/value_base_type.c b/src/value_base_type.c
index 7ece656..59f25f7 100644
--- a/src/value_base_type.c
+++ b/src/value_base_type.c
@@ -351,6 +351,9 @@ char *metac_value_base_type_string(metac_value_t * p_val) {
         if (metac_value_char(p_val, &v) != 0) {
             return NULL;
         }
+        if (v == '\'' || v == '\\') {
+            return dsprintf("'\\%c'", v);
+        }
         if (isprint(v)) {
             return dsprintf("'%c'", v);
         }
-- 
2.43.0


From cf20be5396c88b9f417feb2e658fc4cfe72c6998 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:07:25 +0000
Subject: [PATCH 18/50] fix: location of the primary source file in DWARF5 of
 clang

---
 pkg/dwarfy/dwarf.go | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/pkg/dwarfy/dwarf.go b/pkg/dwarfy/dwarf.go
index a55acaf..cb77539 100644
--- a/pkg/dwarfy/dwarf.go
+++ b/pkg/dwarfy/dwarf.go
@@ -4,6 +4,7 @@ import (
 	"debug/dwarf"
 	"encoding/json"
 	"fmt"
+	"path"
 	"strconv"
 
 	"gopkg.in/yaml.v3"
@@ -247,6 +248,10 @@ func NewEntry(dwarfData *dwarf.Data, dwarfEntry *dwarf.Entry) (*Entry, error) {
 		if err != nil {
 			return nil, err
 		}
+		// DWARF5 of clang keeps the absolute name of the primary source file and
+		// debug/dwarf appends it to the compilation directory nevertheless
+		cuName, _ := dwarfEntry.Val(dwarf.AttrName).(string)
+		cuDir, _ := dwarfEntry.Val(dwarf.AttrCompDir).(string)
 		var declFiles []string
 		for _, f := range lreader.Files() {
 			if f == nil {
@@ -254,6 +259,10 @@ func NewEntry(dwarfData *dwarf.Data, dwarfEntry *dwarf.Entry) (*Entry, error) {
 				declFiles = append(declFiles, "")
 				continue
 			}
+			if path.IsAbs(cuName) && f.Name == path.Join(cuDir, cuName) {
+				declFiles = append(declFiles, cuName)
+				continue
+			}
 			declFiles = append(declFiles, f.Name)
 		}
 		entry.DeclFiles = &declFiles
-- 
2.43.0


From 13b6a0ebdd63b9fe3f2a16a8f0862c77b9aa7c7d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:10:21 +0000
Subject: [PATCH 19/50] fix: look for a tag in further categories when an
 external map has none

---
 src/entry_tag.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/entry_tag.c b/src/entry_tag.c
index abe4eec..bb02f70 100644
--- a/src/entry_tag.c
+++ b/src/entry_tag.c
@@ -180,6 +180,7 @@ metac_entry_tag_t * metac_tag_map_tag(metac_tag_map_t * p_tag_map, metac_entry_t
             if (p_ext_res != NULL) {
                 return p_ext_res;
             }
+            continue; /* nothing there, try the next category */
         }
         if (p_tag_map->p_categories[i].p_map == NULL) {
             assert(0);
-- 
2.43.0


From 936855b32f2cba079620495845cbd8b847a8b572 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:10:21 +0000
Subject: [PATCH 20/50] fix: release the copy of the tag string when a tag can
 not be stored

---
 src/entry_tag.c | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/entry_tag.c b/src/entry_tag.c
index bb02f70..c56a0f0 100644
--- a/src/entry_tag.c
+++ b/src/entry_tag.c
@@ -228,6 +228,9 @@ static int _tag_map_set_tag(metac_tag_map_t * p_tag_map,
     metac_entry_tag_t *p_prev_tag = NULL;
     
     if (hashmapPut(p_tag_map->p_categories[category].p_map, (void*)p_entry, (void*)p_local_tag, (void**)&p_prev_tag) != 0) {
+        if (p_local_tag->p_tagstring != NULL) {
+            free(p_local_tag->p_tagstring);
+        }
         free(p_local_tag);
         return -(EFAULT);
     }
-- 
2.43.0


From 97d3944a2de618f81988b13e18434d4016862921 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:16:25 +0000
Subject: [PATCH 21/50] fix: reserve as much memory as the captured string
 needs

---
 src/printf_format.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/printf_format.c b/src/printf_format.c
index 53aa508..c429fb0 100644
--- a/src/printf_format.c
+++ b/src/printf_format.c
@@ -206,7 +206,8 @@ static int _new_value_from_format_specifier(metac_parameter_storage_t * p_pload,
                                 return -(EFAULT);
                             }
 
-                            if (metac_parameter_storage_append_by_buffer(p_pload, p_param_with_len_entry, sizeof(p)) != 0) {
+                            if (metac_parameter_storage_append_by_buffer(p_pload, p_param_with_len_entry, len+1) != 0) {
+                                metac_entry_delete(p_param_with_len_entry);
                                 return -(EFAULT);
                             }
                             metac_value_t * p_param_value = metac_parameter_storage_new_param_value(p_pload, param_id);
-- 
2.43.0


From 79a70a68a50791b464a6d4764aba79d8ef4aa595 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:16:25 +0000
Subject: [PATCH 22/50] fix: read adjacent format specifiers and parameters
 after %%

---
 src/printf_format.c | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/printf_format.c b/src/printf_format.c
index c429fb0..785fd59 100644
--- a/src/printf_format.c
+++ b/src/printf_format.c
@@ -115,7 +115,8 @@ size_t metac_count_format_specifiers(const char *format) {
         if (format[pos] == '%') {
             // Check if a valid format specifier follows
             if (metac_parse_format_specifier(format, &pos, &dummy_specifier) > 0) {
-            num_specifiers++;
+                num_specifiers++;
+                continue; /* pos is already behind the specifier */
             }
         }
         pos++;
@@ -334,8 +335,9 @@ static int _new_value_from_format_specifier(metac_parameter_storage_t * p_pload,
                         return -(EFAULT);
                     }
                 }
+                ++param_id;
+                continue; /* pos is already behind the specifier */
             }
-            ++param_id;
         }
         ++pos;
     }
-- 
2.43.0


From f4729aa131ea97dde0d7d25216062cdd6cace0c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:16:45 +0000
Subject: [PATCH 23/50] fix: width and precision of a format specifier are
 decimal, a space is no zero flag

---
 src/printf_format.c | 14 +++-----------
 1 file changed, 3 insertions(+), 11 deletions(-)

diff --git a/src/printf_format.c b/src/printf_format.c
index 785fd59..d363a07 100644
--- a/src/printf_format.c
+++ b/src/printf_format.c
@@ -37,7 +37,7 @@ size_t metac_parse_format_specifier(const char *format, size_t *pos, metac_print
         } else if (format[*pos] == '0') {
             p_specifier->flags.oct = 1;
         } else if (format[*pos] == ' ') {
-            p_specifier->flags.oct = 1;
+            p_specifier->flags.space = 1;
         } else {
             break;
         }
@@ -48,11 +48,7 @@ size_t metac_parse_format_specifier(const char *format, size_t *pos, metac_print
     p_specifier->format_len = 0;
     while (*pos < strlen(format) && isdigit(format[*pos])) {
         metac_num_t d = format[*pos] - '0';
-        if (p_specifier->flags.oct != 0) {
-            p_specifier->format_len = p_specifier->format_len * 8 + d;
-        } else {
-            p_specifier->format_len = p_specifier->format_len * 10 + d;
-        }
+        p_specifier->format_len = p_specifier->format_len * 10 + d;
         (*pos)++;
     }
 
@@ -63,11 +59,7 @@ size_t metac_parse_format_specifier(const char *format, size_t *pos, metac_print
         (*pos)++;
         while (*pos < strlen(format) && isdigit(format[*pos])) {
             metac_num_t d = format[*pos] - '0';
-            if (p_specifier->flags.oct != 0) {
-                p_specifier->precision = p_specifier->precision * 8 + d;
-            } else {
-                p_specifier->precision = p_specifier->precision * 10 + d;
-            }
+            p_specifier->precision = p_specifier->precision * 10 + d;
             (*pos)++;
         }
     }
-- 
2.43.0


From e7cd132a5253b3649697de63908b76441ebf2c4f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:16:45 +0000
Subject: [PATCH 24/50] fix: refuse format specifiers that are not supported
 instead of misreading parameters

---
 src/printf_format.c | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/src/printf_format.c b/src/printf_format.c
index d363a07..b0f24aa 100644
--- a/src/printf_format.c
+++ b/src/printf_format.c
@@ -176,6 +176,9 @@ static int _new_value_from_format_specifier(metac_parameter_storage_t * p_pload,
             if (metac_parse_format_specifier(format, &pos, &dummy_specifier) > 0) {
                 switch (dummy_specifier.t) {
                 case 's': {
+                        if (dummy_specifier.arg_len != psal_no) { // wide strings aren't supported
+                            return -(EFAULT);
+                        }
                         WITH_METAC_DECLLOC(decl, char * p = NULL);
                         p = (char*)va_arg(p_cntr->parameters, char*);
 
@@ -269,8 +272,8 @@ static int _new_value_from_format_specifier(metac_parameter_storage_t * p_pload,
                 case 'c':
                 case 'i':
                 case 'd': {
-                        if (dummy_specifier.t == 'c' ||
-                            dummy_specifier.arg_len == psal_hh) {
+                        if ((dummy_specifier.t == 'c' && dummy_specifier.arg_len == psal_no) ||
+                            (dummy_specifier.t != 'c' && dummy_specifier.arg_len == psal_hh)) {
                             _process(char, int);
                         } else if (dummy_specifier.t != 'c') {
                             if (dummy_specifier.arg_len == psal_h) {
@@ -330,6 +333,9 @@ static int _new_value_from_format_specifier(metac_parameter_storage_t * p_pload,
                 ++param_id;
                 continue; /* pos is already behind the specifier */
             }
+            if (format[pos] != '%' && format[pos] != 0) { // e.g. %*d - we don't know what it takes from parameters
+                return -(EFAULT);
+            }
         }
         ++pos;
     }
-- 
2.43.0


From 08f08760226f6880b4c80322f7af0b86cebf9a77 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:16:45 +0000
Subject: [PATCH 25/50] fix: do not read more of a string than its precision
 allows

---
 src/printf_format.c | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/printf_format.c b/src/printf_format.c
index b0f24aa..67bc12d 100644
--- a/src/printf_format.c
+++ b/src/printf_format.c
@@ -196,7 +196,8 @@ static int _new_value_from_format_specifier(metac_parameter_storage_t * p_pload,
                             metac_value_delete(p_param_value);
                             memcpy(p_param_value_ptr, &p, sizeof(p));
                         }else{
-                            size_t len = strlen(p);
+                            // string isn't necessarily zero-ended if there is a precision
+                            size_t len = (dummy_specifier.precision >= 0)?strnlen(p, dummy_specifier.precision):strlen(p);
                             metac_entry_t * p_param_with_len_entry = metac_new_element_count_entry(p_param_entry, len+1);
                             if (p_param_with_len_entry == NULL) {
                                 return -(EFAULT);
@@ -213,7 +214,7 @@ static int _new_value_from_format_specifier(metac_parameter_storage_t * p_pload,
                             }
                             void * p_param_value_ptr = metac_value_addr(p_param_value);
                             metac_value_delete(p_param_value);
-                            memcpy(p_param_value_ptr, p, len+1);
+                            memcpy(p_param_value_ptr, p, len); // the buffer is zeroed, so it is zero-ended
                         }
                     }
                     break;
-- 
2.43.0


From a19e7f6392c17eac3eee7d1462a6afbada9f55b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:17:07 +0000
Subject: [PATCH 26/50] fix: append printf parameters behind those that are
 already stored

---
 src/printf_format.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/printf_format.c b/src/printf_format.c
index 67bc12d..c634097 100644
--- a/src/printf_format.c
+++ b/src/printf_format.c
@@ -166,7 +166,7 @@ static int _new_value_from_format_specifier(metac_parameter_storage_t * p_pload,
 
     metac_num_t parameters_count = metac_count_format_specifiers(format);
 
-    metac_num_t param_id = 0;
+    metac_num_t param_id = metac_parameter_storage_size(p_pload);
     size_t pos = 0;
     metac_printf_specifier_t dummy_specifier;
 
-- 
2.43.0


From df6d0bce4d6f2629182b6dc6552ae1d20dc0efe2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:17:07 +0000
Subject: [PATCH 27/50] fix: do not release the text of variadic parameters
 twice on failure

---
 src/value_string.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/value_string.c b/src/value_string.c
index 2844c7c..fc95328 100644
--- a/src/value_string.c
+++ b/src/value_string.c
@@ -633,7 +633,7 @@ char * metac_value_string_ex(metac_value_t * p_val, metac_value_walk_mode_t wmod
                             char * param_cdecl = metac_entry_cdecl(metac_value_entry(p_param_val));
                             metac_value_delete(p_param_val);
                             if (param_cdecl == NULL) {
-                                free(out);
+                                free(param_out);
                                 failure = 1;
                                 break;
                             }
@@ -641,7 +641,7 @@ char * metac_value_string_ex(metac_value_t * p_val, metac_value_walk_mode_t wmod
                             char * param_type = dsprintf(param_cdecl, "");
                             free(param_cdecl);
                             if (param_type == NULL) {
-                                free(out);
+                                free(param_out);
                                 failure = 1;
                                 break;
                             }
-- 
2.43.0


From bd7b40c25558dd849b71564286656a3ee0b7db33 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:17:07 +0000
Subject: [PATCH 28/50] fix: text of calls that do not pass anything for their
 variadic parameters

---
 src/value_string.c | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/src/value_string.c b/src/value_string.c
index fc95328..fff513d 100644
--- a/src/value_string.c
+++ b/src/value_string.c
@@ -680,7 +680,7 @@ char * metac_value_string_ex(metac_value_t * p_val, metac_value_walk_mode_t wmod
                             char *prev_out = out;
                             out = dsprintf("%s%s%s",
                                 prev_out == NULL?"":prev_out, /*must include , at the end */
-                                prev_out == NULL?"":", ",
+                                prev_out == NULL || param_out[0] == 0?"":", ", /* empty if ... doesn't have anything */
                                 param_out
                             );
                             free(param_out);
@@ -705,13 +705,20 @@ char * metac_value_string_ex(metac_value_t * p_val, metac_value_walk_mode_t wmod
                     if (final_kind == METAC_KND_func_parameter) {
                         if (metac_entry_is_va_list_parameter(metac_value_entry(p))!=0) { // wrap with VA_LIST()
                             char *prev_out = out;
-                            out = dsprintf("VA_LIST(%s)",prev_out);
+                            out = dsprintf("VA_LIST(%s)", prev_out == NULL?"":prev_out);
                             free(prev_out);
                             if (out == NULL) {
                                 metac_recursive_iterator_set_state(p_iter, 2); // failure cleanup
                                 continue;   
                             }
                         }
+                        if (out == NULL) { // there were no parameters
+                            out = dsprintf("%s", "");
+                            if (out == NULL) {
+                                metac_recursive_iterator_set_state(p_iter, 2); // failure cleanup
+                                continue;
+                            }
+                        }
                         metac_recursive_iterator_done(p_iter, out);
                         continue;
                     }
-- 
2.43.0


From cb76ec56b298a7be29364b70b156e98fa27950d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:17:31 +0000
Subject: [PATCH 29/50] fix: leave the buffer of a failed structure parameter
 to its storage

---
 src/value_with_args.c | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/src/value_with_args.c b/src/value_with_args.c
index 4ba049e..e0f6fa1 100644
--- a/src/value_with_args.c
+++ b/src/value_with_args.c
@@ -430,8 +430,7 @@ static void _handle_subprogram(
 
                         if (addr != NULL) {
                             if (metac_entry_struct_va_arg(p_param_type_entry, p_va_list_container, addr) == 0) {
-                                free(addr);
-                                addr = NULL;
+                                addr = NULL; // p_subprog_load still owns the buffer
                                 break;
                             }
                         }
-- 
2.43.0


From 4d911441005ab328c553396eee04585b521946ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:17:31 +0000
Subject: [PATCH 30/50] fix: variadic parameters without a handler leaked and
 shifted the following parameters

---
 src/value_with_args.c | 49 +++++++++++++++++++------------------------
 1 file changed, 22 insertions(+), 27 deletions(-)

diff --git a/src/value_with_args.c b/src/value_with_args.c
index e0f6fa1..0f25507 100644
--- a/src/value_with_args.c
+++ b/src/value_with_args.c
@@ -269,40 +269,35 @@ static void _handle_subprogram(
             }
 
             metac_entry_tag_t * p_tag = metac_tag_map_tag(p_tag_map, p_param_entry);
-            
-            if (p_tag != NULL && p_tag->handler) {
 
-                // if parameter is va_list - we need to extract it
-                int local = 0;
-                struct va_list_container local_cntr = {};
+            // if parameter is va_list - we need to extract it
+            int local = 0;
+            struct va_list_container local_cntr = {};
 #if VA_ARG_IN_VA_ARG != 0
-                if (metac_entry_is_va_list_parameter(p_param_entry) != 0) {
-                    local = 1;
+            if (metac_entry_is_va_list_parameter(p_param_entry) != 0) {
+                local = 1;
 #if __linux__
-                    // linux (gcc) can't extract va_arg from va_arg
-                    void * p = va_arg(p_va_list_container->parameters, void*);
-                    memcpy(&local_cntr, p, sizeof(local_cntr));
+                // linux (gcc) can't extract va_arg from va_arg
+                void * p = va_arg(p_va_list_container->parameters, void*);
+                memcpy(&local_cntr, p, sizeof(local_cntr));
 #else
-                    _va_list_cp_to_container(&local_cntr, va_arg(p_va_list_container->parameters, va_list));
+                _va_list_cp_to_container(&local_cntr, va_arg(p_va_list_container->parameters, va_list));
 #endif
-                    ev.p_va_list_container = &local_cntr;
-                }
+                ev.p_va_list_container = &local_cntr;
+            }
 #endif
+            int res = 0;
+            if (p_tag != NULL && p_tag->handler) {
+                res = metac_value_event_handler_call(p_tag->handler, p_iter, &ev, p_tag->p_context);
+            }
+            if (local != 0){
+                va_end(local_cntr.parameters);
+            }
+            metac_value_delete(ev.p_return_value);
 
-                if (metac_value_event_handler_call(p_tag->handler, p_iter, &ev, p_tag->p_context) != 0) {
-                    if (local != 0){
-                        va_end(local_cntr.parameters);
-                    }
-                    metac_value_delete(ev.p_return_value);
-
-
-                    metac_recursive_iterator_fail(p_iter);
-                    return;
-                }
-                if (local != 0){
-                    va_end(local_cntr.parameters);
-                }
-                metac_value_delete(ev.p_return_value);
+            if (res != 0) {
+                metac_recursive_iterator_fail(p_iter);
+                return;
             }
         } else { /* normal param */
             void * addr = NULL;
-- 
2.43.0


From 7d47801ed37f5c23a06a3ba765c7c48cb1a62d42 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:33:39 +0000
Subject: [PATCH 31/50] fix: deep copy of calls with variadic parameters

---
 src/value_deep.c | 18 ++++++++++--------
 1 file changed, 10 insertions(+), 8 deletions(-)

diff --git a/src/value_deep.c b/src/value_deep.c
index a7098ed..7ca142d 100644
--- a/src/value_deep.c
+++ b/src/value_deep.c
@@ -1207,14 +1207,16 @@ metac_value_t *metac_value_copy_ex(metac_value_t * p_src_val, metac_value_t * p_
                 } else if (metac_value_has_parameter_load(p->p_val)) {
                     metac_parameter_storage_t * p_param_storage = (metac_parameter_storage_t *)metac_value_addr(p->p_val);
                     metac_parameter_storage_t * p_dst_param_storage = (metac_parameter_storage_t *)metac_value_addr(p_dst_val);
-                    if (metac_parameter_storage_size(p_dst_param_storage) > 0) {
-                        // can't copy to non-empty (TODO: btw maybe it will be interesting feature later?)
-                        metac_recursive_iterator_fail(p_iter);
-                        continue;
-                    }
-                    if (metac_parameter_storage_copy(p_param_storage, p_dst_param_storage) !=0) {
-                        metac_recursive_iterator_fail(p_iter);
-                        continue;   
+                    if (p == context.p_map->p_top_entry) { // inner storages (va_list, unspecified) are copied together with the top one
+                        if (metac_parameter_storage_size(p_dst_param_storage) > 0) {
+                            // can't copy to non-empty (TODO: btw maybe it will be interesting feature later?)
+                            metac_recursive_iterator_fail(p_iter);
+                            continue;
+                        }
+                        if (metac_parameter_storage_copy(p_param_storage, p_dst_param_storage) !=0) {
+                            metac_recursive_iterator_fail(p_iter);
+                            continue;   
+                        }
                     }
 
                     for (metac_num_t i = 0; i < p->children_count; ++i) {
-- 
2.43.0


From 0fd0ecb2ab16f5e3278e52f518f7c218fc4acb58 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:41:14 +0000
Subject: [PATCH 32/50] fix: name database linked as the pointer its users
 declare

---
 modules/metac-reflect-gen/templates/_db_v0.tpl | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/modules/metac-reflect-gen/templates/_db_v0.tpl b/modules/metac-reflect-gen/templates/_db_v0.tpl
index c97c6a1..e3c50e9 100644
--- a/modules/metac-reflect-gen/templates/_db_v0.tpl
+++ b/modules/metac-reflect-gen/templates/_db_v0.tpl
@@ -11,7 +11,7 @@
 {{-       end -}}
 {{-     end }}
 /* db */
-struct metac_db METAC_DB_NAME() = {
+struct metac_db *METAC_DB_NAME() = (struct metac_db[]) {{ "{{" }}
     .version = 0,
     .db_v0 = {
 {{-   indent 8 (include "metac_reflect_gen.name_to_entries" (dict "base_types" $metaDb.BaseTypes)) -}}
@@ -25,7 +25,7 @@ struct metac_db METAC_DB_NAME() = {
 {{-   indent 8 (include "metac_reflect_gen.name_to_entries" (dict "subprograms" $metaDb.Subprograms)) -}}
 {{-   indent 8 (include "metac_reflect_gen.name_to_entries" (dict "compile_units" $metaDb.CompileUnits)) }}
     },
-};
+{{ "}}" }};
 {{-   end -}}
 {{- end -}}
 {{- /* helper */ -}}
-- 
2.43.0


From d413999b5176d43915fc495ce3b5d222d35c931d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:41:14 +0000
Subject: [PATCH 33/50] fix: relative source directories of line tables

---
 pkg/dwarfy/dwarf.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/pkg/dwarfy/dwarf.go b/pkg/dwarfy/dwarf.go
index cb77539..b72cb4a 100644
--- a/pkg/dwarfy/dwarf.go
+++ b/pkg/dwarfy/dwarf.go
@@ -263,6 +263,11 @@ func NewEntry(dwarfData *dwarf.Data, dwarfEntry *dwarf.Entry) (*Entry, error) {
 				declFiles = append(declFiles, cuName)
 				continue
 			}
+			// directories of DWARF5 can be relative to the compilation directory
+			if !path.IsAbs(f.Name) && path.IsAbs(cuDir) {
+				declFiles = append(declFiles, path.Join(cuDir, f.Name))
+				continue
+			}
 			declFiles = append(declFiles, f.Name)
 		}
 		entry.DeclFiles = &declFiles
-- 
2.43.0


From f37fb4877870d089215c63311634e136990bca30 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:00:21 +0000
Subject: [PATCH 34/50] fix: deduplication mixed up different types of the same
 name

---
 pkg/metadb/metadb_builder.go | 175 ++++++++++++++++++++++-------------
 1 file changed, 109 insertions(+), 66 deletions(-)

diff --git a/pkg/metadb/metadb_builder.go b/pkg/metadb/metadb_builder.go
index fc292d7..8bf36e9 100644
--- a/pkg/metadb/metadb_builder.go
+++ b/pkg/metadb/metadb_builder.go
@@ -4,6 +4,7 @@ import (
 	"fmt"
 	"log"
 	"path/filepath"
+	"sort"
 
 	"github.com/aodinokov/metac/pkg/dwarfy"
 	"github.com/huandu/xstrings"
@@ -33,6 +34,7 @@ type IndexEntry struct {
 
 	CommonLink
 
+	class       int // the same types have the same class, see classifyTypes
 	isDuplicate bool
 }
 
@@ -44,7 +46,11 @@ func (s *IndexEntry) Signature(comparable bool) (string, error) {
 	if s.p == nil {
 		panic("IndexEntry pointer is nil")
 	}
-	return s.p.Signature(comparable)
+	signature, err := s.p.Signature(comparable)
+	if err != nil {
+		return "", err
+	}
+	return fmt.Sprintf("%s#%d", signature, s.class), nil
 }
 
 func (s *IndexEntry) GetId() CommonId {
@@ -823,90 +829,127 @@ func (builder *MetaDbBuilder) build() error {
 	return nil
 }
 
-func (builder *MetaDbBuilder) deduplicateTypes() error {
-	headerSignatures := map[string]*IndexEntry{}
-	signatures := map[string]map[string]*IndexEntry{}
-	// go via all indexes, find only types
+// typeIndexes returns all types: definitions and after them declarations. both are ordered by
+// offset, so the result doesn't depend on the order of map iteration
+func (builder *MetaDbBuilder) typeIndexes() []*IndexEntry {
+	var indexes []*IndexEntry
 	for _, indx := range builder.index {
-		if indx.p == nil {
-			continue
+		if indx.p != nil && isTypeTag(indx.Tag) {
+			indexes = append(indexes, indx)
 		}
-		if isTypeTag(indx.Tag) {
-			// skip children of duplicated entries
-			pIndx, _, err := builder.getIndex(*indx.Entry.Parent)
+	}
+	sort.Slice(indexes, func(i, j int) bool {
+		if indexes[i].isDeclaration() != indexes[j].isDeclaration() {
+			return indexes[j].isDeclaration()
+		}
+		return indexes[i].Offset < indexes[j].Offset
+	})
+	return indexes
+}
+
+// classifyTypes assigns the same class only to the same types. it's not enough to compare
+// signatures once, because they contain only names of the types they refer to and different
+// units (and blocks) can have different types with the same name. so split the classes until
+// all types of each class refer to types of the same classes
+func (builder *MetaDbBuilder) classifyTypes(indexes []*IndexEntry) error {
+	for count := 0; ; {
+		next := make([]int, len(indexes))
+		classes := map[string]int{}
+		definitions := map[string]map[int]bool{} // classes of definitions by header signature
+		for i, indx := range indexes {
+			hs, err := indx.p.Signature(false)
 			if err != nil {
 				return err
 			}
-			if pIndx.isDuplicate {
-				indx.isDuplicate = true
+			key := "Declaration," + hs
+			if !indx.isDeclaration() {
+				cs, err := indx.p.Signature(true)
+				if err != nil {
+					return err
+				}
+				key = fmt.Sprintf("%d,%s", indx.class, cs)
+			} else if len(definitions[hs]) == 1 { // it's clear what is declared
+				for class := range definitions[hs] {
+					next[i] = class
+				}
 				continue
 			}
+			class, ok := classes[key]
+			if !ok {
+				class = len(classes) + 1
+				classes[key] = class
+			}
+			next[i] = class
+			if !indx.isDeclaration() {
+				if definitions[hs] == nil {
+					definitions[hs] = map[int]bool{}
+				}
+				definitions[hs][class] = true
+			}
+		}
+		for i, indx := range indexes {
+			indx.class = next[i]
+		}
+		if len(classes) == count {
+			return nil
+		}
+		count = len(classes)
+	}
+}
 
+func (builder *MetaDbBuilder) deduplicateTypes() error {
+	indexes := builder.typeIndexes()
+	err := builder.classifyTypes(indexes)
+	if err != nil {
+		return err
+	}
+	unique := map[int]*IndexEntry{}
+	headerSignatures := map[string][]*IndexEntry{}
+	for _, indx := range indexes {
+		pIndx, _, err := builder.getIndex(*indx.Entry.Parent)
+		if err != nil {
+			return err
+		}
+		found, ok := unique[indx.class]
+		if ok {
+			if !pIndx.isDuplicate { // otherwise the same parent is already there
+				//merge parents
+				icmnt := indx.GetCommonType()
+				fcmnt := found.GetCommonType()
+				if icmnt == nil || fcmnt == nil {
+					return fmt.Errorf("couldn't merge parents - one of the objects isn't type")
+				}
+				fcmnt.Parents = append(fcmnt.Parents, icmnt.Parents...)
+			}
+			//dedup
+			indx.isDuplicate = true
+			indx.p = found.p
+			continue
+		}
+		unique[indx.class] = indx
+
+		if !indx.isDeclaration() && indx.Entry.Tag != "BaseType" { /* developer doesn't define base types. Clang can generate Complex base type with different sizes */
 			hs, err := indx.p.Signature(false)
 			if err != nil {
 				return err
 			}
-			if indx.isDeclaration() { // declarations can be deduplicated by header signature
-				found, ok := headerSignatures[hs]
-				if ok {
-					//merge parents
-					icmnt := indx.GetCommonType()
-					fcmnt := found.GetCommonType()
-					if icmnt == nil || fcmnt == nil {
-						return fmt.Errorf("coun't merge parents - one of the object isn't type")
-					}
-					fcmnt.Parents = append(fcmnt.Parents, icmnt.Parents...)
-					//dedup
-					indx.isDuplicate = true
-					indx.p = found.p
-					continue
-				}
-				headerSignatures[hs] = indx
-				builder.appendDb(indx.p)
-				continue
-			}
-			// non-declaration... hmm.. use comparable signature (may want to rework this later if needed)
 			cs, err := indx.p.Signature(true)
 			if err != nil {
 				return err
 			}
-			foundMap, ok := signatures[hs]
-			if ok {
-				found, ok := foundMap[cs]
-				if ok {
-					//merge parents
-					icmnt := indx.GetCommonType()
-					fcmnt := found.GetCommonType()
-					if icmnt == nil || fcmnt == nil {
-						return fmt.Errorf("couldn't merge parents - one of the objects isn't type")
-					}
-					fcmnt.Parents = append(fcmnt.Parents, icmnt.Parents...)
-					//dedup
-					indx.isDuplicate = true
-					indx.p = found.p
-					continue
-				}
-
-				if indx.Entry.Tag != "BaseType" { /* developer doesn't define base types. Clang can generate Complex base type with different sizes */
-					// warning - we have several types with the same name, but different structure
-					emsg := fmt.Sprintf("WARNING:\n%s: %s doesn't match with previous definition of %s from",
-						indx.MixinDeclLocation.toString(indx.cu), cs, hs)
-					for fcs, found := range foundMap {
-						emsg += fmt.Sprintf("\n%s: %s", found.MixinDeclLocation.toString(found.cu), fcs)
-					}
-					log.Print(emsg)
+			if len(headerSignatures[hs]) > 0 {
+				// warning - we have several types with the same name, but different structure
+				emsg := fmt.Sprintf("WARNING:\n%s: %s doesn't match with previous definition of %s from",
+					indx.MixinDeclLocation.toString(indx.cu), cs, hs)
+				for _, found := range headerSignatures[hs] {
+					emsg += "\n" + found.MixinDeclLocation.toString(found.cu)
 				}
-
-				foundMap[cs] = indx
-				builder.appendDb(indx.p)
-				continue
-
+				log.Print(emsg)
 			}
-			signatures[hs] = map[string]*IndexEntry{cs: indx}
-			builder.appendDb(indx.p)
-		} //else {
+			headerSignatures[hs] = append(headerSignatures[hs], indx)
+		}
+		builder.appendDb(indx.p)
 		// TODO: dedup for hierarchy objects... - declarations of variables and subroutines
-		// }
 	}
 	return nil
 }
-- 
2.43.0


From 6280a8f51c1f957253fdb182cd0b91288e6da499 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:03:29 +0000
Subject: [PATCH 35/50] fix: 64-bit values of debug data read from json

---
 pkg/dwarfy/dwarf.go | 37 +++++++++++++++++++++++++++++++++++--
 1 file changed, 35 insertions(+), 2 deletions(-)

diff --git a/pkg/dwarfy/dwarf.go b/pkg/dwarfy/dwarf.go
index b72cb4a..d417421 100644
--- a/pkg/dwarfy/dwarf.go
+++ b/pkg/dwarfy/dwarf.go
@@ -1,9 +1,11 @@
 package dwarfy
 
 import (
+	"bytes"
 	"debug/dwarf"
 	"encoding/json"
 	"fmt"
+	"io"
 	"path"
 	"strconv"
 
@@ -133,6 +135,24 @@ func (f *Field) ToUnstructured() interface{} {
 	}
 }
 
+// json.Number keeps all digits of 64-bit values (float64 doesn't)
+func fixJsonNumber(val interface{}) interface{} {
+	number, ok := val.(json.Number)
+	if !ok {
+		return val
+	}
+	if i, err := strconv.ParseInt(string(number), 10, 64); err == nil {
+		return i
+	}
+	if u, err := strconv.ParseUint(string(number), 10, 64); err == nil {
+		return u
+	}
+	if f, err := number.Float64(); err == nil {
+		return f
+	}
+	return val
+}
+
 func (f *Field) fixValBasedOnClass() {
 	// A value can be one of several "attribute classes" defined by DWARF.
 	// The Go types corresponding to each class are:
@@ -156,6 +176,8 @@ func (f *Field) fixValBasedOnClass() {
 	// For unrecognized or vendor-defined attributes, Class may be
 	// ClassUnknown.
 
+	f.Val = fixJsonNumber(f.Val)
+
 	switch f.Class {
 	case "ClassAddress":
 		fallthrough
@@ -165,6 +187,8 @@ func (f *Field) fixValBasedOnClass() {
 			f.Val = uint64(f.Val.(float64))
 		case int:
 			f.Val = uint64(f.Val.(int))
+		case int64:
+			f.Val = uint64(f.Val.(int64))
 		}
 	case "ClassReference":
 		switch f.Val.(type) {
@@ -172,6 +196,8 @@ func (f *Field) fixValBasedOnClass() {
 			f.Val = Offset(f.Val.(float64))
 		case int:
 			f.Val = Offset(f.Val.(int))
+		case int64:
+			f.Val = Offset(f.Val.(int64))
 		case dwarf.Offset:
 			f.Val = Offset(f.Val.(dwarf.Offset))
 		}
@@ -207,9 +233,11 @@ func (f *Field) fixValBasedOnClass() {
 			iVals := f.Val.([]interface{})
 			var r []int
 			for _, iVal := range iVals {
-				switch val := iVal.(type) {
+				switch val := fixJsonNumber(iVal).(type) {
 				case int:
 					r = append(r, int(val))
+				case int64:
+					r = append(r, int(val))
 				case float64:
 					r = append(r, int(val))
 				}
@@ -561,10 +589,15 @@ func NewDataFromUnstructured(iu interface{}) (*Data, error) {
 
 func NewDataFromJsonBuffer(buf []byte) (*Data, error) {
 	data := Data{}
-	err := json.Unmarshal(buf, &data)
+	decoder := json.NewDecoder(bytes.NewReader(buf))
+	decoder.UseNumber()
+	err := decoder.Decode(&data)
 	if err != nil {
 		return nil, err
 	}
+	if _, err = decoder.Token(); err != io.EOF {
+		return nil, fmt.Errorf("unexpected data after json")
+	}
 	data.fixValBasedOnClass()
 	return &data, nil
 }
-- 
2.43.0


From 579d350eefec603d5908a098814c2c7a99265474 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:09:56 +0000
Subject: [PATCH 36/50] fix: empty document given as settings override

---
 pkg/override/override.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/pkg/override/override.go b/pkg/override/override.go
index c5e70cd..2b4d71a 100644
--- a/pkg/override/override.go
+++ b/pkg/override/override.go
@@ -35,6 +35,10 @@ func New(override string) (*map[string]interface{}, error) {
 	if err != nil {
 		return nil, fmt.Errorf("couldn't unmarshal yaml override %s: %v", override, err)
 	}
+	// an empty document (null) sets the map to nil
+	if *overrideUnstr == nil {
+		*overrideUnstr = map[string]interface{}{}
+	}
 	return overrideUnstr, nil
 }
 
-- 
2.43.0


From 51c587c3aee99e1c61734a9b6fa705cf5b7b0679 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:09:56 +0000
Subject: [PATCH 37/50] fix: exit status of failed generator runs

---
 main.go | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/main.go b/main.go
index 9ff9267..2e137f1 100644
--- a/main.go
+++ b/main.go
@@ -1,7 +1,13 @@
 package main
 
-import "github.com/aodinokov/metac/cmd/run"
+import (
+	"os"
+
+	"github.com/aodinokov/metac/cmd/run"
+)
 
 func main() {
-	run.NewCommand().Execute()
+	if err := run.NewCommand().Execute(); err != nil {
+		os.Exit(1)
+	}
 }
-- 
2.43.0


From 00dbf4e1359db536078029b96c27210150b5b37c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:09:56 +0000
Subject: [PATCH 38/50] fix: working directory of module runs

---
 pkg/module/gotemplate/gotemplate.go | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/pkg/module/gotemplate/gotemplate.go b/pkg/module/gotemplate/gotemplate.go
index f1268aa..d391ac7 100644
--- a/pkg/module/gotemplate/gotemplate.go
+++ b/pkg/module/gotemplate/gotemplate.go
@@ -164,13 +164,16 @@ func (i *GoTemplateInstance) Run(workDir string, overrides []string) ([]byte, er
 		}
 	}
 
-	priorWorkDir := ""
 	if workDir != "" {
-		priorWorkDir, err = os.Getwd()
+		priorWorkDir, err := os.Getwd()
 		if err != nil {
 			return nil, fmt.Errorf("couldn't change workdir %v", err)
 		}
-		os.Chdir(workDir)
+		err = os.Chdir(workDir)
+		if err != nil {
+			return nil, fmt.Errorf("couldn't change workdir %v", err)
+		}
+		defer os.Chdir(priorWorkDir)
 	}
 
 	// finally exec our module
@@ -179,8 +182,6 @@ func (i *GoTemplateInstance) Run(workDir string, overrides []string) ([]byte, er
 		return nil, fmt.Errorf("template exec returned error: %v", err)
 	}
 
-	os.Chdir(priorWorkDir)
-
 	return out.Bytes(), nil
 }
 
-- 
2.43.0


From 1df623836f9877d1af334861df333fd61c910de3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:12:47 +0000
Subject: [PATCH 39/50] fix: includes of modules of another kind went unnoticed

---
 pkg/module/gotemplate/gotemplate.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/pkg/module/gotemplate/gotemplate.go b/pkg/module/gotemplate/gotemplate.go
index d391ac7..61f894b 100644
--- a/pkg/module/gotemplate/gotemplate.go
+++ b/pkg/module/gotemplate/gotemplate.go
@@ -150,6 +150,7 @@ func (i *GoTemplateInstance) Run(workDir string, overrides []string) ([]byte, er
 		for _, infoInst := range info {
 			if i.runner.Kinds[infoInst.Kind] != i.factory {
 				// not our kind - shouldn't even try
+				errs = append(errs, fmt.Errorf("kind %s path %s can't be included", infoInst.Kind, infoInst.Path))
 				continue
 			}
 			err = i.handleIncludes(tmpl, infoInst.Path)
-- 
2.43.0


From dadb2882a0311a8e65edd3f23971ce2fa31f477f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:14:35 +0000
Subject: [PATCH 40/50] fix: tests mentioned in several units were run several
 times

---
 modules/metac-test-gen/templates/_build_requests.tpl | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/modules/metac-test-gen/templates/_build_requests.tpl b/modules/metac-test-gen/templates/_build_requests.tpl
index 65914af..5bd2b07 100644
--- a/modules/metac-test-gen/templates/_build_requests.tpl
+++ b/modules/metac-test-gen/templates/_build_requests.tpl
@@ -14,7 +14,9 @@
 {{-               $reqName := (index $splitted_request 1) -}}
 {{-               if eq $reqType "test" -}}
 {{-                 if hasKey $resDict $reqType -}}
-{{-                   $_ := set $resDict $reqType (append (get $resDict $reqType) $reqName) -}}
+{{-                   if not (has $reqName (get $resDict $reqType)) -}}
+{{-                     $_ := set $resDict $reqType (append (get $resDict $reqType) $reqName) -}}
+{{-                   end -}}
 {{-                 else -}}
 {{-                   $_ := set $resDict $reqType (list $reqName) -}}
 {{-                 end -}}
-- 
2.43.0


From 5d73d431c097205fc50d3729f1e3266a7b358b26 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:59:08 +0000
Subject: [PATCH 41/50] fix: metadb: byte offset of bit-fields takes part in
 the comparison of structures

---
 pkg/metadb/metadb_types.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pkg/metadb/metadb_types.go b/pkg/metadb/metadb_types.go
index 7383df6..46be288 100644
--- a/pkg/metadb/metadb_types.go
+++ b/pkg/metadb/metadb_types.go
@@ -578,9 +578,9 @@ func (s *StructType) Signature(comparable bool) (string, error) {
 			}
 			if p.BitOffset != nil {
 				signature += "BitOffset:" + fmt.Sprintf("%d", *p.BitOffset) + ","
-			} else {
-				signature += "ByteOffset:" + fmt.Sprintf("%d", p.ByteOffset) + ","
 			}
+			// BitOffset counts from the storage unit, which is at ByteOffset
+			signature += "ByteOffset:" + fmt.Sprintf("%d", p.ByteOffset) + ","
 			if p.DataBitOffset != nil {
 				signature += "DataBitOffset:" + fmt.Sprintf("%d", *p.DataBitOffset) + ","
 			}
-- 
2.43.0


From 7b39059723ec235a984f54e3393d338af6a71c5b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:23:29 +0000
Subject: [PATCH 42/50] fix: metadb: arrays declared without the number of
 elements and defined later get the size of the definition

---
 pkg/metadb/metadb_builder.go | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/pkg/metadb/metadb_builder.go b/pkg/metadb/metadb_builder.go
index 8bf36e9..cc4b991 100644
--- a/pkg/metadb/metadb_builder.go
+++ b/pkg/metadb/metadb_builder.go
@@ -560,6 +560,14 @@ func (builder *MetaDbBuilder) processVariable(cu *CompileUnit, parent ICommon, i
 			return nil, err
 		}
 		variable.Type.Set(val)
+		// the definition has its own type if it completes the type of the declaration: extern int x[]; int x[5];
+		if spec, ok := index.Entry.Val("Specification").(dwarfy.Offset); ok {
+			if declIndex, ok := builder.index[spec]; ok {
+				if decl, ok := declIndex.p.(*Variable); ok {
+					decl.Type.Set(val)
+				}
+			}
+		}
 	} else {
 		variable.Type.Set(nil)
 	}
-- 
2.43.0


From 845b1a423d8b596bab93779e52fccf177a8deb22 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:23:29 +0000
Subject: [PATCH 43/50] fix: metadb: optimized programs: skip call sites of
 DWARF 4 and location procedures instead of failing

---
 pkg/metadb/metadb_builder.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/pkg/metadb/metadb_builder.go b/pkg/metadb/metadb_builder.go
index cc4b991..410d4a0 100644
--- a/pkg/metadb/metadb_builder.go
+++ b/pkg/metadb/metadb_builder.go
@@ -793,6 +793,10 @@ func (builder *MetaDbBuilder) processEntry(cu *CompileUnit, parent ICommon, offs
 	/*found on windows: mingw64*/
 	case "Label": // goto label???
 		fallthrough
+	case "Tag(16649)": // DW_TAG_GNU_call_site: what CallSite is before DWARF 5
+		fallthrough
+	case "DwarfProcedure": // location expression, used by locations of other entries
+		fallthrough
 	case "CallSite": // kind of place from which function is called. we don't track that.
 		fallthrough
 	case "InlinedSubroutine": // place inside Subroutine or lexblock where other fn called. we don't track
-- 
2.43.0


From da13e22cef3252153be6e54042de5aa1c04a40fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:23:29 +0000
Subject: [PATCH 44/50] fix: metadb: skipped entries on the level of the
 compile unit caused nil dereference

---
 pkg/metadb/metadb_builder.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/pkg/metadb/metadb_builder.go b/pkg/metadb/metadb_builder.go
index 410d4a0..749a383 100644
--- a/pkg/metadb/metadb_builder.go
+++ b/pkg/metadb/metadb_builder.go
@@ -721,7 +721,9 @@ func (builder *MetaDbBuilder) processCompileUnit(index *IndexEntry) (*IndexEntry
 			if err != nil {
 				return nil, err
 			}
-			compileUnit.Hierarchy = append(compileUnit.Hierarchy, newHierarchyItemFromIndex(indx))
+			if indx != nil {
+				compileUnit.Hierarchy = append(compileUnit.Hierarchy, newHierarchyItemFromIndex(indx))
+			}
 		}
 	}
 	builder.appendDb(&compileUnit)
-- 
2.43.0


From dce25e43af7d7621420906912107fe1aa73333ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:23:29 +0000
Subject: [PATCH 45/50] fix: metadb: optimized programs: variadic functions
 with repeated parameters failed

---
 pkg/metadb/metadb_builder.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/pkg/metadb/metadb_builder.go b/pkg/metadb/metadb_builder.go
index 749a383..3c1d940 100644
--- a/pkg/metadb/metadb_builder.go
+++ b/pkg/metadb/metadb_builder.go
@@ -326,6 +326,9 @@ func (builder *MetaDbBuilder) processMixinFunc(
 		if hadUnspecifiedParam && (childEntry.Tag == "FormalParameter" ||
 			childEntry.Tag == "UnspecifiedParameters" ||
 			childEntry.Tag == "TemplateTypeParameter") {
+			if _, ok := childEntry.Val("AbstractOrigin").(dwarfy.Offset); ok {
+				continue // optimized code: one more location of a parameter which is already known
+			}
 			return fmt.Errorf("got some exter param with offset %d after unspecifice param", childOffset)
 		}
 		switch childEntry.Tag {
-- 
2.43.0


From a584e78244455ab1a065f6d5691f162d019241e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:55:10 +0000
Subject: [PATCH 46/50] fix: metac-reflect-gen: imported declarations and
 modules gave code which can't be compiled

---
 modules/metac-reflect-gen/templates/_import.tpl | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/modules/metac-reflect-gen/templates/_import.tpl b/modules/metac-reflect-gen/templates/_import.tpl
index 3166464..6f01809 100644
--- a/modules/metac-reflect-gen/templates/_import.tpl
+++ b/modules/metac-reflect-gen/templates/_import.tpl
@@ -3,7 +3,7 @@
 {{-   $as := index . 0 -}}
 {{-   $imports := index . 1 -}}
 {{-   if not (eq 0 (len $imports)) }}
-.{{ $as }}_count = {{ len $imports }}
+.{{ $as }}_count = {{ len $imports }},
 .{{ $as }} = (metac_entry_t*[]){
 {{-     range $_,$item := $imports}}
     &{{ $item.Id }},
-- 
2.43.0


From d7230b1208fbc36c5f6eaba20055d5c16566814f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:55:10 +0000
Subject: [PATCH 47/50] fix: types with implementation-defined encoding
 (_Complex int) gave code which can't be compiled

---
 include/metac/const.h | 1 +
 1 file changed, 1 insertion(+)

diff --git a/include/metac/const.h b/include/metac/const.h
index 835c3b4..59e825b 100644
--- a/include/metac/const.h
+++ b/include/metac/const.h
@@ -68,6 +68,7 @@ enum {
     METAC_ENC_utf,
     METAC_ENC_ucs,
     METAC_ENC_ascii,
+    METAC_ENC_lo_user, /* implementation-defined, e.g. _Complex int */
 };
 
 /** @brief supported languages for metac_lang_t */
-- 
2.43.0


From c27c093785f281ab5fdba7bcb0f58d3f91d686e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:58:49 +0000
Subject: [PATCH 48/50] fix: generator failed on programs with _Atomic types
 (C11)

---
 include/metac/const.h         | 1 +
 include/metac/reflect/entry.h | 1 +
 pkg/metadb/metadb_builder.go  | 2 ++
 pkg/metadb/metadb_types.go    | 2 ++
 src/entry.c                   | 3 +++
 src/entry_cdecl.c             | 5 ++++-
 6 files changed, 13 insertions(+), 1 deletion(-)

diff --git a/include/metac/const.h b/include/metac/const.h
index 59e825b..39ba2a7 100644
--- a/include/metac/const.h
+++ b/include/metac/const.h
@@ -28,6 +28,7 @@ enum {
     METAC_KND_mutable_type,
     METAC_KND_shared_type,
     METAC_KND_packed_type,
+    METAC_KND_atomic_type,
     /* C++ specific type kinds */
     METAC_KND_reference_type,
     METAC_KND_rvalue_reference_type,
diff --git a/include/metac/reflect/entry.h b/include/metac/reflect/entry.h
index ae8fd0c..25d098c 100644
--- a/include/metac/reflect/entry.h
+++ b/include/metac/reflect/entry.h
@@ -54,6 +54,7 @@ typedef union {
         unsigned short flag_mutable:1;
         unsigned short flag_shared:1;
         unsigned short flag_packed:1;
+        unsigned short flag_atomic:1;
     };
     unsigned short flags; /**< representation as a single short value */
 } metac_quals_t;
diff --git a/pkg/metadb/metadb_builder.go b/pkg/metadb/metadb_builder.go
index 3c1d940..eb9132a 100644
--- a/pkg/metadb/metadb_builder.go
+++ b/pkg/metadb/metadb_builder.go
@@ -780,6 +780,8 @@ func (builder *MetaDbBuilder) processEntry(cu *CompileUnit, parent ICommon, offs
 	case "SharedType":
 		fallthrough
 	case "PackedType":
+		fallthrough
+	case "AtomicType": // C11 _Atomic
 		_, err = builder.processQualType(cu, parent, index)
 	case "ClassType":
 		fallthrough
diff --git a/pkg/metadb/metadb_types.go b/pkg/metadb/metadb_types.go
index 46be288..dba002a 100644
--- a/pkg/metadb/metadb_types.go
+++ b/pkg/metadb/metadb_types.go
@@ -641,6 +641,8 @@ func isTypeTag(tag dwarfy.Tag) bool {
 		fallthrough
 	case "PackedType":
 		fallthrough
+	case "AtomicType":
+		fallthrough
 	case "ClassType":
 		fallthrough
 	case "StructType":
diff --git a/src/entry.c b/src/entry.c
index 68fe12e..5a9cd32 100644
--- a/src/entry.c
+++ b/src/entry.c
@@ -138,6 +138,7 @@ int metac_entry_byte_size(metac_entry_t *p_entry, metac_size_t *p_sz) {
         case METAC_KND_mutable_type:
         case METAC_KND_shared_type:
         case METAC_KND_packed_type:
+        case METAC_KND_atomic_type:
             p_entry = p_entry->qual_type_info.type;
             continue;
         case METAC_KND_array_type:
@@ -192,12 +193,14 @@ metac_entry_t * metac_entry_final_entry(metac_entry_t *p_entry, metac_quals_t *
         case METAC_KND_mutable_type:
         case METAC_KND_shared_type:
         case METAC_KND_packed_type:
+        case METAC_KND_atomic_type:
             quals.flag_const |= (p_entry->kind == METAC_KND_const_type);
             quals.flag_volatile |= (p_entry->kind == METAC_KND_volatile_type);
             quals.flag_restrict |= (p_entry->kind == METAC_KND_restrict_type);
             quals.flag_mutable |= (p_entry->kind == METAC_KND_mutable_type);
             quals.flag_shared |= (p_entry->kind == METAC_KND_shared_type);
             quals.flag_packed |= (p_entry->kind == METAC_KND_packed_type);
+            quals.flag_atomic |= (p_entry->kind == METAC_KND_atomic_type);
             p_entry = p_entry->qual_type_info.type;
             break;
         default:
diff --git a/src/entry_cdecl.c b/src/entry_cdecl.c
index a1f2d87..6b8eacb 100644
--- a/src/entry_cdecl.c
+++ b/src/entry_cdecl.c
@@ -19,6 +19,7 @@ static metac_entry_t * skip_quals(metac_entry_t * p_entry) {
             case METAC_KND_mutable_type:
             case METAC_KND_shared_type:
             case METAC_KND_packed_type:
+            case METAC_KND_atomic_type:
                 p_entry = p_entry->qual_type_info.type;
                 continue;
         }
@@ -170,7 +171,8 @@ char * metac_entry_cdecl(metac_entry_t * p_entry) {
             case METAC_KND_restrict_type:
             case METAC_KND_mutable_type:
             case METAC_KND_shared_type:
-            case METAC_KND_packed_type: {
+            case METAC_KND_packed_type:
+            case METAC_KND_atomic_type: {
                 switch (state) {
                     case METAC_R_ITER_start: {
                         if (p->qual_type_info.type != NULL) {
@@ -196,6 +198,7 @@ char * metac_entry_cdecl(metac_entry_t * p_entry) {
                             case METAC_KND_mutable_type: qual_str = "mutable %s"; break;
                             case METAC_KND_shared_type: qual_str = "shared %s"; break;
                             case METAC_KND_packed_type: qual_str = "packed %s"; break;
+                            case METAC_KND_atomic_type: qual_str = "_Atomic %s"; break;
                         }
                         if (qual_str == NULL) {
                             metac_recursive_iterator_fail(p_iter);
-- 
2.43.0


From 9536899da8247a557bb888258306079d4551cdaa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:04:58 +0000
Subject: [PATCH 49/50] fix: metac-reflect-gen: file names with quotes and
 backslashes gave code which can't be compiled

---
 modules/metac-reflect-gen/templates/_compile_unit.tpl | 2 +-
 modules/metac-reflect-gen/templates/_escape_path.tpl  | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/modules/metac-reflect-gen/templates/_compile_unit.tpl b/modules/metac-reflect-gen/templates/_compile_unit.tpl
index 3f776c9..6b139e0 100644
--- a/modules/metac-reflect-gen/templates/_compile_unit.tpl
+++ b/modules/metac-reflect-gen/templates/_compile_unit.tpl
@@ -6,7 +6,7 @@
 {{-        range $i,$v := $map }}
 static struct metac_entry {{ $i }} = {
     .kind = METAC_KND_compile_unit,
-    .name = "{{ $v.Name }}",
+    .name = "{{ include "metac_reflect_gen.escape_path" $v.Name }}",
     .compile_unit_info = {
         .lang = METAC_LANG_{{ $v.Lang }},
 {{-     if not (eq 0 (len $v.DeclFiles)) }}
diff --git a/modules/metac-reflect-gen/templates/_escape_path.tpl b/modules/metac-reflect-gen/templates/_escape_path.tpl
index eb128a5..d4185c8 100644
--- a/modules/metac-reflect-gen/templates/_escape_path.tpl
+++ b/modules/metac-reflect-gen/templates/_escape_path.tpl
@@ -1,3 +1,3 @@
 {{- define "metac_reflect_gen.escape_path" -}}
-{{ regexReplaceAll "\\\\" . "/" }}
+{{ regexReplaceAll "\\\\" . "/" | replace "\"" "\\\"" }}
 {{- end -}}
\ No newline at end of file
-- 
2.43.0


From 4d4fa71ae3698c784c75bcc95d417f82ad644d23 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:40:29 +0000
Subject: [PATCH 50/50] fix: link of an external symbol took a static of the
 same name from another compile unit (clang)

---
 modules/metac-reflect-gen/templates/_glob_responses.tpl | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/modules/metac-reflect-gen/templates/_glob_responses.tpl b/modules/metac-reflect-gen/templates/_glob_responses.tpl
index 299f45d..176e590 100644
--- a/modules/metac-reflect-gen/templates/_glob_responses.tpl
+++ b/modules/metac-reflect-gen/templates/_glob_responses.tpl
@@ -8,12 +8,12 @@
 {{-     $requests := get $resDict $key -}}
 {{-     range $_,$r := $requests -}}
 {{-       $cu := index $metaDb.CompileUnits (get $r "cu") -}}
-{{-       $out := include "metac_reflect_gen.glob_responses_hierarchy" (dict "metaDb" $metaDb "hierarchy" $cu.Hierarchy "resNameMacro" $resNameMacro "resName" (get $r "reqName")) -}}
+{{-       $out := include "metac_reflect_gen.glob_responses_hierarchy" (dict "metaDb" $metaDb "hierarchy" $cu.Hierarchy "external" false "resNameMacro" $resNameMacro "resName" (get $r "reqName")) -}}
 {{-       if eq $out "" -}}
-{{- /* clang doesn't create declarations, so need to try all cu*/ -}}
+{{- /* clang doesn't create declarations, so need to try all cu. statics of other cu aren't visible */ -}}
 {{-         range $_,$cu := $metaDb.CompileUnits -}}
 {{-           if eq $out "" -}}
-{{-             $out = include "metac_reflect_gen.glob_responses_hierarchy" (dict "metaDb" $metaDb "hierarchy" $cu.Hierarchy "resNameMacro" $resNameMacro "resName" (get $r "reqName")) -}}
+{{-             $out = include "metac_reflect_gen.glob_responses_hierarchy" (dict "metaDb" $metaDb "hierarchy" $cu.Hierarchy "external" true "resNameMacro" $resNameMacro "resName" (get $r "reqName")) -}}
 {{-           end -}}
 {{-         end -}}
 {{-       end -}}
@@ -27,6 +27,7 @@
 {{-   $hierarchy := index . "hierarchy" -}}
 {{-   $resNameMacro := index . "resNameMacro" -}}
 {{-   $resName := index . "resName" -}}
+{{-   $external := index . "external" -}}
 {{-   range $i,$h := $hierarchy -}}
 {{-     if or (eq $h.Kind "Variable") (eq $h.Kind "Subprogram") -}}
 {{-       $var := "" -}}
@@ -37,7 +38,7 @@
 {{-         $var = index $metaDb.Subprograms $h.Id -}}
 {{-       end -}}
 {{-       with $var -}}
-{{-         if eq (toJson $resName) (toJson .Name) }}
+{{-         if and (eq (toJson $resName) (toJson .Name)) (or (not $external) (eq (toJson .External) "true")) }}
 struct metac_entry *{{ $resNameMacro }}({{ $var.Name }}) = &{{$h.Id}};
 {{-         end -}}
 {{-       end -}}
-- 
2.43.0

