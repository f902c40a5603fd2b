/* uthash.h as an abstract interface: every macro becomes a call the analysis models. */
#ifndef UTHASH_H
#define UTHASH_H
#include <stddef.h>
typedef struct UT_hash_handle { void *reserved[7]; } UT_hash_handle;
void *__vp_hash_find(void *head, const void *key, size_t len);
void __vp_hash_add(void *head, const void *key, size_t len, void *item);
void __vp_hash_del(void *head, void *item);
unsigned int __vp_hash_count(void *head);
void *__vp_hash_first(void *head);
void *__vp_hash_next(void *head, void *item);
#define HASH_FIND(hh, head, keyptr, keylen, out) ((out) = __vp_hash_find(&(head), (keyptr), (keylen)))
#define HASH_FIND_PTR(head, findptr, out) HASH_FIND(hh, head, findptr, sizeof(void *), out)
#define HASH_FIND_INT(head, findint, out) HASH_FIND(hh, head, findint, sizeof(int), out)
#define HASH_ADD_KEYPTR(hh, head, keyptr, keylen, item) __vp_hash_add(&(head), (keyptr), (keylen), (item))
#define HASH_ADD(hh, head, field, keylen, item) HASH_ADD_KEYPTR(hh, head, &((item)->field), keylen, item)
#define HASH_ADD_PTR(head, field, item) HASH_ADD(hh, head, field, sizeof(void *), item)
#define HASH_ADD_INT(head, field, item) HASH_ADD(hh, head, field, sizeof(int), item)
#define HASH_DELETE(hh, head, item) __vp_hash_del(&(head), (item))
#define HASH_DEL(head, item) HASH_DELETE(hh, head, item)
#define HASH_CNT(hh, head) __vp_hash_count(&(head))
#define HASH_COUNT(head) HASH_CNT(hh, head)
#define HASH_ITER(hh, head, el, tmp) \
	for ((el) = __vp_hash_first(&(head)), (tmp) = (el) ? __vp_hash_next(&(head), (el)) : NULL; (el) != NULL; \
	     (el) = (tmp), (tmp) = (tmp) ? __vp_hash_next(&(head), (tmp)) : NULL)
#endif
