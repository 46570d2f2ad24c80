/* Vocabulary the analyser gives meaning to; none of it is ever linked or run. */
#ifndef SA_H
#define SA_H
#include <stdint.h>
#include <stddef.h>
#ifdef __cplusplus
extern "C" {
#endif
unsigned char sa_u8(const char *name, uint64_t lo, uint64_t hi);
uint32_t sa_u32(const char *name, uint64_t lo, uint64_t hi);
uint64_t sa_u64(const char *name, uint64_t lo, uint64_t hi);
uint64_t sa_state_in(const char *key);
void sa_state_out(const char *key, uint64_t v);
void sa_assume(int c);
void sa_check(int c, const char *msg);
void sa_reach(const char *msg);
void sa_note(const char *msg, uint64_t v);
uint64_t sa_part(uint64_t v);
void *sa_input(const char *name, uint64_t size);
void *sa_output(const char *name, uint64_t size);
uint64_t sa_extent(const void *p);
int sa_written(const void *p, uint64_t k);
int sa_isundef(uint32_t v);
uint64_t sa_heap_live(void);
int sa_is_live(const void *p);
uint64_t sa_objsize(const void *p);
uint64_t sa_room(const void *p);
void sa_alloc_may_fail(int on);
void sa_freeze(void *p, int on);
void sa_out(const char *key, uint64_t v);
void sa_stop(void);
void sa_collect(const char *key, int cond, uint64_t v);
void sa_join(int on);
#ifdef __cplusplus
}
#endif
#endif
