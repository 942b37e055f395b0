// Instantiates map.h at the key and value sizes the runtime uses (16-byte keys; 8- and 16-byte values).
#include <stddef.h>
#include "map.h"
struct K16 { uint64_t a, b; };
struct V16 { uint64_t a, b; };
typedef map(struct K16, uint64_t) M8;
typedef map(struct K16, struct V16) M16;
void *q_get8(M8 *m, struct K16 *k) { return mapGet(m, *k); }
void *q_get16(M16 *m, struct K16 *k) { return mapGet(m, *k); }
void q_set8(M8 *m, struct K16 *k, uint64_t *v) { mapSet(m, *k, *v); }
void q_set16(M16 *m, struct K16 *k, struct V16 *v) { mapSet(m, *k, *v); }
void *q_init_get8(M8 *m, uint64_t (*h)(void *), bool (*e)(void *, void *), struct K16 *k) {
	mapInit(m, h, e);
	return mapGet(m, *k);
}
