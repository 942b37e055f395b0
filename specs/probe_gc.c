// gc.c with the layout of its private structures exported
#include <stddef.h>
#include "gc.c"
#define K(name, v) extern const long OFF_##name; const long OFF_##name = (long)(v)
K(block_sizeClass, offsetof(struct Block, sizeClass)); K(block_curr, offsetof(struct Block, curr)); K(block_ha, offsetof(struct Block, ha));
K(block_base, offsetof(struct Block, base)); K(block_next, offsetof(struct Block, next)); K(block_touch, offsetof(struct Block, touch)); K(sizeof_block, sizeof(struct Block));
K(arena_ptr, offsetof(struct heapArena, ptr)); K(arena_next, offsetof(struct heapArena, next)); K(arena_idx, offsetof(struct heapArena, idx));
K(arena_blocks, offsetof(struct heapArena, blocks)); K(arena_large, offsetof(struct heapArena, forLargeObjects)); K(arena_curr, offsetof(struct heapArena, curr)); K(sizeof_arena, sizeof(struct heapArena));
K(free_slots, offsetof(struct scmFreeNode, slots)); K(sizeof_free, sizeof(struct scmFreeNode));
K(gc_state, offsetof(GC, state)); K(gc_sizeClass, offsetof(GC, sizeClass)); K(gc_heap, offsetof(GC, heap)); K(gc_freelist, offsetof(GC, freelist)); K(gc_large, offsetof(GC, large));
K(gc_version, offsetof(GC, version)); K(gc_gray, offsetof(GC, gray)); K(gc_start, offsetof(GC, start)); K(gc_end, offsetof(GC, end)); K(gc_progress, offsetof(GC, progress)); K(gc_stats, offsetof(GC, stats)); K(gc_rset, offsetof(GC, rset)); K(sizeof_gc, sizeof(GC));
K(progress_b, offsetof(struct runDoneProgress, b)); K(progress_ha, offsetof(struct runDoneProgress, ha)); K(progress_pos, offsetof(struct runDoneProgress, sizeClassPos));
K(stats_allocated, offsetof(struct GCStats, allocated)); K(list_head, offsetof(struct doubleLinkList, head)); K(list_tail, offsetof(struct doubleLinkList, tail));
K(classes, sizeof(sizeClass) / sizeof(int)); K(BLOCK, MEM_BLOCK_SIZE); K(ARENA, HEAP_ARENA_SIZE); K(BLOCKS, BLOCKS_PER_HEAP); K(VBITS, VERSION_BITS);
K(stateNone, gcStateNone); K(stateMark, gcStateMark); K(stateIncremental, gcStateIncremental); K(stateSweep, gcStateSweep);
K(head_size, offsetof(scmHead, size)); K(head_type, offsetof(scmHead, type)); K(head_version, offsetof(scmHead, version)); K(sizeof_head, sizeof(scmHead));
K(headex_rset, offsetof(scmHeadEx, rset)); K(headex_inRSet, offsetof(scmHeadEx, inRSet)); K(sizeof_headex, sizeof(scmHeadEx)); K(HEAD_unused, scmHeadUnused); K(HEAD_max, scmHeadMax);
