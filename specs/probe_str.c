// src/str.c itself, plus the layout of its private struct
#include <stddef.h>
#include "str.c"
#define K(name, v) extern const long OFF_##name; const long OFF_##name = (long)(v)
K(sb_cap, offsetof(struct _strBuf, cap)); K(sb_len, offsetof(struct _strBuf, len)); K(sb_data, offsetof(struct _strBuf, data));
K(sizeof_sb, sizeof(struct _strBuf));
