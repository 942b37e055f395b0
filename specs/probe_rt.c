// runtime.c with the layout of its private structures exported
#include <stddef.h>
#include "runtime.c"
#define K(name, v) extern const long OFF_##name; const long OFF_##name = (long)(v)
K(cont_count, offsetof(struct scmContinuation, count)); K(cont_len, offsetof(struct scmContinuation, len));
K(cont_data, offsetof(struct scmContinuation, data)); K(sizeof_cont, sizeof(struct scmContinuation));
