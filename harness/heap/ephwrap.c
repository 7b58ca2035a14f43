// The table of pending ephemerons is sized after the heap: thousands of
// buckets for a few ephemerons.  Stands between the collector and
// gc_prepare_pending_ephemerons, so that some runs have the smallest table
// there is, with every bucket, the first and the last too, in use.  build.sh
// leaves this out if that internal function is not what it was.
#define GC_IMPL 1
#include <sys/types.h>
#include "gc-ephemeron-internal.h"
typedef struct gc_pending_ephemerons* prepare(struct gc_pending_ephemerons*, size_t, double);
_Static_assert(__builtin_types_compatible_p(__typeof__(gc_prepare_pending_ephemerons), prepare), "");
extern int vh_small_table;
extern __attribute__((weak)) prepare __real_gc_prepare_pending_ephemerons;
prepare __wrap_gc_prepare_pending_ephemerons;
struct gc_pending_ephemerons*
__wrap_gc_prepare_pending_ephemerons(struct gc_pending_ephemerons *state, size_t target,
                                     double slop) {
  return __real_gc_prepare_pending_ephemerons(state, vh_small_table ? 256 : target, slop);
}
