// Roots in the data of a shared library (see heapdrv.c).
static void *slots[64];
void **vh_so_slots(void) { return slots; }
