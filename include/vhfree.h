/* free() that also notes the release of watched blocks. Included before the sources. */
#ifndef VHFREE_H
#define VHFREE_H
static void *vh_watch[4];
static int vh_freed[4];
static void vh_free(void *p)
{
    if (p != NULL){
        if (p == vh_watch[0]) vh_freed[0]++;
        if (p == vh_watch[1]) vh_freed[1]++;
        if (p == vh_watch[2]) vh_freed[2]++;
        if (p == vh_watch[3]) vh_freed[3]++;
    }
    free(p);
}
static void vh_watch_set(int i, void *p){ vh_watch[i] = p; vh_freed[i] = 0; }
#define free vh_free
#endif
