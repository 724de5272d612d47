/* A machine as hwloc would describe it: `nodes` memory nodes, `cores` cores in total (spread over the nodes in order),
 * core c has pus[c] logical processors, numbered per core or in rounds over the cores. Everything hwloc allocates is
 * allocated from the explorer's heap, so what is not given back is seen. */
#include <hwloc.h>
#include <stdlib.h>
#include <string.h>
#define HM_MAX 8
static struct { int nodes, cores, pus[HM_MAX], rounds; } hm;
struct hwloc_bitmap_s { unsigned long bits; };
struct hwloc_topology { int loaded; struct hwloc_obj core[HM_MAX], node[HM_MAX], pu[HM_MAX * 2]; struct hwloc_bitmap_s set[HM_MAX * 6]; int npu; };
static struct { unsigned long cpu; int bound, mem; const char *area; size_t len; unsigned long node; } hm_of[32];   /* per thread */
MC_GHOST static int hm_me(void) { return mc_tid() & 31; }
hwloc_bitmap_t hwloc_bitmap_alloc(void) { hwloc_bitmap_t b = (hwloc_bitmap_t)malloc(sizeof *b); b->bits = 0; return b; }
hwloc_bitmap_t hwloc_bitmap_dup(hwloc_const_bitmap_t s) { if (!s) return 0; hwloc_bitmap_t b = hwloc_bitmap_alloc(); b->bits = s->bits; return b; }
void hwloc_bitmap_free(hwloc_bitmap_t b) { free(b); }
void hwloc_bitmap_zero(hwloc_bitmap_t b) { b->bits = 0; }
int hwloc_bitmap_only(hwloc_bitmap_t b, unsigned i) { b->bits = i < 64 ? 1ul << i : 0; return 0; }
int hwloc_bitmap_set(hwloc_bitmap_t b, unsigned i) { b->bits |= 1ul << i; return 0; }
int hwloc_bitmap_copy(hwloc_bitmap_t d, hwloc_const_bitmap_t s) { d->bits = s->bits; return 0; }
int hwloc_bitmap_isset(hwloc_const_bitmap_t b, unsigned i) { return (b->bits >> i) & 1; }
int hwloc_bitmap_iszero(hwloc_const_bitmap_t b) { return b->bits == 0; }
int hwloc_bitmap_weight(hwloc_const_bitmap_t b) { return __builtin_popcountl(b->bits); }
int hwloc_bitmap_first(hwloc_const_bitmap_t b) { return b->bits ? __builtin_ctzl(b->bits) : -1; }
int hwloc_bitmap_next(hwloc_const_bitmap_t b, int p) { for (int i = p + 1; i < 64; i++) if ((b->bits >> i) & 1) return i; return -1; }
int hwloc_bitmap_isincluded(hwloc_const_bitmap_t a, hwloc_const_bitmap_t b) { return (a->bits & ~b->bits) == 0; }
int hwloc_bitmap_intersects(hwloc_const_bitmap_t a, hwloc_const_bitmap_t b) { return (a->bits & b->bits) != 0; }
int hwloc_bitmap_isequal(hwloc_const_bitmap_t a, hwloc_const_bitmap_t b) { return a->bits == b->bits; }
int hwloc_bitmap_singlify(hwloc_bitmap_t b) { b->bits &= -b->bits; return 0; }
int hwloc_bitmap_list_asprintf(char **s, hwloc_const_bitmap_t b) { *s = (char *)malloc(8); strcpy(*s, "?"); return 1; }
int hwloc_bitmap_asprintf(char **s, hwloc_const_bitmap_t b) { return hwloc_bitmap_list_asprintf(s, b); }
static int hm_live;
int hwloc_topology_init(hwloc_topology_t *t) { *t = (hwloc_topology_t)malloc(sizeof **t); memset((void *)*t, 0, sizeof **t); hm_live++; return 0; }
int hwloc_topology_load(hwloc_topology_t t)
{
    int ns = 0, np = 0, sib[HM_MAX * 2];
    for (int n = 0; n < hm.nodes; n++) {
        hwloc_obj_t o = &t->node[n];
        o->type = HWLOC_OBJ_NUMANODE; o->os_index = o->logical_index = n; o->depth = HWLOC_TYPE_DEPTH_NUMANODE;
        o->cpuset = &t->set[ns++]; o->nodeset = &t->set[ns++]; o->nodeset->bits = 1ul << n;
        o->next_cousin = n + 1 < hm.nodes ? &t->node[n + 1] : 0;
    }
    for (int r = 0; r < (hm.rounds ? 2 : hm.cores); r++)    /* number the logical processors */
        for (int k = 0; k < (hm.rounds ? hm.cores : hm.pus[r]); k++) {
            int c = hm.rounds ? k : r;
            if (hm.rounds && r >= hm.pus[c]) continue;
            sib[np] = c; np++;
        }
    for (int c = 0; c < hm.cores; c++) {
        hwloc_obj_t o = &t->core[c];
        int n = c * hm.nodes / hm.cores;
        o->type = HWLOC_OBJ_CORE; o->os_index = o->logical_index = c; o->depth = 1;
        o->cpuset = &t->set[ns++]; o->nodeset = t->node[n].nodeset;
        for (int p = 0; p < np; p++) if (sib[p] == c) { o->cpuset->bits |= 1ul << p; t->node[n].cpuset->bits |= 1ul << p; }
        o->next_cousin = c + 1 < hm.cores ? &t->core[c + 1] : 0;
    }
    for (int p = 0; p < np; p++) {
        hwloc_obj_t o = &t->pu[p];
        o->type = HWLOC_OBJ_PU; o->os_index = o->logical_index = p; o->depth = 2;
        o->cpuset = &t->set[ns++]; o->cpuset->bits = 1ul << p; o->nodeset = t->core[sib[p]].nodeset;
        o->next_cousin = p + 1 < np ? &t->pu[p + 1] : 0;
    }
    t->npu = np; t->loaded = 1;
    return 0;
}
void hwloc_topology_destroy(hwloc_topology_t t) { free(t); hm_live--; }
int hwloc_topology_set_flags(hwloc_topology_t t, unsigned long f) { return 0; }
int hwloc_get_type_depth(hwloc_topology_t t, hwloc_obj_type_t type) { return type == HWLOC_OBJ_CORE ? 1 : type == HWLOC_OBJ_PU ? 2 : type == HWLOC_OBJ_NUMANODE ? HWLOC_TYPE_DEPTH_NUMANODE : type == HWLOC_OBJ_MACHINE ? 0 : HWLOC_TYPE_DEPTH_UNKNOWN; }
unsigned hwloc_get_nbobjs_by_depth(hwloc_topology_t t, int d) { MC_ASSERT(t->loaded, "the topology is used before it is loaded"); return d == 1 ? hm.cores : d == 2 ? t->npu : d == HWLOC_TYPE_DEPTH_NUMANODE ? hm.nodes : 1; }
hwloc_obj_t hwloc_get_obj_by_depth(hwloc_topology_t t, int d, unsigned i)
{
    if (i >= hwloc_get_nbobjs_by_depth(t, d)) return 0;
    return d == 1 ? &t->core[i] : d == 2 ? &t->pu[i] : d == HWLOC_TYPE_DEPTH_NUMANODE ? &t->node[i] : 0;
}
int hwloc_set_cpubind(hwloc_topology_t t, hwloc_const_cpuset_t s, int flags) { if (!s->bits) return -1; hm_of[hm_me()].cpu = s->bits; hm_of[hm_me()].bound++; return 0; }
int hwloc_get_cpubind(hwloc_topology_t t, hwloc_cpuset_t s, int flags) { s->bits = hm_of[hm_me()].bound ? hm_of[hm_me()].cpu : (1ul << t->npu) - 1; return 0; }
int hwloc_set_area_membind(hwloc_topology_t t, const void *a, size_t len, hwloc_const_bitmap_t s, hwloc_membind_policy_t p, int flags)
{ int i = hm_me(); hm_of[i].mem++; hm_of[i].area = (const char *)a; hm_of[i].len = len; hm_of[i].node = s->bits; return 0; }
int hwloc_get_area_membind(hwloc_topology_t t, const void *a, size_t len, hwloc_bitmap_t s, hwloc_membind_policy_t *p, int flags)
{ s->bits = hm_of[hm_me()].mem ? hm_of[hm_me()].node : (1ul << hm.nodes) - 1; *p = HWLOC_MEMBIND_BIND; return 0; }
int hwloc_get_area_memlocation(hwloc_topology_t t, const void *a, size_t len, hwloc_bitmap_t s, int flags) { s->bits = hm_of[hm_me()].mem ? hm_of[hm_me()].node : 1; return 0; }
