/* Interpreter for container histories: one operation per input line, one answer per output line.
   Objects are counted, so that "reset" can report how many stored objects were not released exactly once. */
#include "src/map/map.h"
#include "src/pair/pair.h"
#include "src/set/set.h"
#include "src/symtab/symtab.h"
#include "src/tagtab/tagtab.h"
#include "src/vector/vector.h"

#include <stdio.h>
#include <stdlib.h>
#include <string.h>

#define N 4
#define MAGIC 0x5eed1234

typedef struct Obj {
    unsigned magic;
    int value;
} Obj;

static long alive;

static void* mk(int v) {
    Obj* o = malloc(sizeof(Obj));
    o->magic = MAGIC;
    o->value = v;
    alive++;
    return o;
}
static int val(void* p) {
    Obj* o = p;
    if (o->magic != MAGIC) {
        printf("DEAD OBJECT\n");
        fflush(stdout);
        abort();
    }
    return o->value;
}
static void* cp(void* p) { return mk(val(p)); }
static void del(void* p) {
    val(p);
    ((Obj*)p)->magic = 0;
    alive--;
    free(p);
}
static int cmp(void* a, void* b) { return val(a) < val(b) ? -1 : val(a) > val(b); }
static int h_const(void* p) { return (void)val(p), 7; }
static int h_few(void* p) { return (unsigned)val(p) % 3; }
static int h_id(void* p) { return (unsigned)val(p) & 0x7fffffff; }
static int h_mul(void* p) { return (int)((unsigned)val(p) * 2654435761u >> 1); }
static int h_step(void* p) { return ((unsigned)val(p) & 0xffff) * 15; }

static BaseType t_obj = {cp, del};
static HashableType t_hash[5] = {{cp, del, h_const, cmp}, {cp, del, h_few, cmp}, {cp, del, h_id, cmp}, {cp, del, h_mul, cmp}, {cp, del, h_step, cmp}};

static Map* maps[N];
static Set* sets[N];
static Vector* vecs[N];
static int mapt[N];   /* 0..4 counted objects, 5 integers, 6 strings */
static int sett[N];
static SymbolTable* sym;
static TagTable* tag;

static char* keystr(int v) {
    static char b[64];
    static const char* pre[] = {"", "a", "aa", "x_", "variable_name_", "Z", "\x8f", "__", "k\xff", "ab"};
    sprintf(b, "%s%d", pre[(unsigned)v % 10], v);
    return b;
}
static HashableType* ht(int t) { return t == 5 ? &t_hashable_integer : t == 6 ? &t_hashable_string : &t_hash[t]; }
static void* key(int t, int v) {
    if (t == 5) return new_integer(v);
    if (t == 6) return new_string(keystr(v));
    return mk(v);
}
static void keydel(int t, void* k) {
    if (t >= 5) free(k);
    else del(k);
}
static int keyval(int t, void* k) {
    if (t == 5) return *(int*)k;
    if (t == 6) {
        char* s = k;
        int i = strlen(s);
        while (i > 0 && s[i - 1] >= '0' && s[i - 1] <= '9') i--;
        return atoi(s + i);
    }
    return val(k);
}
static int icmp(const void* a, const void* b) { return memcmp(a, b, sizeof(int)) == 0 ? 0 : *(int*)a < *(int*)b ? -1 : *(int*)a > *(int*)b; }

static void dumpset(Set* s, int t) {
    int n = 0;
    int* a = malloc(sizeof(int) * 100000);
    for (SetIter* it = set_iter_begin(s); !set_iter_end(it, s); it = set_iter_next(it, s)) a[n++] = keyval(t, set_iter_item(it, s));
    qsort(a, n, sizeof(int), icmp);
    printf("{");
    for (int i = 0; i < n; i++) printf(" %d", a[i]);
    printf(" }\n");
    free(a);
}
static void dumpmap(Map* m, int t) {
    int n = 0;
    int(*a)[2] = malloc(sizeof(int[2]) * 100000);
    for (MapIter* it = map_iter_begin(m); !map_iter_end(it, m); it = map_iter_next(it, m)) {
        a[n][0] = keyval(t, map_iter_key(it, m));
        a[n++][1] = val(map_iter_value(it, m));
    }
    qsort(a, n, sizeof(int[2]), icmp);
    printf("{");
    for (int i = 0; i < n; i++) printf(" %d:%d", a[i][0], a[i][1]);
    printf(" }\n");
    free(a);
}
static void dumpvec(Vector* v) {
    printf("[");
    for (int i = 0; i < vector_size(v); i++) printf(" %d", val(vector_at(v, i)));
    printf(" ]\n");
}
static DType* dt(int k) {
    switch (k) {
        case 0: return new_integer_dtype(DTYPE_CHAR);
        case 1: return new_integer_dtype(DTYPE_INT);
        case 2: return new_integer_dtype(DTYPE_LONG);
        case 3: return new_array_dtype(new_integer_dtype(DTYPE_CHAR), 3);
        case 4: return new_pointer_dtype(new_integer_dtype(DTYPE_INT));
        default: return new_array_dtype(new_integer_dtype(DTYPE_INT), k);
    }
}
static void reset(void) {
    for (int i = 0; i < N; i++) {
        if (maps[i]) delete_map(maps[i]);
        if (sets[i]) delete_set(sets[i]);
        if (vecs[i]) delete_vector(vecs[i]);
        maps[i] = 0, sets[i] = 0, vecs[i] = 0;
    }
    if (sym) delete_symboltable(sym);
    if (tag) delete_tagtable(tag);
    sym = 0, tag = 0;
    printf("alive %ld\n", alive);
    alive = 0;
}

int main(void) {
    char line[256], op[32];
    while (fgets(line, sizeof line, stdin)) {
        int a = 0, b = 0, c = 0;
        sscanf(line, "%31s %d %d %d", op, &a, &b, &c);
#define IS(x) else if (!strcmp(op, x))
        if (!strcmp(op, "reset")) { reset(); fflush(stdout); }
        IS("mnew") { maps[a] = new_map(ht(b), &t_obj); mapt[a] = b; printf("ok\n"); }
        IS("madd") { map_add(maps[a], key(mapt[a], b), mk(c)); printf("ok\n"); }
        IS("mrem") { void* k = key(mapt[a], b); map_remove(maps[a], k); keydel(mapt[a], k); printf("ok\n"); }
        IS("mget") { void* k = key(mapt[a], b); void* v = map_get(maps[a], k); keydel(mapt[a], k); if (v) printf("%d\n", val(v)); else printf("none\n"); }
        IS("mdef") { void* k = key(mapt[a], b); void* d = mk(c); void* v = map_get_with_default(maps[a], k, d); printf("%d %d\n", val(v), v == d); keydel(mapt[a], k); del(d); }
        IS("mhas") { void* k = key(mapt[a], b); printf("%d\n", !!map_contains(maps[a], k)); keydel(mapt[a], k); }
        IS("mdump") { dumpmap(maps[a], mapt[a]); }
        IS("mcopy") { if (maps[b]) delete_map(maps[b]); maps[b] = map_copy(maps[a]); mapt[b] = mapt[a]; printf("ok\n"); }
        IS("mfirst") { MapIter* it = map_iter_begin(maps[a]); if (!map_iter_end(it, maps[a])) { printf("%d\n", keyval(mapt[a], map_iter_key(it, maps[a])) != -1 << 30); map_iter_exit(it); } else printf("end\n"); }
        IS("snew") { sets[a] = new_set(ht(b)); sett[a] = b; printf("ok\n"); }
        IS("sadd") { set_add(sets[a], key(sett[a], b)); printf("ok\n"); }
        IS("srem") { void* k = key(sett[a], b); set_remove(sets[a], k); keydel(sett[a], k); printf("ok\n"); }
        IS("shas") { void* k = key(sett[a], b); printf("%d\n", !!set_contains(sets[a], k)); keydel(sett[a], k); }
        IS("sdump") { dumpset(sets[a], sett[a]); }
        IS("scopy") { if (sets[b]) delete_set(sets[b]); sets[b] = set_copy(sets[a]); sett[b] = sett[a]; printf("ok\n"); }
        IS("sand") { Set* s = set_intersection(sets[a], sets[b]); dumpset(s, sett[a]); delete_set(s); }
        IS("sor") { Set* s = set_union(sets[a], sets[b]); dumpset(s, sett[a]); delete_set(s); }
        IS("ssub") { Set* s = set_difference(sets[a], sets[b]); dumpset(s, sett[a]); delete_set(s); }
        IS("ssup") { printf("%d\n", !!set_issubset(sets[a], sets[b])); }
        IS("seq") { printf("%d\n", !!set_equals(sets[a], sets[b])); }
        IS("vnew") { vecs[a] = new_vector(&t_obj); printf("ok\n"); }
        IS("vpush") { vector_push(vecs[a], mk(b)); printf("ok\n"); }
        IS("vpop") { void* p = vector_pop(vecs[a]); printf("%d\n", val(p)); del(p); }
        IS("vfill") { vector_fill(vecs[a], b, mk(c)); printf("ok\n"); }
        IS("vset") { void* p = mk(c); int r = vector_set(vecs[a], b, p); if (!r) del(p); printf("%d\n", !!r); }
        IS("vins") { int in = b >= 0 && b <= vector_size(vecs[a]); void* p = mk(c); vector_insert(vecs[a], b, p); if (!in) del(p); printf("ok\n"); }
        IS("vdel") { vector_erase(vecs[a], b); printf("ok\n"); }
        IS("vat") { void* p = vector_at(vecs[a], b); if (p) printf("%d\n", val(p)); else printf("none\n"); }
        IS("vlen") { printf("%d\n", vector_size(vecs[a])); }
        IS("vdump") { dumpvec(vecs[a]); }
        IS("vext") { vector_extend(vecs[a], vecs[b]); printf("ok\n"); }
        IS("vcopy") { if (vecs[b]) delete_vector(vecs[b]); vecs[b] = vector_copy(vecs[a]); printf("ok\n"); }
        IS("pair") {
            Pair* p = new_pair(&t_obj, &t_obj);
            pair_set(p, mk(a), mk(b));
            Pair* q = pair_copy(p);
            if (c & 1) pair_set_first(p, mk(c));
            if (c & 2) pair_set_second(p, mk(c));
            printf("%d %d %d %d\n", val(pair_first(p)), val(pair_second(p)), val(pair_first(q)), val(pair_second(q)));
            if (c & 4) {
                delete_pair(p);
            } else {
                void *x, *y;
                pair_assign(&x, &y, p);
                printf("%d %d\n", val(x), val(y));
                del(x), del(y);
            }
            delete_pair(q);
        }
        IS("tnew") { sym = new_symboltable(); tag = new_tagtable(); printf("ok\n"); }
        IS("tin") { sym = symboltable_enter_scope(sym); tag = tagtable_enter_scope(tag); printf("ok\n"); }
        IS("tout") { sym = symboltable_exit_scope(sym); tag = tagtable_exit_scope(tag); printf("frame %d\n", sym ? sym->memory_nbytes : -1); }
        IS("tmem") {
            char* n = new_string(keystr(a));
            if (!symboltable_can_define(sym, n)) { printf("taken\n"); free(n); }
            else {
                DType* d = dt(b);
                int z = dtype_nbytes(d);
                Symbol* s = symboltable_define_memory(sym, n, d);
                printf("mem %d %d %d\n", s->memory_offset, z, sym->memory_nbytes);
            }
        }
        IS("tlab") {
            char* n = new_string(keystr(a));
            if (!symboltable_can_define(sym, n)) { printf("taken\n"); free(n); }
            else { symboltable_define_label(sym, n, dt(b)); printf("ok\n"); }
        }
        IS("tfind") {
            Symbol* s = symboltable_search(sym, keystr(a));
            if (!s) printf("none\n");
            else printf("%s %d %d %d\n", s->type == SYMBOL_MEM ? "mem" : "label", dtype_nbytes(s->dtype), s->type == SYMBOL_MEM ? s->memory_offset : 0, !strcmp(s->name, keystr(a)));
        }
        IS("gdef") {
            char* n = new_string(keystr(a));
            if (!tagtable_can_define(tag, n)) { printf("taken\n"); free(n); }
            else {
                Vector* m = new_vector(&t_dstructmember);
                for (int i = 0; i < b; i++) {
                    char nm[8];
                    sprintf(nm, "m%d", i);
                    vector_push(m, new_dstructmember(new_string(nm), new_integer_dtype(DTYPE_INT)));
                }
                tagtable_define_struct(tag, n, m);
                printf("ok\n");
            }
        }
        IS("gfind") { DType* d = tagtable_search(tag, keystr(a)); if (d) printf("%d\n", dtype_nbytes(d)); else printf("none\n"); }
        IS("tcopy") {
            SymbolTable* s2 = symboltable_copy(sym);
            TagTable* g2 = tagtable_copy(tag);
            delete_symboltable(sym), delete_tagtable(tag);
            sym = s2, tag = g2;
            printf("ok\n");
        }
        else { printf("bad op\n"); }
    }
    return 0;
}
