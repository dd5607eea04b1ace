// The runtime behind race.hpp.  Compiled without instrumentation and without library templates.
#include "race.hpp"
#include <dlfcn.h>
#include <errno.h>
#include <linux/futex.h>
#include <locale.h>
#include <pthread.h>
#include <stdarg.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/mman.h>
#include <sys/syscall.h>
#include <time.h>
#include <unistd.h>

extern "C" {
void* __libc_malloc(size_t);
void __libc_free(void*);
void* __libc_calloc(size_t, size_t);
void* __libc_realloc(void*, size_t);
void* __libc_memalign(size_t, size_t);
size_t malloc_usable_size(void*);
extern char __executable_start, _end;
}

namespace
{
using namespace race;
typedef uint64_t u64;
typedef uint32_t u32;

volatile bool g_on;
thread_local int t_id = -1;
thread_local bool t_busy;
thread_local u64 t_stack_lo, t_stack_hi;
thread_local u64 t_spin_addr;
thread_local u32 t_spin;

Box* B;
int N;
int turn[kThreads]; // futex words
int park[kThreads];
bool finished[kThreads];
u64 blocked[kThreads]; // address waited for, 0: runnable
int cur;
int preempts;
bool at_done, at2_done;
u32 vc[kThreads][kThreads];

// ---- shadow ----
struct Rec
{
    u64 pc;
    u32 clock;
    short tid;
    unsigned char mask, kind; // 1 write 2 atomic 4 free
    int next;
};
struct Gran
{
    u64 key;
    int reads, writes;
    int owner; // thread that allocated the block in this run, -1 none
};
constexpr u32 kMaxG = 1u << 24;
u32 kG = 1u << 12; // grows
constexpr int kR = 1 << 26;
Gran* G;
Rec* R;
int nR;
u32* touched;
u32 ntouched;

struct Sync
{
    u64 addr;
    u32 v[kThreads];
};
constexpr int kS = 1 << 12;
Sync* S;
int nS;

u64* confset; // open addressing, kConf*4
constexpr u32 kC = kConf * 4;

u64 mixh(u64 x)
{
    x ^= x >> 31;
    x *= 0x9e3779b97f4a7c15ull;
    x ^= x >> 29;
    return x;
}
Gran *G1, *G2;
void grow()
{
    Gran* old = G;
    Gran* now = G == G1 ? G2 : G1;
    u32 n = kG * 2;
    memset(static_cast<void*>(now), 0, sizeof(Gran) * n);
    for (u32 k = 0; k < ntouched; ++k) {
        const Gran& g = old[touched[k]];
        u32 i = u32(mixh(g.key)) & (n - 1);
        while (now[i].key) i = (i + 1) & (n - 1);
        now[i] = g;
        touched[k] = i;
    }
    memset(static_cast<void*>(old), 0, sizeof(Gran) * kG);
    G = now;
    kG = n;
}
Gran* gran(u64 key, bool make)
{
    for (u32 i = u32(mixh(key)) & (kG - 1);; i = (i + 1) & (kG - 1)) {
        if (G[i].key == key) return &G[i];
        if (!G[i].key) {
            if (!make) return 0;
            if (ntouched > kG / 2) {
                if (kG == kMaxG) {
                    B->full = 1;
                    return 0;
                }
                grow();
                return gran(key, make);
            }
            G[i].key = key;
            G[i].reads = G[i].writes = -1;
            G[i].owner = -1;
            touched[ntouched++] = i;
            return &G[i];
        }
    }
}
bool in_conf(u64 key)
{
    for (u32 i = u32(mixh(key)) & (kC - 1);; i = (i + 1) & (kC - 1)) {
        if (confset[i] == key) return true;
        if (!confset[i]) return false;
    }
}
void conf_slot(u64 key)
{
    for (u32 i = u32(mixh(key)) & (kC - 1);; i = (i + 1) & (kC - 1)) {
        if (confset[i] == key) return;
        if (!confset[i]) {
            confset[i] = key;
            return;
        }
    }
}
void add_conf(u64 key)
{
    if (in_conf(key)) return;
    if (B->nconf >= kConf) {
        B->conf_full = 1;
        return;
    }
    B->conf[B->nconf++] = key;
    conf_slot(key);
}
Sync* sync_at(u64 addr)
{
    for (int i = nS - 1; i >= 0; --i)
        if (S[i].addr == addr) return &S[i];
    if (nS >= kS) return &S[0];
    S[nS].addr = addr;
    memset(S[nS].v, 0, sizeof S[nS].v);
    return &S[nS++];
}

void fwait(int* w)
{
    while (__atomic_load_n(w, __ATOMIC_ACQUIRE) == 0) syscall(SYS_futex, w, FUTEX_WAIT_PRIVATE, 0, 0, 0, 0);
    __atomic_store_n(w, 0, __ATOMIC_RELEASE);
}
void fwake(int* w)
{
    __atomic_store_n(w, 1, __ATOMIC_RELEASE);
    syscall(SYS_futex, w, FUTEX_WAKE_PRIVATE, 1, 0, 0, 0);
}
int main_word;

void go_to(int t)
{
    int me = t_id;
    if (t == me) return;
    cur = t;
    B->switches++;
    fwake(&turn[t]);
    fwait(&turn[me]);
}
int decide(int n)
{
    if (n <= 1) return 0;
    int i = B->nchoice;
    if (i >= kChoices) {
        B->choices_full = 1;
        return 0;
    }
    int c = i < B->nprefix ? B->choice[i] : 0;
    if (c >= n) c = 0; // the run has diverged; take the first
    B->choice[i] = uint8_t(c);
    B->options[i] = uint8_t(n > 255 ? 255 : n);
    B->nchoice++;
    return c;
}
// the c-th thread able to run other than me, in rotation
int others(int me)
{
    int n = 0;
    for (int i = 0; i < N; ++i)
        if (i != me && !finished[i] && !blocked[i]) ++n;
    return n;
}
int other(int me, int c)
{
    for (int k = 0; k < N; ++k) {
        int i = B->order[k];
        if (i != me && !finished[i] && !blocked[i] && c-- == 0) return i;
    }
    return -1;
}
[[noreturn]] void give_up()
{
    B->deadlock = 1;
    _exit(0);
}
// the running thread cannot go on
void leave()
{
    int me = t_id, n = others(me);
    if (n == 0) {
        if (finished[me]) {
            bool all = true;
            for (int i = 0; i < N; ++i) all = all && finished[i];
            if (all) {
                fwake(&main_word);
                return;
            }
        }
        else if (!blocked[me]) return;
        give_up();
    }
    int t = other(me, B->mode == Explore ? decide(n) : 0);
    if (finished[me]) {
        cur = t;
        fwake(&turn[t]);
        return;
    }
    go_to(t);
}
void yield_now()
{
    if (others(t_id) == 0) return;
    go_to(other(t_id, 0));
}

bool mine(u64 a) { return a >= t_stack_lo && a < t_stack_hi; }

void point(u64 key, const Gran* g)
{
    if (g && g->owner == t_id) return;
    B->points[t_id]++;
    if (B->mode == At) {
        if (!at_done && t_id == B->order[0] && B->points[t_id] == B->at) {
            at_done = true;
            if (others(t_id)) go_to(other(t_id, 0));
        }
        else if (at_done && !at2_done && B->at2 && t_id == B->order[1] && B->points[t_id] == B->at2) {
            at2_done = true;
            if (!finished[B->order[0]]) go_to(B->order[0]);
        }
        return;
    }
    if (B->mode == Explore && in_conf(key)) {
        if (preempts >= B->bound) return;
        int n = others(t_id);
        if (!n) return;
        int c = decide(n + 1);
        if (c) {
            ++preempts;
            go_to(other(t_id, c - 1));
        }
    }
}

void found_race(const Rec& o, u64 addr, int kind, u64 pc)
{
    if (B->race) return;
    B->race = 1;
    B->ra = o.tid;
    B->rakind = o.kind;
    B->rapc = o.pc;
    B->rb = t_id;
    B->rbkind = kind;
    B->rbpc = pc;
    B->raddr = addr;
    B->rstatic = addr >= u64(&__executable_start) && addr < u64(&_end);
}

void record(u64 key, unsigned mask, int kind, u64 pc)
{
    Gran* g = gran(key, true);
    if (!g) return;
    const int me = t_id;
    if (g->owner >= 0 && g->owner != me) g->owner = -1;
    for (int l = 0; l < 2; ++l) {
        if (l == 0 && !(kind & 1)) continue; // reads only meet writes
        for (int i = l == 0 ? g->reads : g->writes; i >= 0; i = R[i].next) {
            const Rec& o = R[i];
            if (o.tid == me || !(o.mask & mask)) continue;
            if (!in_conf(key)) {
                B->last_conf[0] = o.pc;
                B->last_conf[1] = pc;
                B->last_kind[0] = o.kind;
                B->last_kind[1] = kind;
            }
            add_conf(key);
            if ((o.kind & 2) && (kind & 2)) continue;
            if (o.clock > vc[me][o.tid]) found_race(o, key * 8, kind, pc);
        }
    }
    int& head = (kind & 1) ? g->writes : g->reads;
    for (int i = head; i >= 0; i = R[i].next)
        if (R[i].tid == me && R[i].kind == kind) {
            if ((R[i].mask & ~mask) == 0 || R[i].clock == vc[me][me]) {
                R[i].mask |= (unsigned char)mask;
                R[i].clock = vc[me][me];
                R[i].pc = pc;
                return;
            }
            break;
        }
    if (nR >= kR) {
        B->full = 1;
        return;
    }
    R[nR] = { pc, vc[me][me], short(me), (unsigned char)mask, (unsigned char)kind, head };
    head = nR++;
}

void access_at(u64 a, u64 n, int kind, u64 pc)
{
    if (!g_on || t_id < 0 || t_busy || n == 0) return;
    if (mine(a)) return;
    t_busy = true;
    int e = errno;
    B->accesses[t_id]++;
    if (!(kind & 2)) t_spin = 0;
    point(a >> 3, gran(a >> 3, false));
    for (u64 k = a >> 3; k <= (a + n - 1) >> 3; ++k) {
        unsigned mask = 0xff;
        if (k == a >> 3) mask &= 0xffu << (a & 7);
        if (k == (a + n - 1) >> 3) mask &= 0xffu >> (7 - ((a + n - 1) & 7));
        record(k, mask, kind, pc);
    }
    errno = e;
    t_busy = false;
}
void acquire(u64 addr)
{
    Sync* s = sync_at(addr);
    for (int i = 0; i < N; ++i)
        if (s->v[i] > vc[t_id][i]) vc[t_id][i] = s->v[i];
}
void release(u64 addr, bool replace)
{
    Sync* s = sync_at(addr);
    for (int i = 0; i < N; ++i)
        if (replace || vc[t_id][i] > s->v[i]) s->v[i] = vc[t_id][i];
    vc[t_id][t_id]++;
}
bool outside(u64 pc) { return pc < u64(&__executable_start) || pc >= u64(&_end); }
// a synchronising operation is about to happen at addr
bool sync_begin(u64 addr, int kind, u64 pc)
{
    if (!g_on || t_id < 0 || t_busy) return false;
    if (outside(pc)) return false; // the system libraries' own locks
    B->syncs++;
    access_at(addr, 1, kind | 2, pc);
    t_busy = true;
    if (t_spin_addr == addr) {
        if (++t_spin > 200) {
            t_spin = 0;
            yield_now();
        }
    }
    else {
        t_spin_addr = addr;
        t_spin = 0;
    }
    return true;
}
void sync_end() { t_busy = false; }
bool acq(int mo) { return mo == __ATOMIC_ACQUIRE || mo == __ATOMIC_ACQ_REL || mo == __ATOMIC_SEQ_CST || mo == __ATOMIC_CONSUME; }
bool rel(int mo) { return mo == __ATOMIC_RELEASE || mo == __ATOMIC_ACQ_REL || mo == __ATOMIC_SEQ_CST; }

// blocks until `free_now` can take the object
bool active() { return g_on && t_id >= 0 && !t_busy; }
void wait_for(u64 addr)
{
    blocked[t_id] = addr;
    leave();
    blocked[t_id] = 0;
}
void wake_all(u64 addr)
{
    for (int i = 0; i < N; ++i)
        if (blocked[i] == addr) blocked[i] = 0;
}

struct Start
{
    int id;
    void (*body)(int, void*);
    void* ctx;
};
Start starts[kThreads];
void* thread_main(void* p)
{
    Start* s = static_cast<Start*>(p);
    pthread_attr_t at;
    void* lo;
    size_t sz;
    pthread_getattr_np(pthread_self(), &at);
    pthread_attr_getstack(&at, &lo, &sz);
    pthread_attr_destroy(&at);
    t_stack_lo = u64(lo);
    t_stack_hi = u64(lo) + sz;
    t_busy = true;
    t_id = s->id;
    fwait(&turn[t_id]);
    t_busy = false;
    s->body(s->id, s->ctx);
    t_busy = true;
    finished[t_id] = true;
    leave();
    fwait(&park[t_id]); // stay, so that no thread-local memory is reused within a run
    return 0;
}

char pseudo_locale[8], pseudo_tok[8], pseudo_time[8], pseudo_rand[8], pseudo_env[8], pseudo_err[8];
} // namespace

namespace race
{
void done() { t_busy = true; }
void run(Box* b, void (*body)(int, void*), void* ctx)
{
    if (!G) {
        auto get = [](size_t n) { return mmap(0, n, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0); };
        G = G1 = static_cast<Gran*>(get(sizeof(Gran) * kMaxG));
        G2 = static_cast<Gran*>(get(sizeof(Gran) * kMaxG));
        R = static_cast<Rec*>(get(sizeof(Rec) * kR));
        S = static_cast<Sync*>(get(sizeof(Sync) * kS));
        touched = static_cast<u32*>(get(sizeof(u32) * kMaxG));
        confset = static_cast<u64*>(get(sizeof(u64) * kC));
    }
    B = b;
    N = b->threads;
    for (u32 i = 0; i < ntouched; ++i) G[touched[i]].key = 0;
    ntouched = 0;
    nR = 0;
    nS = 0;
    memset(confset, 0, sizeof(u64) * kC);
    for (int i = 0; i < b->nconf; ++i) conf_slot(b->conf[i]);
    for (int i = 0; i < N; ++i) {
        memset(vc[i], 0, sizeof(u32) * N);
        vc[i][i] = 1;
        finished[i] = false;
        blocked[i] = 0;
        turn[i] = park[i] = 0;
        b->accesses[i] = b->points[i] = 0;
    }
    preempts = 0;
    at_done = at2_done = false;
    b->nchoice = 0;
    b->granules = b->syncs = b->switches = 0;
    b->full = b->race = b->deadlock = b->finished = b->choices_full = 0;
    main_word = 0;
    pthread_t th[kThreads];
    pthread_attr_t at;
    pthread_attr_init(&at);
    pthread_attr_setstacksize(&at, 1 << 20);
    for (int i = 0; i < N; ++i) {
        starts[i] = { i, body, ctx };
        if (pthread_create(&th[i], &at, thread_main, &starts[i])) {
            b->deadlock = 2;
            _exit(0);
        }
    }
    pthread_attr_destroy(&at);
    g_on = true;
    cur = b->order[0];
    if (b->mode == Explore && N > 1) cur = b->order[decide(N)];
    fwake(&turn[cur]);
    fwait(&main_word);
    g_on = false;
    b->granules = ntouched;
    b->finished = 1;
    for (int i = 0; i < N; ++i) fwake(&park[i]);
    for (int i = 0; i < N; ++i) pthread_join(th[i], 0);
}
} // namespace race

#define PC u64(__builtin_return_address(0))
#define A(p, n, k) access_at(u64(p), n, k, PC)

extern "C" {
void __tsan_init() {}
void __tsan_func_entry(void*) {}
void __tsan_func_exit() {}
#define RW(n)                                                      \
    void __tsan_read##n(void* p) { A(p, n, 0); }                   \
    void __tsan_write##n(void* p) { A(p, n, 1); }                  \
    void __tsan_read_write##n(void* p) { A(p, n, 1); }             \
    void __tsan_unaligned_read##n(void* p) { A(p, n, 0); }         \
    void __tsan_unaligned_write##n(void* p) { A(p, n, 1); }        \
    void __tsan_unaligned_read_write##n(void* p) { A(p, n, 1); }   \
    void __tsan_volatile_read##n(void* p) { A(p, n, 0); }          \
    void __tsan_volatile_write##n(void* p) { A(p, n, 1); }         \
    void __tsan_unaligned_volatile_read##n(void* p) { A(p, n, 0); } \
    void __tsan_unaligned_volatile_write##n(void* p) { A(p, n, 1); }
RW(1) RW(2) RW(4) RW(8) RW(16)
void __tsan_read_range(void* p, size_t n) { A(p, n, 0); }
void __tsan_write_range(void* p, size_t n) { A(p, n, 1); }
void __tsan_vptr_update(void** p, void* v)
{
    A(p, 8, *p == v ? 0 : 1);
}
void __tsan_vptr_read(void** p) { A(p, 8, 0); }

#define ATOMIC(bits, T)                                                                      \
    T __tsan_atomic##bits##_load(const volatile T* a, int mo)                                \
    {                                                                                        \
        bool on = sync_begin(u64(a), 0, PC);                                                 \
        T r = __atomic_load_n(a, __ATOMIC_SEQ_CST);                                          \
        if (on) {                                                                            \
            if (acq(mo)) acquire(u64(a));                                                    \
            sync_end();                                                                      \
        }                                                                                    \
        return r;                                                                            \
    }                                                                                        \
    void __tsan_atomic##bits##_store(volatile T* a, T v, int mo)                             \
    {                                                                                        \
        bool on = sync_begin(u64(a), 1, PC);                                                 \
        __atomic_store_n(a, v, __ATOMIC_SEQ_CST);                                            \
        if (on) {                                                                            \
            if (rel(mo)) release(u64(a), true);                                              \
            sync_end();                                                                      \
        }                                                                                    \
    }                                                                                        \
    bool __tsan_atomic##bits##_compare_exchange_strong(volatile T* a, T* c, T v, int mo, int) \
    {                                                                                        \
        bool on = sync_begin(u64(a), 1, PC);                                                 \
        bool r = __atomic_compare_exchange_n(a, c, v, false, __ATOMIC_SEQ_CST, __ATOMIC_SEQ_CST); \
        if (on) {                                                                            \
            if (acq(mo)) acquire(u64(a));                                                    \
            if (r && rel(mo)) release(u64(a), false);                                        \
            sync_end();                                                                      \
        }                                                                                    \
        return r;                                                                            \
    }                                                                                        \
    bool __tsan_atomic##bits##_compare_exchange_weak(volatile T* a, T* c, T v, int mo, int f) \
    {                                                                                        \
        return __tsan_atomic##bits##_compare_exchange_strong(a, c, v, mo, f);                \
    }                                                                                        \
    T __tsan_atomic##bits##_compare_exchange_val(volatile T* a, T c, T v, int mo, int f)     \
    {                                                                                        \
        __tsan_atomic##bits##_compare_exchange_strong(a, &c, v, mo, f);                      \
        return c;                                                                            \
    }
#define RMW(bits, T, name, builtin)                            \
    T __tsan_atomic##bits##_##name(volatile T* a, T v, int mo) \
    {                                                          \
        bool on = sync_begin(u64(a), 1, PC);                   \
        T r = builtin(a, v, __ATOMIC_SEQ_CST);                 \
        if (on) {                                              \
            if (acq(mo)) acquire(u64(a));                      \
            if (rel(mo)) release(u64(a), false);               \
            sync_end();                                        \
        }                                                      \
        return r;                                              \
    }
#define ALL(bits, T)                                     \
    ATOMIC(bits, T)                                      \
    RMW(bits, T, exchange, __atomic_exchange_n)          \
    RMW(bits, T, fetch_add, __atomic_fetch_add)          \
    RMW(bits, T, fetch_sub, __atomic_fetch_sub)          \
    RMW(bits, T, fetch_and, __atomic_fetch_and)          \
    RMW(bits, T, fetch_or, __atomic_fetch_or)            \
    RMW(bits, T, fetch_xor, __atomic_fetch_xor)          \
    RMW(bits, T, fetch_nand, __atomic_fetch_nand)
ALL(8, uint8_t) ALL(16, uint16_t) ALL(32, uint32_t) ALL(64, uint64_t)
char fence_word[8];
void __tsan_atomic_thread_fence(int)
{
    if (sync_begin(u64(fence_word), 1, PC)) {
        acquire(u64(fence_word));
        release(u64(fence_word), false);
        sync_end();
    }
}
void __tsan_atomic_signal_fence(int) {}

// ---- memory ----
static void fresh(void* p)
{
    if (!p || !active()) return;
    t_busy = true;
    u64 a = u64(p), n = malloc_usable_size(p);
    for (u64 k = a >> 3; k <= (a + n - 1) >> 3; ++k) {
        Gran* g = gran(k, true);
        if (!g) break;
        g->reads = g->writes = -1;
        g->owner = t_id;
    }
    t_busy = false;
}
static void gone(void* p, u64 pc)
{
    if (!p || !active()) return;
    access_at(u64(p), malloc_usable_size(p), 1 | 4, pc);
}
void* malloc(size_t n)
{
    void* p = __libc_malloc(n);
    fresh(p);
    return p;
}
void free(void* p)
{
    gone(p, PC);
    __libc_free(p);
}
void* calloc(size_t a, size_t b)
{
    void* p = __libc_calloc(a, b);
    fresh(p);
    return p;
}
void* realloc(void* q, size_t n)
{
    gone(q, PC);
    void* p = __libc_realloc(q, n);
    fresh(p);
    return p;
}
void* memalign(size_t a, size_t n)
{
    void* p = __libc_memalign(a, n);
    fresh(p);
    return p;
}
void* aligned_alloc(size_t a, size_t n) { return memalign(a, n); }
int posix_memalign(void** r, size_t a, size_t n)
{
    *r = memalign(a, n);
    return *r ? 0 : ENOMEM;
}
void* memcpy(void* d, const void* s, size_t n)
{
    if (g_on) {
        A(s, n, 0);
        A(d, n, 1);
    }
    void *dd = d, *r = d;
    asm volatile("rep movsb" : "+D"(dd), "+S"(s), "+c"(n) : : "memory");
    return r;
}
void* memmove(void* d, const void* s, size_t n)
{
    if (g_on) {
        A(s, n, 0);
        A(d, n, 1);
    }
    void *dd = d, *r = d;
    if (dd <= s || (char*)dd >= (const char*)s + n) asm volatile("rep movsb" : "+D"(dd), "+S"(s), "+c"(n) : : "memory");
    else {
        dd = (char*)dd + n - 1;
        s = (const char*)s + n - 1;
        asm volatile("std; rep movsb; cld" : "+D"(dd), "+S"(s), "+c"(n) : : "memory");
    }
    return r;
}
void* memset(void* d, int c, size_t n)
{
    if (g_on) A(d, n, 1);
    void *dd = d, *r = d;
    asm volatile("rep stosb" : "+D"(dd), "+c"(n) : "a"(c) : "memory");
    return r;
}
int memcmp(const void* a, const void* b, size_t n)
{
    if (g_on) {
        A(a, n, 0);
        A(b, n, 0);
    }
    const volatile unsigned char *x = (const unsigned char*)a, *y = (const unsigned char*)b;
    for (; n; --n, ++x, ++y)
        if (*x != *y) return *x < *y ? -1 : 1;
    return 0;
}
int bcmp(const void* a, const void* b, size_t n) { return memcmp(a, b, n); }
size_t strlen(const char* s)
{
    const volatile char* p = s;
    while (*p) ++p;
    size_t n = size_t(p - s);
    if (g_on) A(s, n + 1, 0);
    return n;
}
void* rt_memchr(const void* s, int c, size_t n) asm("memchr");
void* rt_memchr(const void* s, int c, size_t n)
{
    if (g_on) A(s, n, 0);
    const volatile unsigned char* p = (const unsigned char*)s;
    for (; n; --n, ++p)
        if (*p == (unsigned char)c) return (void*)p;
    return 0;
}
int strcmp(const char* a, const char* b)
{
    if (g_on) {
        A(a, strlen(a) + 1, 0);
        A(b, strlen(b) + 1, 0);
    }
    const volatile unsigned char *x = (const unsigned char*)a, *y = (const unsigned char*)b;
    while (*x && *x == *y) ++x, ++y;
    return int(*x) - int(*y);
}
int vsnprintf(char* s, size_t n, const char* f, va_list ap)
{
    static void* f_r;
    if (!f_r) f_r = dlsym(RTLD_NEXT, "vsnprintf");
    auto r = reinterpret_cast<int (*)(char*, size_t, const char*, va_list)>(f_r);
    if (g_on && s && n) A(s, n, 1);
    if (g_on) A(pseudo_locale, 1, 0);
    return r(s, n, f, ap);
}
int snprintf(char* s, size_t n, const char* f, ...)
{
    va_list ap;
    va_start(ap, f);
    int r = vsnprintf(s, n, f, ap);
    va_end(ap);
    return r;
}
int vsprintf(char* s, const char* f, va_list ap)
{
    int r = 0;
    static void* f_q;
    if (!f_q) f_q = dlsym(RTLD_NEXT, "vsprintf");
    auto q = reinterpret_cast<int (*)(char*, const char*, va_list)>(f_q);
    if (g_on) A(pseudo_locale, 1, 0);
    r = q(s, f, ap);
    if (g_on && r >= 0) A(s, size_t(r) + 1, 1);
    return r;
}
int sprintf(char* s, const char* f, ...)
{
    va_list ap;
    va_start(ap, f);
    int r = vsprintf(s, f, ap);
    va_end(ap);
    return r;
}
#define STRTO(T, name)                                           \
    T name(const char* s, char** e)                              \
    {                                                            \
        static void* f;                                          \
        if (!f) f = dlsym(RTLD_NEXT, #name);                     \
        if (g_on) A(pseudo_locale, 1, 0);                        \
        return reinterpret_cast<T (*)(const char*, char**)>(f)(s, e); \
    }
STRTO(double, strtod) STRTO(float, strtof) STRTO(long double, strtold)
char* setlocale(int c, const char* l)
{
    static void* f_r;
    if (!f_r) f_r = dlsym(RTLD_NEXT, "setlocale");
    auto r = reinterpret_cast<char* (*)(int, const char*)>(f_r);
    if (g_on) A(pseudo_locale, 1, l ? 1 : 0);
    return r(c, l);
}
struct lconv* localeconv()
{
    static void* f_r;
    if (!f_r) f_r = dlsym(RTLD_NEXT, "localeconv");
    auto r = reinterpret_cast<struct lconv* (*)()>(f_r);
    if (g_on) A(pseudo_locale, 1, 0);
    return r();
}
char* strtok(char* s, const char* d)
{
    static void* f_r;
    if (!f_r) f_r = dlsym(RTLD_NEXT, "strtok");
    auto r = reinterpret_cast<char* (*)(char*, const char*)>(f_r);
    if (g_on) A(pseudo_tok, 1, 1);
    return r(s, d);
}
struct tm* localtime(const time_t* t)
{
    static void* f_r;
    if (!f_r) f_r = dlsym(RTLD_NEXT, "localtime");
    auto r = reinterpret_cast<struct tm* (*)(const time_t*)>(f_r);
    if (g_on) A(pseudo_time, 1, 1);
    return r(t);
}
struct tm* gmtime(const time_t* t)
{
    static void* f_r;
    if (!f_r) f_r = dlsym(RTLD_NEXT, "gmtime");
    auto r = reinterpret_cast<struct tm* (*)(const time_t*)>(f_r);
    if (g_on) A(pseudo_time, 1, 1);
    return r(t);
}
char* getenv(const char* n)
{
    static void* f_r;
    if (!f_r) f_r = dlsym(RTLD_NEXT, "getenv");
    auto r = reinterpret_cast<char* (*)(const char*)>(f_r);
    if (g_on) A(pseudo_env, 1, 0);
    return r(n);
}
int setenv(const char* n, const char* v, int o)
{
    static void* f_r;
    if (!f_r) f_r = dlsym(RTLD_NEXT, "setenv");
    auto r = reinterpret_cast<int (*)(const char*, const char*, int)>(f_r);
    if (g_on) A(pseudo_env, 1, 1);
    return r(n, v, o);
}
char* strerror(int e)
{
    static void* f_r;
    if (!f_r) f_r = dlsym(RTLD_NEXT, "strerror");
    auto r = reinterpret_cast<char* (*)(int)>(f_r);
    if (g_on) A(pseudo_err, 1, 1);
    return r(e);
}

// ---- once-only initialisation ----
int rt_guard_acquire(u64* g) asm("__cxa_guard_acquire");
int rt_guard_acquire(u64* g)
{
    unsigned char* b = reinterpret_cast<unsigned char*>(g);
    if (!active() || outside(PC)) {
        if (b[0]) return 0;
        b[1] = 1;
        return 1;
    }
    for (;;) {
        sync_begin(u64(g), 1, PC);
        if (b[0]) {
            acquire(u64(g));
            sync_end();
            return 0;
        }
        if (!b[1]) {
            b[1] = 1;
            acquire(u64(g));
            sync_end();
            return 1;
        }
        wait_for(u64(g));
        sync_end();
    }
}
void rt_guard_release(u64* g) asm("__cxa_guard_release");
void rt_guard_release(u64* g)
{
    unsigned char* b = reinterpret_cast<unsigned char*>(g);
    bool on = sync_begin(u64(g), 1, PC);
    b[1] = 0;
    b[0] = 1;
    if (on) {
        release(u64(g), false);
        wake_all(u64(g));
        sync_end();
    }
}
void rt_guard_abort(u64* g) asm("__cxa_guard_abort");
void rt_guard_abort(u64* g)
{
    unsigned char* b = reinterpret_cast<unsigned char*>(g);
    bool on = sync_begin(u64(g), 1, PC);
    b[1] = 0;
    if (on) {
        release(u64(g), false);
        wake_all(u64(g));
        sync_end();
    }
}
int pthread_once(pthread_once_t* o, void (*f)())
{
    if (!active() || outside(PC)) {
        if (*o == 2) return 0;
        *o = 1;
        f();
        *o = 2;
        return 0;
    }
    for (;;) {
        sync_begin(u64(o), 1, PC);
        if (*o == 2) {
            acquire(u64(o));
            sync_end();
            return 0;
        }
        if (*o == 0) {
            *o = 1;
            acquire(u64(o));
            sync_end();
            break;
        }
        wait_for(u64(o));
        sync_end();
    }
    try {
        f();
    }
    catch (...) {
        sync_begin(u64(o), 1, PC);
        *o = 0;
        release(u64(o), false);
        wake_all(u64(o));
        sync_end();
        throw;
    }
    sync_begin(u64(o), 1, PC);
    *o = 2;
    release(u64(o), false);
    wake_all(u64(o));
    sync_end();
    return 0;
}

// ---- locks: only one thread runs at a time, so plain fields do ----
static int lock(pthread_mutex_t* m, bool wait, u64 pc)
{
    const bool rec = m->__data.__kind == PTHREAD_MUTEX_RECURSIVE;
    const int me = t_id + 2;
    for (;;) {
        bool on = sync_begin(u64(m), 1, pc);
        if (m->__data.__lock == 0 || (rec && m->__data.__owner == me)) {
            m->__data.__lock++;
            m->__data.__owner = me;
            if (on) {
                acquire(u64(m));
                sync_end();
            }
            return 0;
        }
        if (!wait) {
            if (on) sync_end();
            return EBUSY;
        }
        if (!on) return EDEADLK;
        wait_for(u64(m));
        sync_end();
    }
}
int pthread_mutex_lock(pthread_mutex_t* m) { return lock(m, true, PC); }
int pthread_mutex_trylock(pthread_mutex_t* m) { return lock(m, false, PC); }
int pthread_mutex_unlock(pthread_mutex_t* m)
{
    bool on = sync_begin(u64(m), 1, PC);
    if (--m->__data.__lock == 0) m->__data.__owner = 0;
    if (on) {
        release(u64(m), false);
        wake_all(u64(m));
        sync_end();
    }
    return 0;
}
static int rwlock(pthread_rwlock_t* l, bool write, bool wait, u64 pc)
{
    int* n = reinterpret_cast<int*>(l); // readers, or -1
    for (;;) {
        bool on = sync_begin(u64(l), 1, pc);
        if (*n == 0 || (!write && *n > 0)) {
            *n = write ? -1 : *n + 1;
            if (on) {
                acquire(u64(l));
                sync_end();
            }
            return 0;
        }
        if (!wait) {
            if (on) sync_end();
            return EBUSY;
        }
        if (!on) return EDEADLK;
        wait_for(u64(l));
        sync_end();
    }
}
int pthread_rwlock_rdlock(pthread_rwlock_t* l) { return rwlock(l, false, true, PC); }
int pthread_rwlock_wrlock(pthread_rwlock_t* l) { return rwlock(l, true, true, PC); }
int pthread_rwlock_tryrdlock(pthread_rwlock_t* l) { return rwlock(l, false, false, PC); }
int pthread_rwlock_trywrlock(pthread_rwlock_t* l) { return rwlock(l, true, false, PC); }
int pthread_rwlock_unlock(pthread_rwlock_t* l)
{
    int* n = reinterpret_cast<int*>(l);
    bool on = sync_begin(u64(l), 1, PC);
    *n = *n < 0 ? 0 : *n - 1;
    if (on) {
        release(u64(l), false);
        wake_all(u64(l));
        sync_end();
    }
    return 0;
}
int sched_yield()
{
    if (active()) {
        t_busy = true;
        yield_now();
        t_busy = false;
    }
    return 0;
}
} // extern "C"

// The parts of the standard library that are in the shared object: their accesses are declared here.
namespace std
{
struct _Rb_tree_node_base
{
    int color;
    _Rb_tree_node_base *parent, *left, *right;
};
} // namespace std
typedef std::_Rb_tree_node_base Nd;
static Nd* rd(Nd* const* p, u64 pc)
{
    access_at(u64(p), 8, 0, pc);
    return *p;
}
static Nd* inc(Nd* x, u64 pc)
{
    if (rd(&x->right, pc)) {
        x = x->right;
        while (rd(&x->left, pc)) x = x->left;
        return x;
    }
    Nd* y = rd(&x->parent, pc);
    while (x == rd(&y->right, pc)) {
        x = y;
        y = rd(&y->parent, pc);
    }
    if (rd(&x->right, pc) != y) x = y;
    return x;
}
static int rdc(int* p, u64 pc)
{
    access_at(u64(p), 4, 0, pc);
    return *p;
}
static Nd* dec(Nd* x, u64 pc)
{
    if (rdc(&x->color, pc) == 0 && rd(&rd(&x->parent, pc)->parent, pc) == x) return rd(&x->right, pc);
    if (rd(&x->left, pc)) {
        Nd* y = x->left;
        while (rd(&y->right, pc)) y = y->right;
        return y;
    }
    Nd* y = rd(&x->parent, pc);
    while (x == rd(&y->left, pc)) {
        x = y;
        y = rd(&y->parent, pc);
    }
    return y;
}
namespace std
{
__attribute__((visibility("default"))) Nd* _Rb_tree_increment(Nd* x) { return inc(x, PC); }
__attribute__((visibility("default"))) const Nd* _Rb_tree_increment(const Nd* x) { return inc(const_cast<Nd*>(x), PC); }
__attribute__((visibility("default"))) Nd* _Rb_tree_decrement(Nd* x) { return dec(x, PC); }
__attribute__((visibility("default"))) const Nd* _Rb_tree_decrement(const Nd* x) { return dec(const_cast<Nd*>(x), PC); }
// rebalancing may write any node between the leaf and the root: the whole path and the header are declared
__attribute__((visibility("default"))) void _Rb_tree_insert_and_rebalance(bool l, Nd* x, Nd* p, Nd& h)
{
    static void* f_r;
    if (!f_r) f_r = dlsym(RTLD_NEXT, "_ZSt29_Rb_tree_insert_and_rebalancebPSt18_Rb_tree_node_baseS0_RS_");
    auto r = reinterpret_cast<void (*)(bool, Nd*, Nd*, Nd&)>(f_r);
    if (g_on) {
        u64 pc = PC;
        access_at(u64(x), 32, 1, pc);
        access_at(u64(&h), 32, 1, pc);
        if (p != &h)
            for (Nd* q = p; q != &h; q = q->parent) access_at(u64(q), 32, 1, pc);
    }
    r(l, x, p, h);
}
__attribute__((visibility("default"))) Nd* _Rb_tree_rebalance_for_erase(Nd* x, Nd& h)
{
    static void* f_r;
    if (!f_r) f_r = dlsym(RTLD_NEXT, "_ZSt28_Rb_tree_rebalance_for_erasePSt18_Rb_tree_node_baseRS_");
    auto r = reinterpret_cast<Nd* (*)(Nd*, Nd&)>(f_r);
    if (g_on) {
        u64 pc = PC;
        access_at(u64(&h), 32, 1, pc);
        for (Nd* q = x; q != &h; q = q->parent) access_at(u64(q), 32, 1, pc);
        if (x->left) access_at(u64(x->left), 32, 1, pc);
        if (x->right) access_at(u64(x->right), 32, 1, pc);
    }
    return r(x, h);
}
} // namespace std
// floating point: reads and writes the text given
struct TCR
{
    char* ptr;
    int ec;
};
#define TOCHARS(sym, name, args, vals, types)                              \
    TCR name args asm(sym);                                               \
    TCR name args                                                         \
    {                                                                     \
        static void* f;                                                   \
        if (!f) f = dlsym(RTLD_NEXT, sym);                                \
        TCR r = reinterpret_cast<TCR (*) types>(f) vals;                  \
        if (g_on) A(b, u64(r.ptr) - u64(b), 1);                           \
        return r;                                                         \
    }
#define TOALL(T, c)                                                                                                                        \
    TOCHARS("_ZSt8to_charsPcS_" c, tc1_##T, (char* b, char* e, CT_##T x), (b, e, x), (char*, char*, CT_##T))                                \
    TOCHARS("_ZSt8to_charsPcS_" c "St12chars_format", tc2_##T, (char* b, char* e, CT_##T x, int f2), (b, e, x, f2), (char*, char*, CT_##T, int)) \
    TOCHARS("_ZSt8to_charsPcS_" c "St12chars_formati", tc3_##T, (char* b, char* e, CT_##T x, int f2, int p), (b, e, x, f2, p), (char*, char*, CT_##T, int, int)) \
    TCR fc_##T(const char* b, const char* e, CT_##T* x, int f2) asm("_ZSt10from_charsPKcS0_R" c "St12chars_format");                       \
    TCR fc_##T(const char* b, const char* e, CT_##T* x, int f2)                                                                            \
    {                                                                                                                                      \
        static void* f;                                                                                                                    \
        if (!f) f = dlsym(RTLD_NEXT, "_ZSt10from_charsPKcS0_R" c "St12chars_format");                                                      \
        if (g_on) {                                                                                                                        \
            A(b, u64(e) - u64(b), 0);                                                                                                      \
            A(x, sizeof *x, 1);                                                                                                            \
        }                                                                                                                                  \
        return reinterpret_cast<TCR (*)(const char*, const char*, CT_##T*, int)>(f)(b, e, x, f2);                                          \
    }
typedef float CT_f;
typedef double CT_d;
typedef long double CT_e;
TOALL(f, "f") TOALL(d, "d") TOALL(e, "e")
