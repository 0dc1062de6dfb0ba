// See sched.hpp. Compiled without instrumentation; provides the __tsan_* entry points, the pthread functions, the
// guards of function-local statics, malloc (to forget recycled memory) and the futex hooks of libstdc++.
#include "sched.hpp"

#include <dlfcn.h>
#include <errno.h>
#include <linux/futex.h>
#include <pthread.h>
#include <semaphore.h>
#include <stdarg.h>
#include <stdint.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/mman.h>
#include <sys/syscall.h>
#include <time.h>
#include <unistd.h>

#define EXPORT extern "C" __attribute__((visibility("default")))

extern "C" void* __libc_malloc(size_t);
extern "C" void  __libc_free(void*);
extern "C" void* __libc_calloc(size_t, size_t);
extern "C" void* __libc_realloc(void*, size_t);
extern "C" void* __libc_memalign(size_t, size_t);

#pragma GCC optimize("no-tree-loop-distribute-patterns")
namespace
{
// the runtime must not use the memcpy/memset it provides to the program
inline void zero(volatile void* d, size_t n)
{
    __asm__ volatile("rep stosb" : "+D"(d), "+c"(n) : "a"(0) : "memory");
}
inline void copy(void* d, const void* s, size_t n)
{
    __asm__ volatile("rep movsb" : "+D"(d), "+S"(s), "+c"(n) : : "memory");
}
constexpr int    MAXT = 64;
constexpr size_t STACK = 1 << 20;

struct vclock
{
    uint32_t c[MAXT];
    void     join(const vclock& o)
    {
        for (int i = 0; i < MAXT; ++i)
            if (o.c[i] > c[i]) c[i] = o.c[i];
    }
};
enum wait_kind
{
    W_NONE,
    W_JOIN,
    W_MUTEX,
    W_RD,
    W_WR,
    W_COND,
    W_FUTEX,
    W_GUARD,
    W_ONCE,
    W_IDLE
};
struct thread_rec
{
    int        id;
    bool       finished, joined, detached;
    pthread_t  real;
    sem_t      sem;
    vclock     vc;
    wait_kind  wait;
    void*      obj;
    uint32_t   val;
    bool       timed, signaled;
    void* (*fn)(void*);
    void*      arg;
    int        ignore;
};
thread_rec  threads[MAXT];
int         nthreads = 0, current = 0, budget = 0, live = 0;
bool        active = false;
bool        atomic_points = true;
int (*choose_fn)(void*, int) = nullptr;
void*       choose_ctx       = nullptr;
long        points = 0, accesses = 0, streak = 0;
char*       stacks = nullptr;

thread_local thread_rec* me __attribute__((tls_model("initial-exec"))) = nullptr;

// ---- sync objects and shadow memory: open-addressing tables in mmapped memory
struct sync_obj
{
    uintptr_t key;
    vclock    vc;
    int       owner;    // mutex / rwlock writer: thread id + 1
    int       depth, readers;
    int       state;    // guard/once: 1 in progress, 2 done
    uint32_t  gen;
};
constexpr size_t NSYNC = 1 << 14;
sync_obj*        syncs = nullptr;
uint32_t         generation = 0;
size_t           nsync = 0;

struct cell
{
    uint8_t  tid, mask, kind;  // kind: 0 free, 1 read, 2 write, 3 atomic read, 4 atomic write
    uint32_t clk;
    uintptr_t pc;
};
constexpr int NCELL = 10;
struct granule
{
    uintptr_t key;
    uint32_t  gen;
    cell      c[NCELL];
    uint8_t   next;
};
size_t   NSHADOW = 1 << 17;
granule* shadow  = nullptr;
size_t   nshadow = 0;

struct race_rec
{
    uintptr_t pc1, pc2;
    uint8_t   k1, k2;
    char      text[1200];
    bool      done;
};
race_rec races[32];
int      nraces = 0;

void die(const char* m)
{
    fprintf(stderr, "SCHED: %s\n", m);
    fflush(stderr);
    _exit(79);
}
void* grab(size_t n)
{
    void* p = mmap(nullptr, n, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
    if (p == MAP_FAILED) die("no memory");
    return p;
}
sync_obj& sync_of(const void* a)
{
    const auto k = reinterpret_cast<uintptr_t>(a);
    size_t     i = (k * 0x9e3779b97f4a7c15ull) >> 50;
    for (;; i = (i + 1) & (NSYNC - 1))
    {
        if (syncs[i].gen != generation)
        {
            if (++nsync > NSYNC / 2) die("too many synchronisation objects");
            zero(&syncs[i], sizeof(sync_obj));
            syncs[i].gen = generation;
            syncs[i].key = k;
            return syncs[i];
        }
        if (syncs[i].key == k) return syncs[i];
    }
}
granule* find_granule(uintptr_t k, bool create)
{
    size_t i = (k * 0x9e3779b97f4a7c15ull) >> 20 & (NSHADOW - 1);
    for (;; i = (i + 1) & (NSHADOW - 1))
    {
        if (shadow[i].gen != generation)
        {
            if (!create) return nullptr;
            if (++nshadow > NSHADOW / 2)
            {
                // grow
                granule*     old = shadow;
                const size_t on  = NSHADOW;
                NSHADOW *= 4;
                if (NSHADOW > (size_t{1} << 26)) die("too much shared memory");
                shadow = static_cast<granule*>(grab(NSHADOW * sizeof(granule)));
                nshadow = 0;
                for (size_t j = 0; j < on; ++j)
                    if (old[j].gen == generation)
                    {
                        granule*        g  = find_granule(old[j].key, true);
                        const uintptr_t kk = g->key;
                        copy(g, &old[j], sizeof(granule));
                        g->key             = kk;
                    }
                munmap(old, on * sizeof(granule));
                return find_granule(k, true);
            }
            zero(&shadow[i], sizeof(granule));
            shadow[i].gen = generation;
            shadow[i].key = k;
            return &shadow[i];
        }
        if (shadow[i].key == k) return &shadow[i];
    }
}
void report_race(uintptr_t a, const cell& o, const cell& n)
{
    for (int i = 0; i < nraces; ++i)
        if ((races[i].pc1 == o.pc && races[i].pc2 == n.pc) || (races[i].pc1 == n.pc && races[i].pc2 == o.pc)) return;
    if (nraces == 32) return;
    race_rec& r = races[nraces++];
    r.pc1       = o.pc;
    r.pc2       = n.pc;
    r.k1        = o.kind;
    r.k2        = n.kind;
    r.done      = false;
    (void)a;
}
inline void access(const void* p, size_t size, uint8_t kind, uintptr_t pc)
{
    if (!active) return;
    thread_rec* t = me;
    if (t == nullptr || t->ignore) return;
    ++accesses;
    uintptr_t a = reinterpret_cast<uintptr_t>(p);
    while (size)
    {
        const uintptr_t g   = a >> 3;
        const size_t    off = a & 7, n = size < 8 - off ? size : 8 - off;
        const uint8_t   mask = static_cast<uint8_t>(((1u << n) - 1) << off);
        granule*        s    = find_granule(g, true);
        cell            now{static_cast<uint8_t>(t->id), mask, kind, t->vc.c[t->id], pc};
        int             place = -1;
        for (int i = 0; i < NCELL; ++i)
        {
            cell& c = s->c[i];
            if (!c.kind)
            {
                if (place < 0) place = i;
                continue;
            }
            if (c.tid == now.tid)
            {
                if (c.kind == kind && (c.mask & ~mask) == 0) place = i;
                continue;
            }
            if ((c.mask & mask) == 0) continue;
            const bool w = (c.kind == 2 || c.kind == 4) || (kind == 2 || kind == 4);
            const bool at = c.kind >= 3 && kind >= 3;
            if (w && !at && c.clk > t->vc.c[c.tid]) report_race(a, c, now);
        }
        if (place < 0) place = s->next++ % NCELL;
        s->c[place] = now;
        a += n;
        size -= n;
    }
}
void forget(const void* p, size_t size)
{
    if (!active || me == nullptr) return;
    const uintptr_t a = reinterpret_cast<uintptr_t>(p) >> 3, e = (reinterpret_cast<uintptr_t>(p) + size + 7) >> 3;
    if (e - a > (1u << 16))
    {
        for (size_t i = 0; i < NSHADOW; ++i)
            if (shadow[i].gen == generation && shadow[i].key >= a && shadow[i].key < e)
            {
                zero(shadow[i].c, sizeof shadow[i].c);
            }
        return;
    }
    for (uintptr_t g = a; g < e; ++g)
        if (granule* s = find_granule(g, false)) zero(s->c, sizeof s->c);
}

// ---- scheduling
bool enabled(thread_rec& t)
{
    if (t.finished) return false;
    switch (t.wait)
    {
        case W_NONE: return true;
        case W_JOIN: return static_cast<thread_rec*>(t.obj)->finished;
        case W_MUTEX: { auto& s = sync_of(t.obj); return s.owner == 0 && s.readers == 0; }
        case W_WR: { auto& s = sync_of(t.obj); return s.owner == 0 && s.readers == 0; }
        case W_RD: return sync_of(t.obj).owner == 0;
        case W_COND: return t.signaled;
        case W_FUTEX: return *static_cast<volatile uint32_t*>(t.obj) != t.val || t.signaled;
        case W_GUARD: return sync_of(t.obj).state != 1;
        case W_ONCE: return sync_of(t.obj).state != 1;
        case W_IDLE:
            for (int i = 0; i < nthreads; ++i)
                if (i != t.id && !threads[i].finished) return false;
            return true;
    }
    return false;
}
int ask(int n)
{
    if (n <= 1) return 0;
    thread_rec* t = me;
    if (t) ++t->ignore;
    const int r = choose_fn(choose_ctx, n);
    if (t) --t->ignore;
    return r;
}
void hand_over(int to)
{
    thread_rec* t = me;
    if (to == t->id) return;
    current = to;
    sem_post(&threads[to].sem);
    if (t->finished) return;
    while (sem_wait(&t->sem) != 0) {}
}
// called by the running thread; `free_switch`: it gives up the processor on its own
void schedule(bool must_switch = false)
{
    thread_rec* t = me;
    ++points;
    int  en[MAXT], n = 0;
    bool self = enabled(*t) && t->wait != W_IDLE;
    bool timeout_pending = false;
    if (self) en[n++] = t->id;
    for (int i = 0; i < nthreads; ++i)
        if (i != t->id && enabled(threads[i])) en[n++] = i;
    if (n == 0)
    {
        // only timed waits can go on
        for (int i = 0; i < nthreads; ++i)
            if (!threads[i].finished && threads[i].timed && threads[i].wait != W_NONE) { en[n++] = i; timeout_pending = true; }
        if (n == 0)
        {
            if (enabled(*t)) return;
            die("deadlock: no thread can go on");
        }
    }
    (void)timeout_pending;
    int pick = 0;
    if (self && !must_switch)
    {
        if (n > 1 && budget > 0)
        {
            pick = ask(n);
            if (pick != 0) --budget;
        }
        if (pick == 0 && n > 1 && ++streak > 20000) pick = 1;  // fairness
    }
    else if (self && must_switch)
    {
        if (n > 1) pick = 1 + ask(n - 1);
    }
    else
    {
        pick = ask(n);
    }
    if (pick != 0) streak = 0;
    hand_over(en[pick]);
}
void block(wait_kind k, void* obj, bool timed = false, uint32_t val = 0)
{
    thread_rec* t = me;
    t->wait       = k;
    t->obj        = obj;
    t->timed      = timed;
    t->val        = val;
    while (true)
    {
        if (enabled(*t)) break;
        schedule();
        if (t->timed) break;
    }
    t->wait  = W_NONE;
    t->timed = false;
}
inline bool on() { return active && me != nullptr && me->ignore == 0; }
inline void acquire(sync_obj& s) { me->vc.join(s.vc); }
inline void release(sync_obj& s)
{
    s.vc.join(me->vc);
    ++me->vc.c[me->id];
}

template <class F>
F real(const char* n, F* slot)
{
    if (!*slot)
    {
        *slot = reinterpret_cast<F>(dlsym(RTLD_NEXT, n));
        if (!*slot) die(n);
    }
    return *slot;
}
#define REAL(name) real(#name, &real_##name)
#define DECL(name) decltype(&name) real_##name = nullptr
DECL(pthread_create);
DECL(pthread_join);
DECL(pthread_detach);
DECL(pthread_mutex_lock);
DECL(pthread_mutex_trylock);
DECL(pthread_mutex_unlock);
DECL(pthread_rwlock_rdlock);
DECL(pthread_rwlock_wrlock);
DECL(pthread_rwlock_tryrdlock);
DECL(pthread_rwlock_trywrlock);
DECL(pthread_rwlock_unlock);
DECL(pthread_cond_wait);
DECL(pthread_cond_timedwait);
DECL(pthread_cond_clockwait);
DECL(pthread_cond_signal);
DECL(pthread_cond_broadcast);
DECL(pthread_once);
DECL(nanosleep);
DECL(clock_nanosleep);
DECL(sched_yield);

void* trampoline(void* p)
{
    auto* t = static_cast<thread_rec*>(p);
    while (sem_wait(&t->sem) != 0) {}
    me      = t;
    void* r = t->fn(t->arg);
    t->finished = true;
    --live;
    ++points;
    // someone else must go on
    int en[MAXT], n = 0;
    for (int i = 0; i < nthreads; ++i)
        if (!threads[i].finished && enabled(threads[i])) en[n++] = i;
    if (n == 0)
        for (int i = 0; i < nthreads; ++i)
            if (!threads[i].finished && threads[i].timed && threads[i].wait != W_NONE) en[n++] = i;
    if (n == 0) die("deadlock: no thread can go on after one ended");
    const int pick = ask(n);
    me      = nullptr;  // destructors of thread-local objects run unobserved, beside the others
    current = en[pick];
    sem_post(&threads[en[pick]].sem);
    return r;
}
const char* kind_name(uint8_t k)
{
    return k == 1 ? "read" : k == 2 ? "write" : k == 3 ? "atomic read" : "atomic write";
}
void symbol(uintptr_t pc, char* out, size_t n)
{
    char exe[512];
    const ssize_t l = readlink("/proc/self/exe", exe, sizeof exe - 1);
    exe[l > 0 ? l : 0] = 0;
    Dl_info info{};
    uintptr_t off = pc;
    if (dladdr(reinterpret_cast<void*>(pc), &info) && info.dli_fbase) off = pc - reinterpret_cast<uintptr_t>(info.dli_fbase);
    char cmd[900];
    snprintf(cmd, sizeof cmd, "addr2line -C -f -s -i -e %s 0x%lx 2>/dev/null | head -8 | paste -sd' '", info.dli_fname && strchr(info.dli_fname, '/') ? info.dli_fname : exe, static_cast<unsigned long>(off - 1));
    FILE* f = popen(cmd, "r");
    out[0]  = 0;
    if (f)
    {
        if (!fgets(out, static_cast<int>(n), f)) out[0] = 0;
        pclose(f);
    }
    if (char* e = strchr(out, '\n')) *e = 0;
}
}  // namespace

// ------------------------------------------------------------------ control
EXPORT void vs_begin(int preemptions, int (*choose)(void*, int), void* ctx)
{
    if (!syncs)
    {
        syncs  = static_cast<sync_obj*>(grab(NSYNC * sizeof(sync_obj)));
        shadow = static_cast<granule*>(grab(NSHADOW * sizeof(granule)));
        stacks = static_cast<char*>(grab(STACK * MAXT));
    }
    ++generation;
    nsync = nshadow = 0;
    nthreads        = 1;
    live            = 0;
    current         = 0;
    budget          = preemptions;
    choose_fn       = choose;
    choose_ctx      = ctx;
    points = accesses = streak = 0;
    nraces = 0;
    zero(&threads[0], sizeof(thread_rec));
    sem_init(&threads[0].sem, 0, 0);
    threads[0].vc.c[0] = 1;
    me                 = &threads[0];
    active             = true;
}
EXPORT int vs_end()
{
    const int left = live;
    if (left)
    {
        me->wait = W_IDLE;
        budget   = 0;
        auto* f  = choose_fn;
        choose_fn = +[](void*, int) { return 0; };
        while (!enabled(*me)) schedule();
        choose_fn = f;
        me->wait  = W_NONE;
    }
    active = false;
    me     = nullptr;
    return left;
}
EXPORT int  vs_live() { return live; }
EXPORT int  vs_created() { return nthreads - 1; }
EXPORT void vs_yield() { if (on()) schedule(); }
EXPORT void vs_ignore(int d) { if (me) me->ignore += d; }
EXPORT int  vs_races() { return nraces; }
EXPORT long vs_points() { return points; }
EXPORT long vs_accesses() { return accesses; }
EXPORT int  vs_self() { return me ? me->id : -1; }
EXPORT void vs_atomic_points(int o) { atomic_points = o != 0; }
EXPORT const char* vs_race(int i)
{
    race_rec& r = races[i];
    if (!r.done)
    {
        char a[500], b[500];
        symbol(r.pc1, a, sizeof a);
        symbol(r.pc2, b, sizeof b);
        snprintf(r.text, sizeof r.text, "%s in %s / %s in %s", kind_name(r.k1), a, kind_name(r.k2), b);
        r.done = true;
    }
    return r.text;
}

// ------------------------------------------------------------------ threads
EXPORT int pthread_create(pthread_t* out, const pthread_attr_t* attr, void* (*fn)(void*), void* arg)
{
    if (!on()) return REAL(pthread_create)(out, attr, fn, arg);
    if (nthreads == MAXT) die("too many threads");
    thread_rec& t = threads[nthreads];
    zero(&t, sizeof t);
    t.id = nthreads;
    sem_init(&t.sem, 0, 0);
    t.fn  = fn;
    t.arg = arg;
    copy(&t.vc, &me->vc, sizeof(vclock));
    t.vc.c[t.id] = 1;
    ++me->vc.c[me->id];
    pthread_attr_t at;
    pthread_attr_init(&at);
    pthread_attr_setstack(&at, stacks + STACK * static_cast<size_t>(t.id), STACK);
    const int r = REAL(pthread_create)(&t.real, &at, trampoline, &t);
    pthread_attr_destroy(&at);
    if (r != 0) return r;
    ++nthreads;
    ++live;
    *out = t.real;
    schedule();
    return 0;
}
static thread_rec* rec_of(pthread_t p)
{
    for (int i = nthreads - 1; i > 0; --i)
        if (threads[i].real == p && !threads[i].joined) return &threads[i];
    return nullptr;
}
EXPORT int pthread_join(pthread_t p, void** ret)
{
    thread_rec* t = on() ? rec_of(p) : nullptr;
    if (!t) return REAL(pthread_join)(p, ret);
    schedule();
    block(W_JOIN, t);
    me->vc.join(t->vc);
    t->joined = true;
    return REAL(pthread_join)(p, ret);
}
EXPORT int pthread_detach(pthread_t p)
{
    if (on())
        if (thread_rec* t = rec_of(p)) t->detached = true;
    return REAL(pthread_detach)(p);
}
EXPORT int sched_yield()
{
    if (!on()) return REAL(sched_yield)();
    schedule(true);
    return 0;
}
EXPORT int nanosleep(const timespec* a, timespec* b)
{
    if (!on()) return REAL(nanosleep)(a, b);
    schedule(true);
    return 0;
}
EXPORT int clock_nanosleep(clockid_t c, int f, const timespec* a, timespec* b)
{
    if (!on()) return REAL(clock_nanosleep)(c, f, a, b);
    schedule(true);
    return 0;
}

// ------------------------------------------------------------------ mutexes
static int lock_now(sync_obj& s)
{
    s.owner = me->id + 1;
    s.depth = 1;
    acquire(s);
    return 0;
}
EXPORT int pthread_mutex_lock(pthread_mutex_t* m)
{
    if (!on()) return active ? 0 : REAL(pthread_mutex_lock)(m);
    schedule();
    sync_obj* s = &sync_of(m);
    if (s->owner == me->id + 1)
    {
        if ((m->__data.__kind & 3) == PTHREAD_MUTEX_RECURSIVE_NP) { ++s->depth; return 0; }
        die("deadlock: a thread locks a mutex it already holds");
    }
    block(W_MUTEX, m);
    return lock_now(sync_of(m));
}
EXPORT int pthread_mutex_trylock(pthread_mutex_t* m)
{
    if (!on()) return active ? 0 : REAL(pthread_mutex_trylock)(m);
    schedule();
    sync_obj& s = sync_of(m);
    if (s.owner == me->id + 1 && (m->__data.__kind & 3) == PTHREAD_MUTEX_RECURSIVE_NP) { ++s.depth; return 0; }
    if (s.owner) return EBUSY;
    return lock_now(s);
}
EXPORT int pthread_mutex_unlock(pthread_mutex_t* m)
{
    if (!on()) return active ? 0 : REAL(pthread_mutex_unlock)(m);
    sync_obj& s = sync_of(m);
    if (s.owner != me->id + 1) return 0;  // locked before the exploration started
    if (--s.depth > 0) return 0;
    s.owner = 0;
    release(s);
    schedule();
    return 0;
}
EXPORT int pthread_rwlock_rdlock(pthread_rwlock_t* m)
{
    if (!on()) return active ? 0 : REAL(pthread_rwlock_rdlock)(m);
    schedule();
    block(W_RD, m);
    sync_obj& s = sync_of(m);
    ++s.readers;
    acquire(s);
    return 0;
}
EXPORT int pthread_rwlock_tryrdlock(pthread_rwlock_t* m)
{
    if (!on()) return active ? 0 : REAL(pthread_rwlock_tryrdlock)(m);
    schedule();
    sync_obj& s = sync_of(m);
    if (s.owner) return EBUSY;
    ++s.readers;
    acquire(s);
    return 0;
}
EXPORT int pthread_rwlock_wrlock(pthread_rwlock_t* m)
{
    if (!on()) return active ? 0 : REAL(pthread_rwlock_wrlock)(m);
    schedule();
    block(W_WR, m);
    return lock_now(sync_of(m));
}
EXPORT int pthread_rwlock_trywrlock(pthread_rwlock_t* m)
{
    if (!on()) return active ? 0 : REAL(pthread_rwlock_trywrlock)(m);
    schedule();
    sync_obj& s = sync_of(m);
    if (s.owner || s.readers) return EBUSY;
    return lock_now(s);
}
EXPORT int pthread_rwlock_unlock(pthread_rwlock_t* m)
{
    if (!on()) return active ? 0 : REAL(pthread_rwlock_unlock)(m);
    sync_obj& s = sync_of(m);
    if (s.owner == me->id + 1) s.owner = 0;
    else if (s.readers > 0) --s.readers;
    release(s);  // readers too: conservative (a later writer is ordered after them)
    schedule();
    return 0;
}
// ------------------------------------------------------------------ condition variables
static int cond_wait(pthread_cond_t* c, pthread_mutex_t* m, bool timed)
{
    schedule();
    sync_obj& s = sync_of(m);
    s.owner     = 0;
    release(s);
    me->signaled = false;
    block(W_COND, c, timed);
    const bool sig = me->signaled;
    block(W_MUTEX, m);
    lock_now(sync_of(m));
    return sig ? 0 : ETIMEDOUT;
}
EXPORT int pthread_cond_wait(pthread_cond_t* c, pthread_mutex_t* m)
{
    if (!on()) return REAL(pthread_cond_wait)(c, m);
    return cond_wait(c, m, false);
}
EXPORT int pthread_cond_timedwait(pthread_cond_t* c, pthread_mutex_t* m, const timespec* t)
{
    if (!on()) return REAL(pthread_cond_timedwait)(c, m, t);
    return cond_wait(c, m, true);
}
EXPORT int pthread_cond_clockwait(pthread_cond_t* c, pthread_mutex_t* m, clockid_t k, const timespec* t)
{
    if (!on()) return REAL(pthread_cond_clockwait)(c, m, k, t);
    return cond_wait(c, m, true);
}
static void wake(pthread_cond_t* c, bool all)
{
    int w[MAXT], n = 0;
    for (int i = 0; i < nthreads; ++i)
        if (!threads[i].finished && threads[i].wait == W_COND && threads[i].obj == c && !threads[i].signaled) w[n++] = i;
    if (n == 0) return;
    if (all) for (int i = 0; i < n; ++i) threads[w[i]].signaled = true;
    else threads[w[ask(n)]].signaled = true;
}
EXPORT int pthread_cond_signal(pthread_cond_t* c)
{
    if (!on()) return active ? 0 : REAL(pthread_cond_signal)(c);
    schedule();
    wake(c, false);
    return 0;
}
EXPORT int pthread_cond_broadcast(pthread_cond_t* c)
{
    if (!on()) return active ? 0 : REAL(pthread_cond_broadcast)(c);
    schedule();
    wake(c, true);
    return 0;
}
// ------------------------------------------------------------------ once, guards
EXPORT int pthread_once(pthread_once_t* o, void (*f)())
{
    if (!on()) return REAL(pthread_once)(o, f);
    block(W_ONCE, o);
    if (*o == 2)
    {
        acquire(sync_of(o));
        return 0;
    }
    sync_of(o).state = 1;
    try { f(); }
    catch (...)
    {
        sync_of(o).state = 0;
        throw;
    }
    *o = 2;
    sync_of(o).state = 2;
    release(sync_of(o));
    return 0;
}
EXPORT int __cxa_guard_acquire(uint64_t* g)
{
    auto* b = reinterpret_cast<uint8_t*>(g);
    if (!active || me == nullptr)
    {
        if (b[0]) return 0;
        return 1;  // harness code runs its static initialisers in one thread
    }
    if (b[0])
    {
        acquire(sync_of(g));
        return 0;
    }
    if (sync_of(g).state == 1) block(W_GUARD, g);
    if (b[0])
    {
        acquire(sync_of(g));
        return 0;
    }
    sync_of(g).state = 1;
    return 1;
}
EXPORT void __cxa_guard_release(uint64_t* g)
{
    reinterpret_cast<uint8_t*>(g)[0] = 1;
    if (!active || me == nullptr) return;
    auto& s = sync_of(g);
    s.state = 2;
    release(s);
}
EXPORT void __cxa_guard_abort(uint64_t* g)
{
    if (active && me != nullptr) sync_of(g).state = 0;
}
// ------------------------------------------------------------------ futexes (futures, atomic waits)
static void futex_wait(uint32_t* a, uint32_t v, bool timed)
{
    schedule();
    me->signaled = false;
    if (*static_cast<volatile uint32_t*>(a) == v) block(W_FUTEX, a, timed, v);
    acquire(sync_of(a));
}
EXPORT long syscall(long n, ...)
{
    va_list ap;
    va_start(ap, n);
    long a[6];
    for (auto& x : a) x = va_arg(ap, long);
    va_end(ap);
    if (n == SYS_futex && on())
    {
        const int op = static_cast<int>(a[1]) & 127 & ~FUTEX_CLOCK_REALTIME;
        if (op == FUTEX_WAIT || op == FUTEX_WAIT_BITSET)
        {
            futex_wait(reinterpret_cast<uint32_t*>(a[0]), static_cast<uint32_t>(a[2]), a[3] != 0);
            return 0;
        }
        if (op == FUTEX_WAKE || op == FUTEX_WAKE_BITSET)
        {
            for (int i = 0; i < nthreads; ++i)
                if (threads[i].wait == W_FUTEX && threads[i].obj == reinterpret_cast<void*>(a[0])) threads[i].signaled = true;
            schedule();
            return 0;
        }
    }
    long r;
    register long r10 __asm__("r10") = a[3];
    register long r8 __asm__("r8")   = a[4];
    register long r9 __asm__("r9")   = a[5];
    __asm__ volatile("syscall" : "=a"(r) : "a"(n), "D"(a[0]), "S"(a[1]), "d"(a[2]), "r"(r10), "r"(r8), "r"(r9) : "rcx", "r11", "memory");
    if (r < 0 && r > -4096)
    {
        errno = static_cast<int>(-r);
        return -1;
    }
    return r;
}
// std::__atomic_futex_unsigned_base::_M_futex_wait_until(unsigned*, unsigned, bool, seconds, nanoseconds)
EXPORT bool _ZNSt28__atomic_futex_unsigned_base19_M_futex_wait_untilEPjjbNSt6chrono8durationIlSt5ratioILl1ELl1EEEENS2_IlS3_ILl1ELl1000000000EEEE(
    void*, uint32_t* a, uint32_t v, bool timed, long, long)
{
    if (on()) { futex_wait(a, v, timed); return !timed || *static_cast<volatile uint32_t*>(a) != v; }
    syscall(SYS_futex, a, FUTEX_WAIT, v, nullptr, nullptr, 0);
    return true;
}
EXPORT bool _ZNSt28__atomic_futex_unsigned_base26_M_futex_wait_until_steadyEPjjbNSt6chrono8durationIlSt5ratioILl1ELl1EEEENS2_IlS3_ILl1ELl1000000000EEEE(
    void*, uint32_t* a, uint32_t v, bool timed, long, long)
{
    if (on()) { futex_wait(a, v, timed); return !timed || *static_cast<volatile uint32_t*>(a) != v; }
    syscall(SYS_futex, a, FUTEX_WAIT, v, nullptr, nullptr, 0);
    return true;
}
EXPORT void _ZNSt28__atomic_futex_unsigned_base19_M_futex_notify_allEPj(uint32_t* a)
{
    syscall(SYS_futex, a, FUTEX_WAKE, 0x7fffffff, nullptr, nullptr, 0);
}
// ------------------------------------------------------------------ memory
EXPORT void* malloc(size_t n)
{
    void* p = __libc_malloc(n);
    if (active && me && p) forget(p, n);
    return p;
}
EXPORT void free(void* p) { __libc_free(p); }
EXPORT void* calloc(size_t a, size_t b)
{
    void* p = __libc_calloc(a, b);
    if (active && me && p) forget(p, a * b);
    return p;
}
EXPORT void* realloc(void* q, size_t n)
{
    void* p = __libc_realloc(q, n);
    if (active && me && p) forget(p, n);
    return p;
}
EXPORT int posix_memalign(void** o, size_t al, size_t n)
{
    *o = __libc_memalign(al, n);
    if (active && me && *o) forget(*o, n);
    return *o ? 0 : ENOMEM;
}
EXPORT void* aligned_alloc(size_t al, size_t n)
{
    void* p = __libc_memalign(al, n);
    if (active && me && p) forget(p, n);
    return p;
}
EXPORT void* memcpy(void* __restrict d, const void* __restrict s, size_t n)
{
    if (active && me && !me->ignore && n)
    {
        access(s, n, 1, reinterpret_cast<uintptr_t>(__builtin_return_address(0)));
        access(d, n, 2, reinterpret_cast<uintptr_t>(__builtin_return_address(0)));
    }
    void* r = d;
    __asm__ volatile("rep movsb" : "+D"(d), "+S"(s), "+c"(n) : : "memory");
    return r;
}
EXPORT void* memmove(void* d, const void* s, size_t n)
{
    if (active && me && !me->ignore && n)
    {
        access(s, n, 1, reinterpret_cast<uintptr_t>(__builtin_return_address(0)));
        access(d, n, 2, reinterpret_cast<uintptr_t>(__builtin_return_address(0)));
    }
    void* r = d;
    if (d <= s || static_cast<char*>(d) >= static_cast<const char*>(s) + n)
        __asm__ volatile("rep movsb" : "+D"(d), "+S"(s), "+c"(n) : : "memory");
    else
    {
        d = static_cast<char*>(d) + n - 1;
        s = static_cast<const char*>(s) + n - 1;
        __asm__ volatile("std\n rep movsb\n cld" : "+D"(d), "+S"(s), "+c"(n) : : "memory");
    }
    return r;
}
EXPORT void* memset(void* d, int v, size_t n)
{
    if (active && me && !me->ignore && n) access(d, n, 2, reinterpret_cast<uintptr_t>(__builtin_return_address(0)));
    void* r = d;
    __asm__ volatile("rep stosb" : "+D"(d), "+c"(n) : "a"(v) : "memory");
    return r;
}
// ------------------------------------------------------------------ instrumentation
#define PC reinterpret_cast<uintptr_t>(__builtin_return_address(0))
#define RW(N)                                                             \
    EXPORT void __tsan_read##N(void* p) { access(p, N, 1, PC); }          \
    EXPORT void __tsan_write##N(void* p) { access(p, N, 2, PC); }         \
    EXPORT void __tsan_unaligned_read##N(void* p) { access(p, N, 1, PC); } \
    EXPORT void __tsan_unaligned_write##N(void* p) { access(p, N, 2, PC); } \
    EXPORT void __tsan_read_write##N(void* p) { access(p, N, 2, PC); }    \
    EXPORT void __tsan_volatile_read##N(void* p) { access(p, N, 1, PC); } \
    EXPORT void __tsan_volatile_write##N(void* p) { access(p, N, 2, PC); }
RW(1)
RW(2)
RW(4)
RW(8)
RW(16)
EXPORT void __tsan_read_range(void* p, size_t n) { access(p, n, 1, PC); }
EXPORT void __tsan_write_range(void* p, size_t n) { access(p, n, 2, PC); }
EXPORT void __tsan_vptr_update(void** p, void*) { access(p, 8, 2, PC); }
EXPORT void __tsan_vptr_read(void** p) { access(p, 8, 1, PC); }
EXPORT void __tsan_func_entry(void*) {}
EXPORT void __tsan_func_exit() {}
EXPORT void __tsan_init() {}
EXPORT void __tsan_ignore_thread_begin() {}
EXPORT void __tsan_ignore_thread_end() {}

static void atomic_pre(const volatile void* p, bool write, int mo_acq, int mo_rel, uintptr_t pc, size_t n)
{
    if (!on()) return;
    (void)mo_acq;
    if (atomic_points && nthreads > 1 && live > 0) schedule();
    access(const_cast<const void*>(p), n, write ? 4 : 3, pc);
    (void)mo_rel;
}
static void hb(const volatile void* p, bool acq, bool rel)
{
    if (!on()) return;
    sync_obj& s = sync_of(const_cast<const void*>(p));
    if (acq) acquire(s);
    if (rel) release(s);
}
static bool is_acq(int m) { return m == 1 || m == 2 || m == 4 || m == 5; }
static bool is_rel(int m) { return m == 3 || m == 4 || m == 5; }
// A relaxed store breaks the release sequence headed by another thread; approximated by clearing the clock.
#define ATOM(N, T)                                                                                                    \
    EXPORT T __tsan_atomic##N##_load(const volatile T* a, int mo)                                                      \
    {                                                                                                                  \
        atomic_pre(a, false, mo, 0, PC, N / 8);                                                                        \
        T v = __atomic_load_n(a, __ATOMIC_SEQ_CST);                                                                    \
        hb(a, is_acq(mo), false);                                                                                      \
        return v;                                                                                                      \
    }                                                                                                                  \
    EXPORT void __tsan_atomic##N##_store(volatile T* a, T v, int mo)                                                   \
    {                                                                                                                  \
        atomic_pre(a, true, 0, mo, PC, N / 8);                                                                         \
        if (on()) zero(&sync_of(const_cast<const T*>(a)).vc, sizeof(vclock));                                     \
        hb(a, false, is_rel(mo));                                                                                      \
        __atomic_store_n(a, v, __ATOMIC_SEQ_CST);                                                                      \
    }                                                                                                                  \
    EXPORT T __tsan_atomic##N##_exchange(volatile T* a, T v, int mo)                                                   \
    {                                                                                                                  \
        atomic_pre(a, true, mo, mo, PC, N / 8);                                                                        \
        hb(a, is_acq(mo), is_rel(mo));                                                                                 \
        return __atomic_exchange_n(a, v, __ATOMIC_SEQ_CST);                                                            \
    }                                                                                                                  \
    EXPORT T __tsan_atomic##N##_fetch_add(volatile T* a, T v, int mo) { atomic_pre(a, true, mo, mo, PC, N / 8); hb(a, is_acq(mo), is_rel(mo)); return __atomic_fetch_add(a, v, __ATOMIC_SEQ_CST); } \
    EXPORT T __tsan_atomic##N##_fetch_sub(volatile T* a, T v, int mo) { atomic_pre(a, true, mo, mo, PC, N / 8); hb(a, is_acq(mo), is_rel(mo)); return __atomic_fetch_sub(a, v, __ATOMIC_SEQ_CST); } \
    EXPORT T __tsan_atomic##N##_fetch_and(volatile T* a, T v, int mo) { atomic_pre(a, true, mo, mo, PC, N / 8); hb(a, is_acq(mo), is_rel(mo)); return __atomic_fetch_and(a, v, __ATOMIC_SEQ_CST); } \
    EXPORT T __tsan_atomic##N##_fetch_or(volatile T* a, T v, int mo) { atomic_pre(a, true, mo, mo, PC, N / 8); hb(a, is_acq(mo), is_rel(mo)); return __atomic_fetch_or(a, v, __ATOMIC_SEQ_CST); } \
    EXPORT T __tsan_atomic##N##_fetch_xor(volatile T* a, T v, int mo) { atomic_pre(a, true, mo, mo, PC, N / 8); hb(a, is_acq(mo), is_rel(mo)); return __atomic_fetch_xor(a, v, __ATOMIC_SEQ_CST); } \
    static bool cas##N(volatile T* a, T* e, T v, int mo, uintptr_t pc)                                                 \
    {                                                                                                                  \
        atomic_pre(a, true, mo, mo, pc, N / 8);                                                                        \
        const bool ok = __atomic_load_n(a, __ATOMIC_SEQ_CST) == *e;                                                    \
        hb(a, is_acq(mo), ok && is_rel(mo));                                                                           \
        if (ok) __atomic_store_n(a, v, __ATOMIC_SEQ_CST);                                                              \
        else *e = __atomic_load_n(a, __ATOMIC_SEQ_CST);                                                                \
        return ok;                                                                                                     \
    }                                                                                                                  \
    EXPORT bool __tsan_atomic##N##_compare_exchange_strong(volatile T* a, T* e, T v, int mo, int) { return cas##N(a, e, v, mo, PC); } \
    EXPORT bool __tsan_atomic##N##_compare_exchange_weak(volatile T* a, T* e, T v, int mo, int) { return cas##N(a, e, v, mo, PC); }   \
    EXPORT T __tsan_atomic##N##_compare_exchange_val(volatile T* a, T e, T v, int mo, int) { cas##N(a, &e, v, mo, PC); return e; }
ATOM(8, uint8_t)
ATOM(16, uint16_t)
ATOM(32, uint32_t)
ATOM(64, uint64_t)
EXPORT void __tsan_atomic_thread_fence(int mo)
{
    if (!on()) return;
    static int fence;
    hb(&fence, is_acq(mo), is_rel(mo));
}
EXPORT void __tsan_atomic_signal_fence(int) {}
