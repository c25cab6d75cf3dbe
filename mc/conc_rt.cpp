// Runtime for conc.hpp.  Not instrumented.
#include "conc.hpp"
#include <pthread.h>
#include <sched.h>
#include <sys/single_threaded.h>
#include <sys/syscall.h>
#include <sys/select.h>
#undef MC_FAIL
#undef MC_CHECK

namespace mc { unsigned choose_sched(unsigned n); extern int rt_depth; }

extern "C" void conc_switch(void** save_sp, void* load_sp);
asm(R"(
.text
.globl conc_switch
.type conc_switch,@function
conc_switch:
    pushq %rbp
    pushq %rbx
    pushq %r12
    pushq %r13
    pushq %r14
    pushq %r15
    movq %rsp, (%rdi)
    movq %rsi, %rsp
    popq %r15
    popq %r14
    popq %r13
    popq %r12
    popq %rbx
    popq %rbp
    ret
.size conc_switch,.-conc_switch
)");

namespace __cxxabiv1 { struct __cxa_eh_globals; extern "C" __cxa_eh_globals* __cxa_get_globals() noexcept; }

namespace conc {
    typedef std::uint32_t clk_t;
    static const unsigned MAXT = 8;
    static const std::size_t STACK = 256*1024;
    struct VC { clk_t c[MAXT]; void join(const VC& o) { for (unsigned i = 0; i < MAXT; ++i) if (o.c[i] > c[i]) c[i] = o.c[i]; } };

    enum St { ST_RUN, ST_MUTEX, ST_JOIN, ST_COND, ST_DONE };
    struct readrec { const void* a; std::uint64_t ver; unsigned n; };
    struct Fiber {
        unsigned id; St st; const void* waiting; char* stack; void* sp;
        VC vc, acq, rel; bool hasrel;
        void* (*fn)(void*); void* arg; void* ret; bool detached, joined;
        bool slept; bool spin; bool timedwait;
        std::uint64_t eh[2];
        std::vector<readrec> reads;
    };
    struct Rec { clk_t clk; std::uint8_t tid, mask, kind; const void* pc; };   // kind: 1 write, 2 atomic
    struct Granule { std::uintptr_t key; unsigned n; Rec r[12]; };
    struct Block { std::size_t size; bool freed; unsigned by; };
    struct Sync { VC vc; std::uint64_t ver; int label; };
    struct Mutex { bool locked; unsigned owner; VC vc; };

    static bool active = false;       // inside run()
    static Fiber fib[MAXT]; static unsigned nf = 0, cur = 0;
    static char* stacks[MAXT];
    static void* engine_sp; static bool aborted; static bool pruned_; static std::string vmsg; static bool viol;
    static unsigned bound_, dev; static std::uint64_t steps, stagn;
    static bool leakcheck = true, warming = false;
    static double ltime = 0;
    static std::uint64_t vercount;
    static const std::uint64_t STEPLIMIT = 60000;

    // hash tables (allocated with malloc, outside the program's heap)
    template<typename T> struct mallocator { typedef T value_type; mallocator() {} template<typename U> mallocator(const mallocator<U>&) {}
        T* allocate(std::size_t n) { return (T*)malloc(n*sizeof(T)); } void deallocate(T* p, std::size_t) { ::free(p); }
        template<typename U> bool operator==(const mallocator<U>&) const { return true; } template<typename U> bool operator!=(const mallocator<U>&) const { return false; } };
    template<typename K, typename V> using umap = std::unordered_map<K,V,std::hash<K>,std::equal_to<K>,mallocator<std::pair<const K,V>>>;
    template<typename K, typename V> using omap = std::map<K,V,std::less<K>,mallocator<std::pair<const K,V>>>;
    static omap<std::uintptr_t,Block>* blocks;           // by start address
    static umap<const void*,Sync>* syncs;
    static umap<const void*,Mutex>* mutexes;
    static std::size_t nlive = 0;

    static const std::size_t GN = 1u << 15;
    static Granule* gtab; static std::uint32_t* gused; static std::size_t ngused;

    quiet::quiet() { ++mc::rt_depth; }
    quiet::~quiet() { --mc::rt_depth; }
    static bool tracking() { return active && mc::rt_depth == 0; }
    unsigned self() { return cur; }
    std::size_t live_blocks() { return nlive; }
    void expect_no_leak(bool b) { leakcheck = b; }

    static void eh_save(Fiber& f) { std::memcpy(f.eh, __cxxabiv1::__cxa_get_globals(), 16); }
    static void eh_load(Fiber& f) { std::memcpy(__cxxabiv1::__cxa_get_globals(), f.eh, 16); }

    [[noreturn]] static void leave_engine() { aborted = true; void* dummy; conc_switch(&dummy, engine_sp); __builtin_trap(); }
    void fail(const std::string& m) {
        ++mc::rt_depth;
        if (!active) { fprintf(stderr, "conc::fail outside of a run: %s\n", m.c_str()); _exit(3); }
        if (!viol) { viol = true; vmsg = "T" + std::to_string(cur) + ": " + m; }
        leave_engine();
    }

    static std::string where(const void* pc) { char b[64]; snprintf(b, sizeof b, "%p", pc); return b; }
    static std::string symbolize(const void* pc) {
        char cmd[300], exe[200]; ssize_t n = readlink("/proc/self/exe", exe, sizeof(exe)-1); if (n <= 0) return where(pc); exe[n] = 0;
        snprintf(cmd, sizeof cmd, "addr2line -Cfs -e %s %p 2>/dev/null", exe, (void*)((char*)pc - 1));
        FILE* f = popen(cmd, "r"); if (!f) return where(pc);
        std::string r; char b[512]; while (fgets(b, sizeof b, f)) { r += b; } pclose(f);
        for (auto& c : r) if (c == '\n') c = ' ';
        return r.empty() ? where(pc) : r;
    }

    static Granule* granule(std::uintptr_t key) {
        std::size_t h = (key * 0x9e3779b97f4a7c15ull) >> 49;
        for (std::size_t k = 0;; ++k) {
            Granule& g = gtab[(h + k) & (GN-1)];
            if (g.key == key) return &g;
            if (g.key == 0) {
                if (ngused > GN*3/4) { fprintf(stderr, "conc: shadow memory full\n"); _exit(3); }
                g.key = key; g.n = 0; gused[ngused++] = (h + k) & (GN-1); return &g;
            }
        }
    }
    static void check_alive(std::uintptr_t a, std::size_t n, const void* pc, const char* what) {
        auto it = blocks->upper_bound(a + n - 1);
        if (it == blocks->begin()) return;
        --it;
        if (it->second.freed && a < it->first + it->second.size) {
            ++mc::rt_depth;
            fail(std::string(what) + " of memory freed by T" + std::to_string(it->second.by) + " at " + (mc::verbose() ? symbolize(pc) : where(pc)));
        }
    }
    static void access(std::uintptr_t a, std::size_t n, int kind, const void* pc) {
        if (!tracking()) return;
        if (!blocks->empty()) check_alive(a, n, pc, (kind & 1) ? "write" : "read");
        Fiber& f = fib[cur];
        while (n) {
            std::uintptr_t key = a >> 3; unsigned off = a & 7; unsigned m = std::min<std::size_t>(8 - off, n);
            std::uint8_t mask = (std::uint8_t)(((1u << m) - 1) << off);
            Granule* g = granule(key);
            unsigned keep = ~0u;
            for (unsigned i = 0; i < g->n; ++i) {
                Rec& r = g->r[i];
                if (!(r.mask & mask)) continue;
                if (r.tid == cur) { if (r.kind == kind && r.mask == mask) keep = i; continue; }
                if (((r.kind | kind) & 1) && !(r.kind & kind & 2) && r.clk > f.vc.c[r.tid]) {
                    ++mc::rt_depth;
                    std::string s = std::string("data race: ") + ((kind & 2) ? "atomic " : "") + ((kind & 1) ? "write" : "read") + " concurrent with " +
                        ((r.kind & 2) ? "atomic " : "") + ((r.kind & 1) ? "write" : "read") + " by T" + std::to_string(r.tid);
                    if (mc::verbose()) s += " (" + symbolize(pc) + " / " + symbolize(r.pc) + ")";
                    fail(s);
                }
            }
            if (keep == ~0u) {
                if (g->n == 12) { // drop a record that happened before everything relevant, else the oldest
                    unsigned d = 0; for (unsigned i = 0; i < 12; ++i) if (g->r[i].clk <= f.vc.c[g->r[i].tid]) { d = i; break; }
                    g->r[d] = g->r[11]; g->n = 11;
                }
                keep = g->n++;
            }
            g->r[keep] = {f.vc.c[cur], (std::uint8_t)cur, mask, (std::uint8_t)kind, pc};
            a += m; n -= m;
        }
    }

    static Sync& sync(const void* a) {
        auto it = syncs->find(a);
        if (it == syncs->end()) { Sync s; std::memset(&s, 0, sizeof s); s.label = (int)syncs->size(); it = syncs->emplace(a, s).first; }
        return it->second;
    }

    static const char* stname(St s) { static const char* n[] = {"running","waiting for a mutex","joining","waiting on a condition","done"}; return n[s]; }
    static bool enabled(const Fiber& f) {
        switch (f.st) {
        case ST_RUN: return true;
        case ST_MUTEX: { auto it = mutexes->find(f.waiting); return it == mutexes->end() || !it->second.locked; }
        case ST_JOIN: return fib[(std::uintptr_t)f.waiting].st == ST_DONE;
        case ST_COND: return f.timedwait;
        default: return false;
        }
    }
    static bool fresh(Fiber& f) {   // has something the spinning thread read changed?
        for (auto& r : f.reads) { auto it = syncs->find(r.a); if (it != syncs->end() && it->second.ver != r.ver) return true; }
        return false;
    }
    static void entry();
    static void switch_to(unsigned t) {
        if (t == cur) return;
        unsigned o = cur; eh_save(fib[o]); cur = t; eh_load(fib[t]);
        conc_switch(&fib[o].sp, fib[t].sp);
    }
    static void log(const char* what, const void* a) {
        if (!mc::verbose() || warming) return;
        ++mc::rt_depth;
        std::string s = "T" + std::to_string(cur) + " " + what;
        if (a) s += " #" + std::to_string(sync(a).label);
        mc::logs(s);
        --mc::rt_depth;
    }
    // A scheduling point: decide who runs next.  Called with rt_depth raised.
    static void schedule() {
        if (++steps > STEPLIMIT) fail("no progress: the program did not end after 60000 operations");
        Fiber& me = fib[cur];
        bool en[MAXT]; bool good[MAXT]; unsigned ne = 0, ng = 0;
        for (unsigned i = 0; i < nf; ++i) {
            Fiber& f = fib[i]; en[i] = enabled(f); good[i] = false;
            if (!en[i]) continue;
            ++ne;
            if (f.spin && fresh(f)) f.spin = false;
            good[i] = !f.spin && !f.slept && !(f.st == ST_COND);
            if (good[i]) ++ng;
        }
        if (ne == 0) {
            std::string s = "deadlock:";
            for (unsigned i = 0; i < nf; ++i) if (fib[i].st != ST_DONE) s += " T" + std::to_string(i) + " " + stname(fib[i].st);
            fail(s);
        }
        unsigned def;
        if (en[cur] && good[cur]) def = cur;
        else {
            def = MAXT;
            for (unsigned k = 1; k <= nf && def == MAXT; ++k) { unsigned t = (cur + k) % nf; if (good[t]) def = t; }
            if (def == MAXT) { // everybody sleeps or spins: sleepers wake first, in turn; then the spinners
                for (unsigned k = 1; k <= nf && def == MAXT; ++k) { unsigned t = (cur + k) % nf; if (en[t] && fib[t].slept) def = t; }
                for (unsigned k = 1; k <= nf && def == MAXT; ++k) { unsigned t = (cur + k) % nf; if (en[t] && !(fib[t].st == ST_COND)) def = t; }
                for (unsigned k = 1; k <= nf && def == MAXT; ++k) { unsigned t = (cur + k) % nf; if (en[t]) def = t; }
                if (++stagn > 400) fail("no progress: every thread is waiting for another one (livelock)");
            }
        }
        unsigned opt[MAXT], no = 0; opt[no++] = def;
        if (dev < bound_) for (unsigned i = 0; i < nf; ++i) if (i != def && en[i] && !fib[i].spin) opt[no++] = i;
        unsigned c = 0;
        if (no > 1) {
            try { c = mc::choose_sched(no); } catch (mc::pruned&) { pruned_ = true; leave_engine(); }
            if (c) ++dev;
        }
        unsigned t = opt[c];
        Fiber& n = fib[t];
        if (t != cur || n.slept || n.spin) { n.slept = false; if (n.spin) { n.spin = false; for (auto& r : n.reads) r.n = 0; } }
        (void)me;
        switch_to(t);
    }
    // before a visible operation of the current thread
    static void point() { ++mc::rt_depth; mc::op(); int d = mc::rt_depth; schedule(); mc::rt_depth = d - 1; }
    static void wrote() { fib[cur].reads.clear(); stagn = 0; }

    static void note_read(const void* a) {
        Fiber& f = fib[cur]; ++mc::rt_depth;
        Sync& s = sync(a);
        for (auto& r : f.reads) if (r.a == a) {
            if (r.ver == s.ver) { if (++r.n >= 3) f.spin = true; }
            else { r.ver = s.ver; r.n = 0; for (auto& q : f.reads) q.n = 0; }
            --mc::rt_depth; return;
        }
        f.reads.push_back({a, s.ver, 0});
        --mc::rt_depth;
    }

    static bool acq(int mo) { return mo == 1 || mo == 2 || mo == 4 || mo == 5; }
    static bool rls(int mo) { return mo == 3 || mo == 4 || mo == 5; }

    template<typename T> static T a_load(const volatile T* p, int mo, const void* pc) {
        if (!tracking()) return *p;
        point();
        access((std::uintptr_t)p, sizeof(T), 2, pc);
        ++mc::rt_depth;
        Sync& s = sync((const void*)p); Fiber& f = fib[cur];
        if (acq(mo)) f.vc.join(s.vc); else f.acq.join(s.vc);
        --mc::rt_depth;
        note_read((const void*)p); log("load", (const void*)p);
        return *p;
    }
    template<typename T> static void published(const volatile T* p, int mo, bool rmw) {
        Sync& s = sync((const void*)p); Fiber& f = fib[cur];
        if (rls(mo)) { if (rmw) s.vc.join(f.vc); else s.vc = f.vc; }
        else if (f.hasrel) { if (rmw) s.vc.join(f.rel); else s.vc = f.rel; }
        else if (!rmw) std::memset(&s.vc, 0, sizeof s.vc);
        s.ver = ++vercount; ++f.vc.c[cur]; wrote();
    }
    template<typename T> static void a_store(volatile T* p, T v, int mo, const void* pc) {
        if (!tracking()) { *p = v; return; }
        point();
        access((std::uintptr_t)p, sizeof(T), 3, pc);
        ++mc::rt_depth; *p = v; published(p, mo, false); --mc::rt_depth; log("store", (const void*)p);
    }
    template<typename T, typename F> static T a_rmw(volatile T* p, F op, int mo, const void* pc) {
        if (!tracking()) { T o = *p; *p = op(o); return o; }
        point();
        access((std::uintptr_t)p, sizeof(T), 3, pc);
        ++mc::rt_depth;
        Sync& s = sync((const void*)p); Fiber& f = fib[cur];
        if (acq(mo)) f.vc.join(s.vc); else f.acq.join(s.vc);
        T o = *p; *p = op(o); published(p, mo, true); --mc::rt_depth; log("read-modify-write", (const void*)p);
        return o;
    }
    template<typename T> static bool a_cas(volatile T* p, T* e, T v, int mo, int fmo, const void* pc) {
        if (!tracking()) { if (*p == *e) { *p = v; return true; } *e = *p; return false; }
        point();
        access((std::uintptr_t)p, sizeof(T), 3, pc);
        ++mc::rt_depth;
        Sync& s = sync((const void*)p); Fiber& f = fib[cur];
        T o = *p; bool ok = o == *e;
        int m = ok ? mo : fmo;
        if (acq(m)) f.vc.join(s.vc); else f.acq.join(s.vc);
        if (ok) { *p = v; published(p, mo, true); } else *e = o;
        --mc::rt_depth;
        if (!ok) note_read((const void*)p);
        log(ok ? "compare-exchange" : "compare-exchange (failed)", (const void*)p);
        return ok;
    }
    static void fence(int mo) {
        if (!tracking()) return;
        Fiber& f = fib[cur];
        if (acq(mo)) f.vc.join(f.acq);
        if (rls(mo)) { f.rel = f.vc; f.hasrel = true; ++f.vc.c[cur]; }
    }

    static void finish_thread() {
        ++mc::rt_depth;
        Fiber& f = fib[cur]; f.st = ST_DONE; ++f.vc.c[cur]; stagn = 0;
        log("ends", nullptr);
        bool all = true; for (unsigned i = 0; i < nf; ++i) all = all && fib[i].st == ST_DONE;
        if (all) { void* d; conc_switch(&d, engine_sp); __builtin_trap(); }
        schedule();
        __builtin_trap();
    }
    static void entry() {
        mc::rt_depth = 0;
        Fiber& f = fib[cur];
        try { f.ret = f.fn(f.arg); }
        catch (mc::violation& v) { fail(v.msg); }
        catch (mc::skip&) { fail("internal: skip inside a run"); }
        catch (std::exception& e) { fail(std::string("uncaught exception: ") + e.what()); }
        catch (...) { fail("uncaught exception"); }
        if (cur == 0) {
            for (unsigned i = 1; i < nf; ++i) if (fib[i].st != ST_DONE) fail("the program ended while thread T" + std::to_string(i) + " was still running");
        }
        finish_thread();
    }
    static void new_fiber(void* (*fn)(void*), void* arg) {
        if (nf >= MAXT) { fprintf(stderr, "conc: too many threads\n"); _exit(3); }
        unsigned t = nf++; Fiber& f = fib[t];
        if (!stacks[t]) {
            char* m = (char*)mmap(nullptr, STACK + 4096, PROT_READ|PROT_WRITE, MAP_PRIVATE|MAP_ANONYMOUS|MAP_NORESERVE, -1, 0);
            mprotect(m, 4096, PROT_NONE); stacks[t] = m + 4096;
        }
        f.id = t; f.st = ST_RUN; f.waiting = nullptr; f.fn = fn; f.arg = arg; f.ret = nullptr; f.detached = f.joined = false;
        f.slept = f.spin = f.hasrel = f.timedwait = false; std::memset(&f.vc, 0, sizeof f.vc); std::memset(&f.acq, 0, sizeof f.acq); std::memset(f.eh, 0, 16);
        f.reads.clear();
        void** sp = (void**)(stacks[t] + STACK);
        *--sp = nullptr;                  // alignment / fake return address
        *--sp = (void*)&entry;
        for (int k = 0; k < 6; ++k) *--sp = nullptr;
        f.sp = sp;
    }

    static void (*main_body)(void*); static void* main_data;
    static void* main_fn(void*) { main_body(main_data); return nullptr; }

    static void run_(unsigned bound, void (*body)(void*), void* data, bool warm);
    void run(unsigned bound, void (*body)(void*), void* data) {
        __libc_single_threaded = 0;
        static bool warm = false;
        if (!warm) {   // initialise whatever the C++ library initialises on first use
            warm = true;
            for (int k = 0; k < 2; ++k) { try { run_(0, body, data, true); } catch (mc::violation&) {} }
        }
        run_(bound, body, data, false);
    }
    static void run_(unsigned bound, void (*body)(void*), void* data, bool warm) {
        ++mc::rt_depth; warming = warm;
        if (!gtab) {
            gtab = (Granule*)mmap(nullptr, GN*sizeof(Granule), PROT_READ|PROT_WRITE, MAP_PRIVATE|MAP_ANONYMOUS|MAP_NORESERVE, -1, 0);
            gused = (std::uint32_t*)malloc(GN*4);
            blocks = new omap<std::uintptr_t,Block>; syncs = new umap<const void*,Sync>; mutexes = new umap<const void*,Mutex>;
        }
        nf = 0; cur = 0; aborted = pruned_ = viol = false; vmsg.clear(); bound_ = bound; dev = 0; steps = stagn = 0; leakcheck = true; nlive = 0; vercount = 0; ltime = 1e6;
        syncs->clear(); mutexes->clear();
        new_fiber(&main_fn, nullptr); fib[0].vc.c[0] = 1;
        main_body = body; main_data = data;
        std::uint64_t eh[2]; std::memcpy(eh, __cxxabiv1::__cxa_get_globals(), 16);
        eh_load(fib[0]);
        active = true;
        int depth = mc::rt_depth;
        conc_switch(&engine_sp, fib[0].sp);
        active = false; mc::rt_depth = depth;
        std::memcpy(__cxxabiv1::__cxa_get_globals(), eh, 16);
        std::size_t leaked = 0;
        for (auto& b : *blocks) { if (b.second.freed) ::free((void*)b.first); else { ++leaked; if (aborted) ::free((void*)b.first); } }
        blocks->clear();
        for (std::size_t i = 0; i < ngused; ++i) gtab[gused[i]].key = 0;
        ngused = 0;
        --mc::rt_depth;
        if (pruned_) throw mc::pruned{};
        if (viol) throw mc::violation{vmsg};
        if (leaked && leakcheck && !warm) throw mc::violation{"memory leak: " + std::to_string(leaked) + " heap blocks were never freed"};
    }

    static void* alloc(std::size_t n) {
        void* p = malloc(n ? n : 1);
        if (!p) throw std::bad_alloc();
        if (tracking()) {
            ++mc::rt_depth; std::memset(p, 0xa5, n);
            auto it = blocks->find((std::uintptr_t)p);
            if (it != blocks->end()) blocks->erase(it);
            blocks->emplace((std::uintptr_t)p, Block{n ? n : 1, false, 0}); ++nlive; --mc::rt_depth;
        }
        return p;
    }
    static void dealloc(void* p) {
        if (!p) return;
        if (!tracking()) {
            if (active && blocks) { auto it = blocks->find((std::uintptr_t)p); if (it != blocks->end() && !it->second.freed) { --nlive; blocks->erase(it); } }
            ::free(p); return;
        }
        auto it = blocks->find((std::uintptr_t)p);
        if (it == blocks->end()) { ::free(p); return; }   // allocated before the run or by the harness
        if (it->second.freed) fail("memory freed twice (first by T" + std::to_string(it->second.by) + ")");
        access((std::uintptr_t)p, it->second.size, 1, __builtin_return_address(0));
        it->second.freed = true; it->second.by = cur; --nlive;
        ++mc::rt_depth; std::memset(p, 0x5a, it->second.size); --mc::rt_depth;
    }
    void* arun_alloc(std::size_t n) { return alloc(n); }
    void arun_free(void* p) { dealloc(p); }
}
using namespace conc;

void* operator new(std::size_t n) { return arun_alloc(n); }
void* operator new[](std::size_t n) { return arun_alloc(n); }
void* operator new(std::size_t n, const std::nothrow_t&) noexcept { return arun_alloc(n); }
void* operator new[](std::size_t n, const std::nothrow_t&) noexcept { return arun_alloc(n); }
void operator delete(void* p) noexcept { arun_free(p); }
void operator delete[](void* p) noexcept { arun_free(p); }
void operator delete(void* p, std::size_t) noexcept { arun_free(p); }
void operator delete[](void* p, std::size_t) noexcept { arun_free(p); }
void operator delete(void* p, const std::nothrow_t&) noexcept { arun_free(p); }
void operator delete[](void* p, const std::nothrow_t&) noexcept { arun_free(p); }

#define PC __builtin_return_address(0)
extern "C" {
    void __tsan_init() {}
    void __tsan_func_entry(void*) {}
    void __tsan_func_exit() {}
    void __tsan_vptr_update(void** p, void*) { access((std::uintptr_t)p, 8, 1, PC); }
    void __tsan_vptr_read(void** p) { access((std::uintptr_t)p, 8, 0, PC); }
    void __tsan_read_range(void* p, unsigned long n) { if (n) access((std::uintptr_t)p, n, 0, PC); }
    void __tsan_write_range(void* p, unsigned long n) { if (n) access((std::uintptr_t)p, n, 1, PC); }
#define RW(N) \
    void __tsan_read##N(void* p) { access((std::uintptr_t)p, N, 0, PC); } \
    void __tsan_write##N(void* p) { access((std::uintptr_t)p, N, 1, PC); } \
    void __tsan_unaligned_read##N(void* p) { access((std::uintptr_t)p, N, 0, PC); } \
    void __tsan_unaligned_write##N(void* p) { access((std::uintptr_t)p, N, 1, PC); }
    RW(1) RW(2) RW(4) RW(8) RW(16)
#define AT(B, T) \
    T __tsan_atomic##B##_load(const volatile T* p, int mo) { return a_load<T>(p, mo, PC); } \
    void __tsan_atomic##B##_store(volatile T* p, T v, int mo) { a_store<T>(p, v, mo, PC); } \
    T __tsan_atomic##B##_exchange(volatile T* p, T v, int mo) { return a_rmw<T>(p, [&](T) { return v; }, mo, PC); } \
    T __tsan_atomic##B##_fetch_add(volatile T* p, T v, int mo) { return a_rmw<T>(p, [&](T o) { return (T)(o + v); }, mo, PC); } \
    T __tsan_atomic##B##_fetch_sub(volatile T* p, T v, int mo) { return a_rmw<T>(p, [&](T o) { return (T)(o - v); }, mo, PC); } \
    T __tsan_atomic##B##_fetch_and(volatile T* p, T v, int mo) { return a_rmw<T>(p, [&](T o) { return (T)(o & v); }, mo, PC); } \
    T __tsan_atomic##B##_fetch_or(volatile T* p, T v, int mo) { return a_rmw<T>(p, [&](T o) { return (T)(o | v); }, mo, PC); } \
    T __tsan_atomic##B##_fetch_xor(volatile T* p, T v, int mo) { return a_rmw<T>(p, [&](T o) { return (T)(o ^ v); }, mo, PC); } \
    T __tsan_atomic##B##_fetch_nand(volatile T* p, T v, int mo) { return a_rmw<T>(p, [&](T o) { return (T)~(o & v); }, mo, PC); } \
    bool __tsan_atomic##B##_compare_exchange_strong(volatile T* p, T* e, T v, int mo, int fmo) { return a_cas<T>(p, e, v, mo, fmo, PC); } \
    bool __tsan_atomic##B##_compare_exchange_weak(volatile T* p, T* e, T v, int mo, int fmo) { return a_cas<T>(p, e, v, mo, fmo, PC); } \
    T __tsan_atomic##B##_compare_exchange_val(volatile T* p, T e, T v, int mo, int fmo) { a_cas<T>(p, &e, v, mo, fmo, PC); return e; }
    AT(8, std::uint8_t) AT(16, std::uint16_t) AT(32, std::uint32_t) AT(64, std::uint64_t)
    void __tsan_atomic_thread_fence(int mo) { fence(mo); }
    void __tsan_atomic_signal_fence(int) {}

    // ---- threads -----------------------------------------------------------------------------
    static const unsigned long TBASE = 0x7000;
    pthread_t pthread_self() noexcept { return TBASE + (active ? cur : 0); }
    int pthread_create(pthread_t* t, const pthread_attr_t*, void* (*fn)(void*), void* arg) {
        if (!active) { fprintf(stderr, "conc: thread created outside of a run\n"); _exit(3); }
        point();
        ++mc::rt_depth;
        unsigned id = nf; new_fiber(fn, arg);
        fib[id].vc = fib[cur].vc; fib[id].vc.c[id] = 1; ++fib[cur].vc.c[cur];
        *t = TBASE + id; wrote();
        --mc::rt_depth; log(("creates T" + std::to_string(id)).c_str(), nullptr);
        return 0;
    }
    int pthread_join(pthread_t t, void** r) {
        unsigned id = (unsigned)(t - TBASE);
        if (id >= nf || id == cur || fib[id].joined || fib[id].detached) fail("join of an invalid or already joined thread");
        fib[cur].st = ST_JOIN; fib[cur].waiting = (void*)(std::uintptr_t)id;
        point();
        fib[cur].st = ST_RUN; fib[cur].vc.join(fib[id].vc); fib[id].joined = true; if (r) *r = fib[id].ret; wrote();
        log(("joined T" + std::to_string(id)).c_str(), nullptr);
        return 0;
    }
    int pthread_detach(pthread_t t) { fib[t - TBASE].detached = true; return 0; }
    int pthread_equal(pthread_t a, pthread_t b) noexcept { return a == b; }
    int sched_yield() noexcept { if (tracking()) { fib[cur].slept = true; point(); } return 0; }
    static int do_sleep(double s) { ltime += s; if (tracking()) { fib[cur].slept = true; log("sleeps", nullptr); point(); } return 0; }
    int nanosleep(const struct timespec* ts, struct timespec*) { return do_sleep(ts->tv_sec + 1e-9*ts->tv_nsec); }
    int clock_nanosleep(clockid_t, int flags, const struct timespec* ts, struct timespec*) { return do_sleep(flags ? 0.01 : ts->tv_sec + 1e-9*ts->tv_nsec); }
    int usleep(useconds_t us) { if (!active) { struct timeval tv{(time_t)(us/1000000), (suseconds_t)(us%1000000)}; select(0, nullptr, nullptr, nullptr, &tv); return 0; } return do_sleep(1e-6*us); }
    unsigned sleep(unsigned s) { return do_sleep(s); }

    static void lock_(const void* m) {
        Fiber& f = fib[cur]; f.st = ST_MUTEX; f.waiting = m;
        point();
        f.st = ST_RUN; ++mc::rt_depth; Mutex& x = (*mutexes)[m]; 
        x.locked = true; x.owner = cur; f.vc.join(x.vc); wrote(); --mc::rt_depth; log("locks", m);
    }
    static void unlock_(const void* m) {
        ++mc::rt_depth; Mutex& x = (*mutexes)[m]; Fiber& f = fib[cur];
        if (!x.locked || x.owner != cur) fail("unlock of a mutex that this thread does not hold");
        x.locked = false; x.vc.join(f.vc); ++f.vc.c[cur]; wrote(); --mc::rt_depth; log("unlocks", m);
    }
    int pthread_mutex_lock(pthread_mutex_t* m) noexcept { if (tracking()) lock_(m); return 0; }
    int pthread_mutex_trylock(pthread_mutex_t* m) noexcept {
        if (!tracking()) return 0;
        point(); ++mc::rt_depth; bool busy = (*mutexes)[m].locked; --mc::rt_depth;
        if (busy) { note_read(m); return EBUSY; }
        ++mc::rt_depth; Mutex& x = (*mutexes)[m]; x.locked = true; x.owner = cur; fib[cur].vc.join(x.vc); wrote(); --mc::rt_depth; return 0;
    }
    int pthread_mutex_unlock(pthread_mutex_t* m) noexcept { if (tracking()) unlock_(m); return 0; }
    int pthread_mutex_destroy(pthread_mutex_t* m) noexcept { if (tracking() && mutexes->count(m) && (*mutexes)[m].locked) fail("a locked mutex is destroyed"); return 0; }

    int pthread_cond_wait(pthread_cond_t* c, pthread_mutex_t* m) {
        if (!tracking()) return 0;
        Fiber& f = fib[cur]; unlock_(m); f.st = ST_COND; f.waiting = c; f.timedwait = false; point();
        lock_(m); return 0;
    }
    static int twait(pthread_cond_t* c, pthread_mutex_t* m) {
        if (!tracking()) return 0;
        Fiber& f = fib[cur]; unlock_(m); f.st = ST_COND; f.waiting = c; f.timedwait = true; point();
        bool timeout = f.st == ST_COND; f.timedwait = false; lock_(m); return timeout ? ETIMEDOUT : 0;
    }
    int pthread_cond_timedwait(pthread_cond_t* c, pthread_mutex_t* m, const struct timespec*) { return twait(c, m); }
    int pthread_cond_clockwait(pthread_cond_t* c, pthread_mutex_t* m, clockid_t, const struct timespec*) { return twait(c, m); }
    int pthread_cond_signal(pthread_cond_t* c) noexcept {
        if (!tracking()) return 0;
        point(); wrote();
        for (unsigned i = 0; i < nf; ++i) if (fib[i].st == ST_COND && fib[i].waiting == c) { fib[i].st = ST_RUN; break; }
        return 0;
    }
    int pthread_cond_broadcast(pthread_cond_t* c) noexcept {
        if (!tracking()) return 0;
        point(); wrote();
        for (unsigned i = 0; i < nf; ++i) if (fib[i].st == ST_COND && fib[i].waiting == c) fib[i].st = ST_RUN;
        return 0;
    }
    int pthread_cond_destroy(pthread_cond_t*) noexcept { return 0; }
    int pthread_cond_init(pthread_cond_t* c, const pthread_condattr_t*) noexcept { return 0; }

    int clock_gettime(clockid_t c, struct timespec* ts) noexcept {
        if (tracking()) { double t = ltime; ts->tv_sec = (time_t)t; ts->tv_nsec = (long)((t - (time_t)t)*1e9); return 0; }
        return (int)syscall(SYS_clock_gettime, c, ts);
    }
    int gettimeofday(struct timeval* tv, void*) noexcept { double t = ltime; tv->tv_sec = (time_t)t; tv->tv_usec = (suseconds_t)((t - (time_t)t)*1e6); return 0; }
}
