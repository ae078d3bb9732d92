// tsanrt.cpp - the runtime behind -fsanitize=thread code: fibers, schedule exploration, happens-before.
#include "sched.hpp"
#include <cstdarg>
#include <cxxabi.h>
#include <elf.h>
#include <link.h>
#include <malloc.h>
#include <pthread.h>
#include <sys/mman.h>
#include <sys/single_threaded.h>
#include <unordered_map>
#include <unordered_set>

namespace __cxxabiv1 {
struct __cxa_eh_globals;
extern "C" __cxa_eh_globals *__cxa_get_globals() noexcept;
}

namespace {

const int MAXT = 5;
struct EhG { void *c; unsigned u; };

struct Fiber {
    void *sp = nullptr;
    char *stack = nullptr;
    std::function<void()> body;
    bool done = false;
    bool blocked = false;          // on a mutex
    const void *waitOn = nullptr;
    bool spinning = false;         // waits for somebody else's write
    std::exception_ptr ex;
    EhG eh{nullptr, 0};
    std::vector<char> tls;
    uint64_t vc[MAXT] = {0};
    uint64_t *opB = nullptr;       // where the time of the first scheduling point goes
    // spin detection: reads since the last own write / boundary
    struct Rd { uintptr_t pc, addr; uint64_t val; int times; };
    std::vector<Rd> reads;
};


const size_t STK = 512 * 1024;
std::vector<Fiber> fb;
std::vector<char *> stackPool;
void *mainSp;
EhG mainEh;
int cur = -1;                      // running fiber
int N = 0;
bool active = false;               // fibers are running
bool aborting = false;
int noSched = 0;                   // inside an operation that is atomic in TBB
bool inRt = false;
mc::Choice *ch;
sched::Options opt;
uint64_t steps, nswitch, clockT, quietEvents;
std::string failKey, failMsg;
std::vector<char> tlsInit;
char *tlsAddr = nullptr;
size_t tlsSize = 0;

// a set of instructions: looked at on every access
extern "C" char __executable_start, etext;
struct PcSet {
    std::vector<uint8_t> in;
    std::set<uintptr_t> all;
    static uintptr_t base() { return (uintptr_t) &__executable_start; }
    PcSet() : in((uintptr_t) &etext - base() + 1, 0) {}
    bool count(uintptr_t p) const { uintptr_t o = p - base(); return o < in.size() ? in[o] : all.count(p) > 0; }
    void insert(uintptr_t p) { all.insert(p); uintptr_t o = p - base(); if (o < in.size()) in[o] = 1; }
    void erase(uintptr_t p) { all.erase(p); uintptr_t o = p - base(); if (o < in.size()) in[o] = 0; }
    void clear() { while (!all.empty()) erase(*all.begin()); }
    bool empty() const { return all.empty(); }
    std::set<uintptr_t>::iterator begin() const { return all.begin(); }
    std::set<uintptr_t>::iterator end() const { return all.end(); }
};
PcSet visible, pending;

// ---- fiber switch
extern "C" void mc_switch(void **saveSp, void *newSp);
asm(R"(
.text
.globl mc_switch
.type mc_switch,@function
mc_switch:
    pushq %rbp
    pushq %rbx
    pushq %r12
    pushq %r13
    pushq %r14
    pushq %r15
    subq $8, %rsp
    stmxcsr (%rsp)
    fnstcw 4(%rsp)
    movq %rsp, (%rdi)
    movq %rsi, %rsp
    ldmxcsr (%rsp)
    fldcw 4(%rsp)
    addq $8, %rsp
    popq %r15
    popq %r14
    popq %r13
    popq %r12
    popq %rbx
    popq %rbp
    ret
.size mc_switch,.-mc_switch
)");

EhG *ehg() { return (EhG *) __cxxabiv1::__cxa_get_globals(); }

void swapTo(int to) {                // to = -1: main
    EhG *g = ehg();
    int from = cur;
    if (from < 0) mainEh = *g; else fb[from].eh = *g;
    if (tlsSize) {
        std::vector<char> &s = from < 0 ? tlsInit : fb[from].tls;
        s.assign(tlsAddr, tlsAddr + tlsSize);
        std::vector<char> &l = to < 0 ? tlsInit : fb[to].tls;
        memcpy(tlsAddr, l.data(), tlsSize);
    }
    void **save = from < 0 ? &mainSp : &fb[from].sp;
    cur = to;
    ++nswitch;
    mc_switch(save, to < 0 ? mainSp : fb[to].sp);
    // back in `from`
    cur = from;
    *ehg() = from < 0 ? mainEh : fb[from].eh;
}

// which of n threads starts or follows one that ended
int order(int n) {
    if (n < 2) return 0;
    if (!opt.orderCosts) return ch->pick(n);
    return ch->used >= ch->bound ? 0 : ch->dev(n);
}

void entry() {
    Fiber &f = fb[cur];
    *ehg() = EhG{nullptr, 0};
    inRt = false;
    try {
        f.body();
    } catch (...) {
        f.ex = std::current_exception();
    }
    fb[cur].done = true;
    // free choice of the successor
    while (true) {
        inRt = true;
        std::vector<int> en;
        for (int i = 0; i < N; ++i) if (!fb[i].done && !fb[i].blocked && !fb[i].spinning) en.push_back(i);
        if (en.empty()) for (int i = 0; i < N; ++i) if (!fb[i].done && !fb[i].blocked) { fb[i].spinning = false; fb[i].reads.clear(); en.push_back(i); }
        int to = -1;
        if (!en.empty()) to = en[order((int) en.size())];
        inRt = false;
        swapTo(to);
    }
}

// ---- shadow memory: happens-before and ownership, 8 byte granules
struct Cell {
    uintptr_t g = 0;
    uint32_t epoch = 0;
    uint8_t wT = 0xff;
    bool wAtomic = false;
    uint8_t lanesW = 0, rAtomic = 0;       // rAtomic: a bit per thread
    uint32_t wC = 0, wPc = 0;              // no more than 2^32 scheduling points, and the executable lies low
    uint8_t lanesR[MAXT];
    uint32_t rC[MAXT], rPc[MAXT];
};
std::vector<Cell> shadow(1 << 14);
uint32_t epochNo = 1;
size_t shadowUsed = 0;

Cell &cell(uintptr_t g) {
    if (shadowUsed * 2 > shadow.size()) {
        std::vector<Cell> o(shadow.size() * 2);
        o.swap(shadow);
        shadowUsed = 0;
        for (auto &c : o) if (c.epoch == epochNo) cell(c.g) = c;
    }
    size_t m = shadow.size() - 1, i = (g * 0x9e3779b97f4a7c15ull >> 20) & m;
    while (shadow[i].epoch == epochNo && shadow[i].g != g) i = (i + 1) & m;
    Cell &c = shadow[i];
    if (c.epoch != epochNo) {
        memset((void *) &c, 0, sizeof c);
        c.wT = 0xff;
        c.epoch = epochNo;
        c.g = g;
        ++shadowUsed;
    }
    return c;
}

// fresh memory: what happened to it before is of no interest
void forget(uintptr_t p, size_t n) {
    size_t m = shadow.size() - 1;
    uintptr_t g = p >> 3, e = (p + n + 7) >> 3;
    if (e - g > 4096) e = g + 4096;
    for (; g < e; ++g) {
        size_t i = (g * 0x9e3779b97f4a7c15ull >> 20) & m;
        while (shadow[i].epoch == epochNo && shadow[i].g != g) i = (i + 1) & m;
        Cell &c = shadow[i];
        if (c.epoch != epochNo) continue;
        c.wT = 0xff;
        for (int t = 0; t < MAXT; ++t) { c.rC[t] = 0; c.lanesR[t] = 0; }
    }
}

struct SyncVar { uint64_t vc[MAXT] = {0}; };
std::unordered_map<uintptr_t, SyncVar> syncs;

void acquire(uintptr_t a) {
    auto it = syncs.find(a);
    if (it == syncs.end()) return;
    for (int t = 0; t < MAXT; ++t) fb[cur].vc[t] = std::max(fb[cur].vc[t], it->second.vc[t]);
}

void release(uintptr_t a, bool join) {
    SyncVar &s = syncs[a];
    for (int t = 0; t < MAXT; ++t) s.vc[t] = join ? std::max(s.vc[t], fb[cur].vc[t]) : fb[cur].vc[t];
    ++fb[cur].vc[cur];
}

// ---- freed memory
struct Range { uintptr_t a, e; };
std::map<uintptr_t, uintptr_t> freedMap;  // start -> end, quarantined during an execution
std::vector<uint32_t> freedNear(1 << 16); // a filter: execution in which something freed was near
uint32_t freedRun = 1;
bool freedBig;
size_t nearOf(uintptr_t p) { return ((p >> 8) * 0x9e3779b97f4a7c15ull >> 40) & 0xffff; }
void freedAdd(uintptr_t a, size_t n) {
    freedMap[a] = a + n;
    if (n > 65536) freedBig = true;
    else for (uintptr_t p = a >> 8; p <= (a + n) >> 8; ++p) freedNear[nearOf(p << 8)] = freedRun;
}
bool freedHas(uintptr_t a) {
    if (!freedBig && freedNear[nearOf(a)] != freedRun) return false;
    auto it = freedMap.upper_bound(a);
    return it != freedMap.begin() && a < std::prev(it)->second;
}
void freedClear() { freedMap.clear(); freedBig = false; ++freedRun; }
std::vector<void *> quarantine;

// the property does not hold on this execution: leave it for good (the other fibers are abandoned)
void die(const std::string &key, const std::string &msg) {
    failKey = key;
    failMsg = msg;
    aborting = true;
    swapTo(-1);
    abort();
}

void notePc(uintptr_t pc) {
    if (pc && !visible.count(pc)) pending.insert(pc);
}

// diagnosis: list the races instead of stopping at the first one
bool listed(uintptr_t a, uintptr_t b) {
    static bool on = getenv("MC_RACES") != nullptr;
    if (!on) return false;
    static std::set<std::pair<uintptr_t, uintptr_t>> seen;
    if (seen.insert({a, b}).second) fprintf(stderr, "RACE %lx %lx\n", (unsigned long) a, (unsigned long) b);
    return true;
}

void access(uintptr_t addr, size_t size, bool write, bool atomic, uintptr_t pc) {
    // conflicts with other threads
    if (freedHas(addr))
        die("use-after-free", mc::fmt("thread %d %s freed memory (pc %lx)", cur, write ? "writes" : "reads", pc));
    uint64_t *me = fb[cur].vc;
    for (uintptr_t a = addr; a < addr + size;) {
        uintptr_t g = a >> 3;
        uintptr_t end = std::min(addr + size, (g + 1) << 3);
        uint8_t lanes = 0;
        lanes = (uint8_t) (((1u << (end - a)) - 1) << (a & 7));
        Cell &c = cell(g);
        if (c.wT != 0xff && c.wT != cur && (c.lanesW & lanes)) {
            bool hb = c.wC <= me[c.wT];
            // atomics synchronise by themselves, but their order still matters
            if (!hb || (atomic && c.wAtomic)) { notePc(c.wPc); notePc(pc); }
            if (!hb && !(atomic && c.wAtomic) && opt.reportRaces && !listed(c.wPc, pc))
                die("data-race", mc::fmt("unordered accesses by threads %d (write, pc %lx) and %d (%s, pc %lx)", c.wT, (uintptr_t) c.wPc, cur, write ? "write" : "read", pc));
        }
        if (write)
            for (int t = 0; t < N; ++t)
                if (t != cur && c.rC[t] && (c.lanesR[t] & lanes)) {
                    bool hb = c.rC[t] <= me[t];
                    if (!hb || (atomic && (c.rAtomic >> t & 1))) { notePc(c.rPc[t]); notePc(pc); }
                    if (!hb && !(atomic && (c.rAtomic >> t & 1)) && opt.reportRaces && !listed(c.rPc[t], pc))
                        die("data-race", mc::fmt("unordered accesses by threads %d (read, pc %lx) and %d (write, pc %lx)", t, (uintptr_t) c.rPc[t], cur, pc));
                }
        if (write) {
            c.wT = cur;
            c.wC = me[cur];
            c.wPc = pc;
            c.wAtomic = atomic;
            c.lanesW = lanes;
        } else {
            c.rC[cur] = me[cur];
            c.rPc[cur] = pc;
            c.rAtomic = (uint8_t) ((c.rAtomic & ~(1 << cur)) | atomic << cur);
            c.lanesR[cur] = lanes;
        }
        a = end;
    }
}

bool interesting(uintptr_t a) {
    if (tlsSize && a >= (uintptr_t) tlsAddr && a < (uintptr_t) tlsAddr + tlsSize) return false;
    // own stack: only data other threads know about could conflict; it is kept, private data never conflicts
    return true;
}

void wakeSpinners() { for (int i = 0; i < N; ++i) if (i != cur) { fb[i].spinning = false; } }

void stamp() {
    if (fb[cur].opB) {
        *fb[cur].opB = ++clockT;
        fb[cur].opB = nullptr;
    }
}

// a switch may happen here
void point(bool mustLeave = false) {
    quietEvents = 0;
    if (++steps > opt.maxSteps) die("livelock", mc::fmt("no termination within %llu scheduling points", (unsigned long long) opt.maxSteps));
    std::vector<int> en;
    if (!mustLeave) en.push_back(cur);
    for (int i = 0; i < N; ++i) if (i != cur && !fb[i].done && !fb[i].blocked && !fb[i].spinning) en.push_back(i);
    if (mustLeave && en.empty()) {
        bool any = false;
        for (int i = 0; i < N; ++i) if (!fb[i].done && !fb[i].blocked && i != cur) { any = true; fb[i].spinning = false; fb[i].reads.clear(); en.push_back(i); }
        if (!any) {
            if (!fb[cur].blocked) { fb[cur].spinning = false; fb[cur].reads.clear(); return; }   // alone: spin on until maxSteps
            die("deadlock", "every thread waits for a lock");
        }
    }
    int to;
    if (en.size() == 1) to = en[0];
    else if (mustLeave) to = en[ch->pick((int) en.size())];
    else if (ch->used >= ch->bound) to = en[0];
    else to = en[ch->dev((int) en.size())];
    if (to != cur) {
        swapTo(to);
    }
    stamp();
}

bool enter() { return active && cur >= 0 && !inRt; }

// after a read whose value is val
void spinCheck(uintptr_t pc, uintptr_t addr, uint64_t val) {
    auto &r = fb[cur].reads;
    for (auto &x : r)
        if (x.pc == pc && x.addr == addr) {
            if (x.val == val) {
                if (++x.times >= 3) {
                    fb[cur].spinning = true;
                    for (auto &y : r) y.times = 0;
                    point(true);
                }
            } else {
                x.val = val;
                x.times = 0;
            }
            return;
        }
    if (r.size() < 64) r.push_back(Fiber::Rd{pc, addr, val, 0});
}

// a thread that runs on and on without a scheduling point may wait for another one at an instruction
// that is not known yet: make it known and start over
void invisible(uintptr_t pc) {
    if (++quietEvents < 300000) return;
    quietEvents = 0;
    visible.erase(pc);
    pending.insert(pc);
    die("restart", "");
}

void plain(uintptr_t addr, size_t size, bool write, uintptr_t pc) {
    if (!enter() || noSched || !interesting(addr)) return;
    inRt = true;
    bool vis = visible.count(pc) > 0;
    if (!vis) invisible(pc);
    if (vis) point();
    if (vis && !write && size <= 8) {
        uint64_t v = 0;
        memcpy(&v, (void *) addr, size);
        spinCheck(pc, addr, v);
    }
    access(addr, size, write, false, pc);
    if (vis && write) { fb[cur].reads.clear(); wakeSpinners(); }
    inRt = false;
}

bool isAcq(int mo) { return mo == __ATOMIC_ACQUIRE || mo == __ATOMIC_CONSUME || mo == __ATOMIC_ACQ_REL || mo == __ATOMIC_SEQ_CST; }

bool isRel(int mo) { return mo == __ATOMIC_RELEASE || mo == __ATOMIC_ACQ_REL || mo == __ATOMIC_SEQ_CST; }

// before an atomic operation; returns whether bookkeeping is on
bool atomicPre(uintptr_t addr, uintptr_t pc) {
    if (!enter() || noSched) return false;
    inRt = true;
    if (visible.count(pc)) point(); else invisible(pc);
    return true;
}

void atomicPost(uintptr_t addr, size_t size, bool read, bool write, int mo, uintptr_t pc, uint64_t val) {
    if (write) {
        access(addr, size, true, true, pc);
        if (read && isAcq(mo)) acquire(addr);
        if (isRel(mo)) release(addr, read); // a read-modify-write continues the release sequence
        else if (!read) syncs.erase(addr);  // a relaxed store ends it
        fb[cur].reads.clear();
        wakeSpinners();
    } else {
        if (visible.count(pc)) spinCheck(pc, addr, val); // may switch, the caller reads the value afterwards
        access(addr, size, false, true, pc);
        if (isAcq(mo)) acquire(addr);
    }
    inRt = false;
}

// a read-modify-write that left the value as it was: like a read, it may be one round of a spin lock
void atomicSame(uintptr_t addr, size_t size, int mo, uintptr_t pc, uint64_t val) {
    access(addr, size, true, true, pc);
    if (isAcq(mo)) acquire(addr);
    if (isRel(mo)) release(addr, true);
    if (visible.count(pc)) spinCheck(pc, addr, val);
    inRt = false;
}

// ---- mutexes
struct Mtx { int owner = -1; int depth = 0; };
std::unordered_map<const void *, Mtx> mtx;

void lockM(const void *m, bool recursive) {
    inRt = true;
    point();
    while (true) {
        Mtx &x = mtx[m];
        if (x.owner < 0) { x.owner = cur; x.depth = 1; break; }
        if (x.owner == cur && recursive) { ++x.depth; break; }
        if (x.owner == cur) die("deadlock", "a thread locks a mutex it already holds");
        fb[cur].blocked = true;
        fb[cur].waitOn = m;
        point(true);
    }
    acquire((uintptr_t) m);
    fb[cur].reads.clear();
    inRt = false;
}

void unlockM(const void *m) {
    inRt = true;
    Mtx &x = mtx[m];
    if (x.owner != cur) { die("unlock", "a thread unlocks a mutex it does not hold"); }
    if (--x.depth == 0) {
        x.owner = -1;
        release((uintptr_t) m, false);
        for (int i = 0; i < N; ++i) if (fb[i].blocked && fb[i].waitOn == m) fb[i].blocked = false;
        wakeSpinners();
    }
    inRt = false;
}

bool trylockM(const void *m) {
    inRt = true;
    point();
    Mtx &x = mtx[m];
    bool ok = x.owner < 0;
    if (ok) { x.owner = cur; x.depth = 1; acquire((uintptr_t) m); fb[cur].reads.clear(); }
    else spinCheck(1, (uintptr_t) m, 1);
    inRt = false;
    return ok;
}

int me() { return cur; }                // mtbb::Policy has a member of this name

struct SPolicy : mtbb::Policy {
    void sync(const void *addr, bool write) override {
        if (!enter()) return;
        inRt = true;
        if (noSched == 0) point();
        acquire((uintptr_t) addr);
        if (write) { release((uintptr_t) addr, true); fb[me()].reads.clear(); wakeSpinners(); }
        inRt = false;
    }
    void begin(const void *addr, bool write) override { sync(addr, write); if (active && me() >= 0) ++noSched; }
    void end(const void *) override { if (active && me() >= 0 && noSched) --noSched; }
    bool lock(const void *m) override { if (!enter()) return false; lockM(m, false); return true; }
    bool unlock(const void *m) override { if (!active || me() < 0) return false; unlockM(m); return true; }
    int tryLock(const void *m) override { if (!enter()) return -1; return trylockM(m); }
    int self() override { return me() < 0 ? 0 : me(); }
    int worker() override { return self(); }      // loops inside of a logical thread belong to it
    void become(int) override {}
};
SPolicy thePolicy;

int tlsCb(dl_phdr_info *info, size_t, void *) {
    // the first object is the executable
    for (int i = 0; i < info->dlpi_phnum; ++i)
        if (info->dlpi_phdr[i].p_type == PT_TLS) {
            tlsSize = info->dlpi_phdr[i].p_memsz;
            size_t al = info->dlpi_phdr[i].p_align ? info->dlpi_phdr[i].p_align : 1;
            uintptr_t fs;
            asm("mov %%fs:0, %0" : "=r"(fs));
            size_t sz = (tlsSize + al - 1) / al * al;
            tlsAddr = (char *) (fs - sz);
        }
    return 1;
}

} // namespace

namespace sched {

uint64_t now() { return ++clockT; }

void boundary() { if (cur >= 0) fb[cur].reads.clear(); ++clockT; }

void opBegin(uint64_t *b) { if (cur >= 0) fb[cur].opB = b; else *b = ++clockT; }

void opEnd() { if (cur >= 0) stamp(); }

Quiet::Quiet() : old(inRt) { inRt = true; }

Quiet::~Quiet() { inRt = old; }

int self() { return cur; }

uint64_t points() { return steps; }

uint64_t switches() { return nswitch; }

mtbb::Policy *policy() { return &thePolicy; }

static std::vector<char> *tlsPristine;   // a pointer: Setup may run before the initialisers of this file

void run(mc::Choice &c, std::vector<std::function<void()>> bodies, const Options &o) {
    ch = &c;
    opt = o;
    N = (int) bodies.size();
    if (N > MAXT) throw std::logic_error("too many threads");
    fb.clear();
    fb.resize(N);
    steps = nswitch = clockT = quietEvents = 0;
    failKey.clear();
    failMsg.clear();
    aborting = false;
    ++epochNo;
    shadowUsed = 0;
    syncs.clear();
    mtx.clear();
    noSched = 0;
    for (int i = 0; i < N; ++i) {
        Fiber &f = fb[i];
        f.body = bodies[i];
        if (stackPool.empty()) {
            char *s = (char *) mmap(nullptr, STK, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS, -1, 0);
            mprotect(s, 4096, PROT_NONE);
            stackPool.push_back(s);
        }
        f.stack = stackPool.back();
        stackPool.pop_back();
        if (tlsPristine) f.tls = *tlsPristine;
        for (int t = 0; t < MAXT; ++t) f.vc[t] = t == i ? 1 : 0;
        uintptr_t *sp = (uintptr_t *) (f.stack + STK - 64);
        *--sp = 0;
        *--sp = (uintptr_t) &entry;
        for (int k = 0; k < 6; ++k) *--sp = 0;
        --sp;
        uint32_t mx;
        uint16_t cw;
        asm volatile("stmxcsr %0" : "=m"(mx));
        asm volatile("fnstcw %0" : "=m"(cw));
        ((uint32_t *) sp)[0] = mx;
        ((uint32_t *) sp)[1] = cw;
        f.sp = sp;
    }
    mtbb::Policy *old = mtbb::policyPtr();
    mtbb::policyPtr() = &thePolicy;
    int first = order(N);
    active = true;
    inRt = false;
    swapTo(first);
    // the last fiber to leave finds nobody else: all are done, or wait for ever
    if (!aborting)
        for (auto &f : fb) if (!f.done) { aborting = true; failKey = "deadlock"; failMsg = "threads wait for locks that nobody releases"; }
    active = false;
    mtbb::policyPtr() = old;
    if (aborting && failKey == "restart") {
        freedClear();
        quarantine.clear();
        throw mc::Skip();
    }
    if (aborting) {
        std::string k = failKey + ":" + mc::R().curSc->name + ":" + mc::R().desc;
        mc::R().failNow(k, failKey + ": " + failMsg);   // returns for known findings only
        freedClear();
        quarantine.clear();
        throw mc::Known();
    }
    for (auto &f : fb) stackPool.push_back(f.stack);
    freedClear();
    for (void *p : quarantine) free(p);
    quarantine.clear();
    for (auto &f : fb) if (f.ex) std::rethrow_exception(f.ex);
    mc::transition(steps + N);
    mc::count("scheduling_points", steps);
    mc::count("context_switches", nswitch);
    if (opt.reportRaces) mc::count("race_checked_executions");
}

Setup::Setup() {
    static bool once = false;
    if (once) return;
    once = true;
    __libc_single_threaded = 0;
    mc::Hooks &h = mc::hooks();
    h.grew = []() {
        bool g = !pending.empty();
        for (auto p : pending) visible.insert(p);
        pending.clear();
        return g;
    };
    h.reset = []() { visible.clear(); pending.clear(); };
    h.save = []() {
        std::string s;
        for (auto p : visible) s += mc::fmt("%lx ", (unsigned long) p);
        return s;
    };
    h.load = [](const std::string &s) {
        std::stringstream ss(s);
        std::string t;
        while (ss >> t) visible.insert(strtoul(t.c_str(), nullptr, 16));
    };
    dl_iterate_phdr(tlsCb, nullptr);
    if (tlsSize) tlsPristine = new std::vector<char>(tlsAddr, tlsAddr + tlsSize);
}

} // namespace sched

// ---- allocation: freed blocks stay unmapped for the code under test until the execution is over
static void *allocate(size_t n) {
    void *p = malloc(n ? n : 1);
    if (!p) abort();
    if (active && cur >= 0) forget((uintptr_t) p, n);
    return p;
}

static void deallocate(void *p) {
    if (!p) return;
    if (active && cur >= 0 && !inRt) {
        size_t n = malloc_usable_size(p);
        if (!noSched) {
            // freeing is a write to the whole block
            plain((uintptr_t) p, std::min<size_t>(n, 64), true, (uintptr_t) __builtin_return_address(0));
        }
        inRt = true;
        if (freedMap.count((uintptr_t) p)) die("double-free", "a block is freed twice");
        freedAdd((uintptr_t) p, n);
        quarantine.push_back(p);
        inRt = false;
        return;
    }
    free(p);
}

void *operator new(size_t n) { return allocate(n); }
void *operator new[](size_t n) { return allocate(n); }
void *operator new(size_t n, const std::nothrow_t &) noexcept { return allocate(n); }
void *operator new[](size_t n, const std::nothrow_t &) noexcept { return allocate(n); }
void operator delete(void *p) noexcept { deallocate(p); }
void operator delete[](void *p) noexcept { deallocate(p); }
void operator delete(void *p, size_t) noexcept { deallocate(p); }
void operator delete[](void *p, size_t) noexcept { deallocate(p); }

#define PC ((uintptr_t) __builtin_return_address(0))
extern "C" {
void __tsan_init() {}
void __tsan_func_entry(void *) {}
void __tsan_func_exit() {}
void __tsan_ignore_thread_begin() {}
void __tsan_ignore_thread_end() {}
#define RW(n)                                                                     \
    void __tsan_read##n(void *a) { plain((uintptr_t) a, n, false, PC); }            \
    void __tsan_write##n(void *a) { plain((uintptr_t) a, n, true, PC); }            \
    void __tsan_unaligned_read##n(void *a) { plain((uintptr_t) a, n, false, PC); }  \
    void __tsan_unaligned_write##n(void *a) { plain((uintptr_t) a, n, true, PC); }  \
    void __tsan_volatile_read##n(void *a) { plain((uintptr_t) a, n, false, PC); }   \
    void __tsan_volatile_write##n(void *a) { plain((uintptr_t) a, n, true, PC); }   \
    void __tsan_read_write##n(void *a) { plain((uintptr_t) a, n, false, PC); plain((uintptr_t) a, n, true, PC); }
RW(1) RW(2) RW(4) RW(8) RW(16)
void __tsan_read_range(void *a, unsigned long n) { plain((uintptr_t) a, n, false, PC); }
void __tsan_write_range(void *a, unsigned long n) { plain((uintptr_t) a, n, true, PC); }
void __tsan_vptr_update(void **a, void *) { plain((uintptr_t) a, 8, true, PC); }
void __tsan_vptr_read(void **a) { plain((uintptr_t) a, 8, false, PC); }
void __tsan_atomic_thread_fence(int) {}
void __tsan_atomic_signal_fence(int) {}

#define AT(bits, T)                                                                                         \
    T __tsan_atomic##bits##_load(const volatile T *a, int mo) {                                               \
        bool b = atomicPre((uintptr_t) a, PC);                                                                \
        T v = *a;                                                                                             \
        if (b) { atomicPost((uintptr_t) a, sizeof(T), true, false, mo, PC, (uint64_t) v); v = *a; }           \
        return v;                                                                                             \
    }                                                                                                         \
    void __tsan_atomic##bits##_store(volatile T *a, T v, int mo) {                                            \
        bool b = atomicPre((uintptr_t) a, PC);                                                                \
        *a = v;                                                                                               \
        if (b) atomicPost((uintptr_t) a, sizeof(T), false, true, mo, PC, 0);                                  \
    }                                                                                                         \
    T __tsan_atomic##bits##_exchange(volatile T *a, T v, int mo) {                                            \
        bool b = atomicPre((uintptr_t) a, PC);                                                                \
        T o = *a;                                                                                             \
        *a = v;                                                                                               \
        if (b && o == v) atomicSame((uintptr_t) a, sizeof(T), mo, PC, (uint64_t) o);                          \
        else if (b) atomicPost((uintptr_t) a, sizeof(T), true, true, mo, PC, 0);                              \
        return o;                                                                                             \
    }                                                                                                         \
    static bool cas##bits(volatile T *a, T *c, T v, int mo, int fmo, uintptr_t pc) {                          \
        bool b = atomicPre((uintptr_t) a, pc);                                                                \
        T o = *a;                                                                                             \
        bool ok = o == *c;                                                                                    \
        if (ok) *a = v;                                                                                       \
        else *c = o;                                                                                          \
        if (b) atomicPost((uintptr_t) a, sizeof(T), true, ok, ok ? mo : fmo, pc, (uint64_t) o);               \
        return ok;                                                                                            \
    }                                                                                                         \
    int __tsan_atomic##bits##_compare_exchange_strong(volatile T *a, T *c, T v, int mo, int fmo) { return cas##bits(a, c, v, mo, fmo, PC); } \
    int __tsan_atomic##bits##_compare_exchange_weak(volatile T *a, T *c, T v, int mo, int fmo) { return cas##bits(a, c, v, mo, fmo, PC); }   \
    T __tsan_atomic##bits##_compare_exchange_val(volatile T *a, T c, T v, int mo, int fmo) { cas##bits(a, &c, v, mo, fmo, PC); return c; }
#define RMW(bits, T, name, expr)                                                   \
    T __tsan_atomic##bits##_fetch_##name(volatile T *a, T v, int mo) {               \
        bool b = atomicPre((uintptr_t) a, PC);                                       \
        T o = *a;                                                                    \
        *a = (T) (expr);                                                             \
        if (b && (T) (expr) == o) atomicSame((uintptr_t) a, sizeof(T), mo, PC, (uint64_t) o); \
        else if (b) atomicPost((uintptr_t) a, sizeof(T), true, true, mo, PC, 0);          \
        return o;                                                                    \
    }
#define ALL(bits, T) AT(bits, T) RMW(bits, T, add, o + v) RMW(bits, T, sub, o - v) RMW(bits, T, and, o & v) RMW(bits, T, or, o | v) RMW(bits, T, xor, o ^ v) RMW(bits, T, nand, ~(o & v))
ALL(8, unsigned char)
ALL(16, unsigned short)
ALL(32, unsigned int)
ALL(64, unsigned long)
typedef unsigned __int128 u128;
ALL(128, u128)

// --wrap=...
int __real_pthread_mutex_lock(pthread_mutex_t *);
int __real_pthread_mutex_unlock(pthread_mutex_t *);
int __real_pthread_mutex_trylock(pthread_mutex_t *);
int __wrap_pthread_mutex_lock(pthread_mutex_t *m) {
    if (!enter()) return __real_pthread_mutex_lock(m);
    lockM(m, (m->__data.__kind & 3) == PTHREAD_MUTEX_RECURSIVE);
    return 0;
}
int __wrap_pthread_mutex_unlock(pthread_mutex_t *m) {
    if (!(active && cur >= 0)) return __real_pthread_mutex_unlock(m);
    unlockM(m);
    return 0;
}
int __wrap_pthread_mutex_trylock(pthread_mutex_t *m) {
    if (!enter()) return __real_pthread_mutex_trylock(m);
    return trylockM(m) ? 0 : 16;
}
int __wrap_sched_yield() {
    if (!enter()) return 0;
    inRt = true;
    fb[cur].spinning = true;
    bool other = false;
    for (int i = 0; i < N; ++i) if (i != cur && !fb[i].done && !fb[i].blocked && !fb[i].spinning) other = true;
    if (other) point(true);
    fb[cur].spinning = false;
    inRt = false;
    return 0;
}
pthread_t __real_pthread_self();
pthread_t __wrap_pthread_self() {
    if (active && cur >= 0) return (pthread_t) (0x1000 + cur * 16);
    return __real_pthread_self();
}
}
