// Runs random scenarios over a ScheduledThreadPool and prints what happened, one event per line.
// The offline checker is checks/T02.py; nothing is judged here apart from waits that never end.
#include <atomic>
#include <chrono>
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <future>
#include <functional>
#include <memory>
#include <mutex>
#include <stdexcept>
#include <string>
#include <thread>
#include <vector>
#include <unistd.h>
#include <sys/syscall.h>
#include "utils/thread/ScheduledThreadPool.h"

// libstdc++ counts the references of exceptions in code that is not instrumented
extern "C" const char *__tsan_default_suppressions() { return "race:std::__exception_ptr::exception_ptr::_M_release\n"; }
extern "C" const char *__tsan_default_options() { return "halt_on_error=0:exitcode=0:history_size=4"; }

#ifdef DELAYS
// Stretches the moments between deciding to wait and waiting, and around every lock.
#include <dlfcn.h>
#include <pthread.h>
#include <sched.h>
#include <time.h>
static std::atomic<unsigned> delayed{0};
static void delay(unsigned every) {
    static thread_local unsigned state = 0;
    static std::atomic<unsigned> threads{1};
    if (!state) state = 2654435761u * threads.fetch_add(1, std::memory_order_relaxed) + (unsigned) getpid();
    state = state * 1664525u + 1013904223u;
    unsigned r = state >> 12;
    if (r % every) return;
    delayed.fetch_add(1, std::memory_order_relaxed);
    if (r % 3 == 0) sched_yield();
    else { timespec t{0, (long) (r % 7 * 60000 + 1000)}; nanosleep(&t, nullptr); }
}
template<typename F> static F real(const char *name) { return (F) dlsym(RTLD_NEXT, name); }
extern "C" int pthread_cond_wait(pthread_cond_t *c, pthread_mutex_t *m) {
    static auto f = (int (*)(pthread_cond_t *, pthread_mutex_t *)) dlvsym(RTLD_NEXT, "pthread_cond_wait", "GLIBC_2.3.2");
    delay(3);
    return f(c, m);
}
extern "C" int pthread_mutex_lock(pthread_mutex_t *m) {
    static auto f = real<int (*)(pthread_mutex_t *)>("pthread_mutex_lock");
    delay(24);
    return f(m);
}
extern "C" int pthread_mutex_unlock(pthread_mutex_t *m) {
    static auto f = real<int (*)(pthread_mutex_t *)>("pthread_mutex_unlock");
    int r = f(m);
    delay(24);
    return r;
}
#endif

using Clock = std::chrono::steady_clock;
static const int PATIENCE = 40;  // seconds until a wait counts as endless

struct Rng {
    uint64_t s;
    explicit Rng(uint64_t seed) : s(seed * 0x9E3779B97F4A7C15ull + 0xD1B54A32D192ED03ull) { for (int i = 0; i < 8; i++) next(); }
    uint64_t next() { s ^= s << 13; s ^= s >> 7; s ^= s << 17; return s * 0x2545F4914F6CDD1Dull; }
    unsigned below(unsigned n) { return (unsigned) ((next() >> 33) % n); }
    template<size_t N> int pick(const int (&v)[N]) { return v[below(N)]; }
};

enum { SUBMIT, SUBMITTED, START, END, DESTROY, DESTROYED };
static const char *EVENTS[] = {"submit", "submitted", "start", "end", "destroy", "destroyed"};

struct Event { int type, id; long thread; };
static std::vector<Event> events;
static std::atomic<size_t> used{0};

static long self() { static thread_local long id = syscall(SYS_gettid); return id; }

static void record(int type, int id) {
    // relaxed: the log must not order what the pool fails to order
    size_t i = used.fetch_add(1, std::memory_order_relaxed);
    if (i < events.size()) events[i] = Event{type, id, self()};
}

// an object every task carries: none may outlive the pool and the futures
struct Token {
    static std::atomic<long> alive;
    static std::atomic<long> made;
    int id;
    std::vector<int> data;
    explicit Token(int i) : id(i), data(8 + i % 5, i) { alive.fetch_add(1, std::memory_order_relaxed); made.fetch_add(1, std::memory_order_relaxed); }
    Token(const Token &o) : id(o.id), data(o.data) { alive.fetch_add(1, std::memory_order_relaxed); made.fetch_add(1, std::memory_order_relaxed); }
    ~Token() { for (int &x : data) x = -1; alive.fetch_sub(1, std::memory_order_relaxed); }
    Token &operator=(const Token &) = delete;
    int value() const { long s = 0; for (int x : data) s += x; return s == (long) id * (long) data.size() ? id : -1000000; }
};
std::atomic<long> Token::alive{0};
std::atomic<long> Token::made{0};

struct Failure : std::runtime_error {
    int id;
    explicit Failure(int i) : std::runtime_error("failure " + std::to_string(i)), id(i) {}
};

enum Kind { INT, VOID, VOIDT, THROW, STRING, UNIQUE, REF, THROWINT, EMPTY, NEST, NESTWAIT, SLEEP, BIG, KINDS };
static const char *NAMES[] = {"int", "void", "voidt", "throw", "string", "unique", "ref", "throwint", "empty", "nest", "nestwait",
                              "sleep", "big"};

struct Big { long v[40]; };
static int refs[1 << 18];

struct Task {
    int id = 0, kind = 0, pause = 0, child = -1, dead = 0;
    std::string outcome = "none";
    // one of these is in use
    std::future<int> fi; std::future<void> fv; std::future<std::string> fs; std::future<std::unique_ptr<int>> fu;
    std::future<int &> fr; std::future<Big> fb;
};

static void stuck(const char *what, int id) {
    printf("stuck %s %d\n", what, id);
    fflush(stdout);
    _exit(0);
}

template<typename F>
static bool ready(F &f, int seconds) { return f.wait_for(std::chrono::seconds(seconds)) == std::future_status::ready; }

template<typename F, typename G>
static void collect_one(Task &t, F &f, G get) {
    if (!f.valid()) { t.outcome = "invalid"; return; }
    if (!ready(f, PATIENCE)) stuck("future", t.id);
    try { t.outcome = get(f); }
    catch (Failure &e) { t.outcome = e.what() == "failure " + std::to_string(e.id) ? "failure:" + std::to_string(e.id) : "failure:mangled"; }
    catch (int e) { t.outcome = "int:" + std::to_string(e); }
    catch (std::bad_function_call &) { t.outcome = "bad_function_call"; }
    catch (std::future_error &e) { t.outcome = e.code() == std::future_errc::broken_promise ? "broken" : "future_error"; }
    catch (std::exception &e) { t.outcome = std::string("exception:") + e.what(); }
    catch (...) { t.outcome = "unknown"; }
}

static void collect(Task &t) {
    switch (t.kind) {
    case VOID: case VOIDT: case EMPTY: collect_one(t, t.fv, [](auto &f) { f.get(); return std::string("void"); }); break;
    case STRING: collect_one(t, t.fs, [](auto &f) { return "string:" + f.get(); }); break;
    case UNIQUE: collect_one(t, t.fu, [](auto &f) { return "unique:" + std::to_string(*f.get()); }); break;
    case REF: collect_one(t, t.fr, [](auto &f) { int &r = f.get(); return "ref:" + std::to_string(&r - refs) + ":" + std::to_string(r); }); break;
    case BIG: collect_one(t, t.fb, [](auto &f) { Big b = f.get(); for (long x : b.v) if (x != b.v[0]) return std::string("big:torn"); return "big:" + std::to_string(b.v[0]); }); break;
    default: collect_one(t, t.fi, [](auto &f) { return "int:" + std::to_string(f.get()); });
    }
}

static void wait_only(Task &t) {
    auto w = [&](auto &f) { if (f.valid() && !ready(f, PATIENCE)) stuck("future", t.id); };
    switch (t.kind) {
    case VOID: case VOIDT: case EMPTY: w(t.fv); break;
    case STRING: w(t.fs); break;
    case UNIQUE: w(t.fu); break;
    case REF: w(t.fr); break;
    case BIG: w(t.fb); break;
    default: w(t.fi);
    }
}

static void drop(Task &t) {
    t.fi = {}; t.fv = {}; t.fs = {}; t.fu = {}; t.fr = {}; t.fb = {};
    t.outcome = "dropped";
}

static void pause_for(int pause) {
    if (pause == 1) std::this_thread::yield();
    else if (pause == 2) std::this_thread::sleep_for(std::chrono::microseconds(50));
    else if (pause == 3) std::this_thread::sleep_for(std::chrono::microseconds(700));
}

struct Run {
    int id;
    explicit Run(const Token &t) : id(t.value()) { record(START, id); }
    ~Run() { record(END, id); }
};

static std::vector<Task> tasks;
static std::vector<int> counters;

static void submit(ScheduledThreadPool &pool, Task &t);

static void body(int id, int pause) {
    if (id >= 0) counters[id]++;  // a second run at the same time is a race
    pause_for(pause);
}

static void submit(ScheduledThreadPool &pool, Task &t) {
    const int id = t.id, pause = t.pause;
    Token token(id);
    record(SUBMIT, id);
    switch (t.kind) {
    case INT: case SLEEP: {
        std::function<int()> f = [token, pause]() { Run r(token); body(r.id, pause); return token.value() * 7 + 1; };
        t.fi = pool.submit(f);
        f = []() { return -1; };
        break;
    }
    case VOID: {
        std::function<void()> f = [token, pause]() { Run r(token); body(r.id, pause); };
        t.fv = pool.submit(f);
        f = nullptr;
        break;
    }
    case VOIDT: {
        t.fv = pool.submit([token, pause]() { Run r(token); body(r.id, pause); });
        break;
    }
    case THROW: {
        t.fi = pool.submit<int>([token, pause]() -> int { Run r(token); body(r.id, pause); throw Failure(token.value()); });
        break;
    }
    case STRING: {
        t.fs = pool.submit<std::string>([token, pause]() { Run r(token); body(r.id, pause); return std::string(100 + r.id % 7, 'x') + std::to_string(token.value()); });
        break;
    }
    case UNIQUE: {
        t.fu = pool.submit<std::unique_ptr<int>>([token, pause]() { Run r(token); body(r.id, pause); return std::make_unique<int>(token.value()); });
        break;
    }
    case REF: {
        t.fr = pool.submit<int &>([token, pause]() -> int & { Run r(token); body(r.id, pause); refs[r.id] = r.id * 3; return refs[r.id]; });
        break;
    }
    case THROWINT: {
        t.fi = pool.submit<int>([token, pause]() -> int { Run r(token); body(r.id, pause); throw token.value(); });
        break;
    }
    case EMPTY: {
        std::function<void()> f;
        t.fv = pool.submit(f);
        break;
    }
    case NEST: {
        Task *child = &tasks[t.child];
        t.fi = pool.submit<int>([token, pause, child, &pool]() { Run r(token); body(r.id, pause); submit(pool, *child); return child->id; });
        break;
    }
    case NESTWAIT: {
        Task *child = &tasks[t.child];
        t.fi = pool.submit<int>([token, pause, child, &pool]() {
            Run r(token); body(r.id, pause); submit(pool, *child); wait_only(*child); return child->id; });
        break;
    }
    case BIG: {
        t.fb = pool.submit<Big>([token, pause]() { Run r(token); Big b; for (long &x : b.v) x = r.id; body(r.id, pause); return b; });
        break;
    }
    }
    record(SUBMITTED, id);
}

static void scenario(uint64_t seed, bool crowd) {
    Rng rng(seed);
    static const int threads_of[] = {1, 1, 1, 2, 2, 3, 4, 8, 0, -1};
    static const int many_of[] = {1, 2, 5, 12, 33, 90, 260, 0, -1};  // crowds: many threads, long queues
    const int k = crowd ? rng.pick(many_of) : rng.pick(threads_of);
    const int submitters = 1 + rng.below(crowd ? 9 : 4);
    static const int few[] = {0, 1, 2, 3, 10, 30, 120};
    static const int lots[] = {200, 300, 1100, 4000, 30000, 70000};
    const int most = rng.pick(lots);
    auto size_of = [&]() { return !crowd ? rng.pick(few) : rng.below(3) ? most / submitters + 1 : (int) rng.below(300); };
    const int style = rng.below(6);  // 0: everything is waited for, 1: destroyed at once, 2: after a while, 3: mixed, ...
    std::vector<std::vector<int>> plan(submitters);
    tasks.clear();
    int total = 0, waiters = 0;
    const int uniform = rng.below(3) ? -1 : (int) rng.below(KINDS);
    const bool lazy = !crowd && rng.below(3) == 0;
    std::vector<Task> made;
    for (int s = 0; s < submitters; s++) {
        int n = size_of();
        for (int i = 0; i < n; i++) {
            Task t;
            t.id = total++;
            t.kind = uniform >= 0 && rng.below(4) ? uniform : (int) rng.below(KINDS);
            if (t.kind == NESTWAIT && (style == 1 || style == 2 || (k < 0 ? waiters >= 1 : waiters >= k - 1))) t.kind = NEST;
            if (t.kind == NESTWAIT) waiters++;
            t.pause = lazy ? rng.below(4) : rng.below(crowd ? 4000 : 40) == 0 ? rng.below(4) : 0;
            if (crowd && t.kind == SLEEP) t.kind = INT;
            if (t.kind == SLEEP) t.pause = 2;
            plan[s].push_back(t.id);
            int parent = t.id;
            bool nested = t.kind == NEST || t.kind == NESTWAIT;
            if (nested) t.child = total;
            made.push_back(std::move(t));
            if (nested) {
                Task c;
                c.id = total++;
                static const int simple[] = {INT, VOID, THROW, STRING, UNIQUE, BIG};
                c.kind = rng.pick(simple);
                c.pause = rng.below(10) == 0 ? 1 : 0;
                c.dead = 1 + parent;  // submitted by its parent
                made.push_back(std::move(c));
            }
        }
    }
    tasks = std::move(made);
    counters.assign(total + 1, 0);
    events.assign((size_t) total * 4 + 64, Event{-1, 0, 0});
    used.store(0, std::memory_order_relaxed);
    const long alive = Token::alive.load();
    std::atomic<int> arrived{0};
    const unsigned waiting = rng.below(4);  // how submitters treat their futures
    const bool fewest = rng.below(2);
    const bool before = style != 1 && style != 2;  // every task is waited for before the pool goes
    printf("scenario %llu threads %d submitters %d tasks %d style %d\n", (unsigned long long) seed, k, submitters, total, style);
    {
        std::unique_ptr<ScheduledThreadPool> pool(k < 0 ? new ScheduledThreadPool() : new ScheduledThreadPool((unsigned) k));
        auto work = [&](int s) {
            Rng r(seed * 31 + s);
            if (submitters > 1 && fewest) {  // start together
                arrived.fetch_add(1, std::memory_order_relaxed);
                while (arrived.load(std::memory_order_relaxed) < submitters) std::this_thread::yield();
            }
            for (int id : plan[s]) {
                Task &t = tasks[id];
                submit(*pool, t);
                if (k != 0 && before && t.child < 0) {
                    if (waiting == 0 || (waiting == 1 && r.below(4) == 0)) collect(t);
                    else if (waiting == 2 && r.below(6) == 0) drop(t);
                }
                if (r.below(crowd ? 2000 : 20) == 0) pause_for(r.below(4));
            }
        };
        std::vector<std::thread> others;
        for (int s = 1; s < submitters; s++) others.emplace_back(work, s);
        work(0);
        for (auto &o : others) o.join();
        if (k != 0 && before) {
            // a parent's result makes its child's future visible
            for (auto &t : tasks) if (t.outcome == "none" && !t.dead) wait_only(t);
            for (auto &t : tasks) if (t.dead) { collect(tasks[t.dead - 1]); if (rng.below(2)) collect(t); else wait_only(t); }
            if (rng.below(2)) for (auto &t : tasks) if (t.outcome == "none") collect(t);
        } else if (style == 2) {
            pause_for(1 + rng.below(3));
        }
        record(DESTROY, -1);
        std::atomic<bool> gone{false};
        std::thread watch([&]() {
            auto until = Clock::now() + std::chrono::seconds(PATIENCE);
            while (!gone.load()) {
                if (Clock::now() > until) stuck("destructor", -1);
                std::this_thread::sleep_for(std::chrono::microseconds(300));
            }
        });
        pool.reset();
        gone.store(true);
        record(DESTROYED, -1);
        watch.join();
    }
    std::vector<bool> given(tasks.size(), false);
    for (size_t i = 0, n = std::min(used.load(), events.size()); i < n; i++)
        if (events[i].type == SUBMITTED && events[i].id >= 0) given[events[i].id] = true;
    for (auto &t : tasks) {
        if (t.outcome != "none") continue;
        if (t.dead && !given[t.id]) { t.outcome = "unsubmitted"; continue; }  // its parent never ran
        collect(t);
    }
    size_t n = std::min(used.load(), events.size());
    for (size_t i = 0; i < n; i++) printf("%s %d %ld\n", EVENTS[events[i].type], events[i].id, events[i].thread);
    for (auto &t : tasks) {
        std::string o = t.outcome;
        if (o.rfind("string:", 0) == 0) {
            std::string want = "string:" + std::string(100 + t.id % 7, 'x');
            o = o.compare(0, want.size(), want) == 0 ? "string:" + o.substr(want.size()) : "string:mangled";
        }
        printf("task %d %s %d %d %d %s\n", t.id, NAMES[t.kind], t.dead ? t.dead - 1 : -1, t.child, counters[t.id], o.c_str());
    }
    tasks.clear();
    printf("tokens %ld made %ld\n", Token::alive.load() - alive, Token::made.load());
    printf("done\n");
}

// k tasks that only end once all k of them run
static void together(uint64_t seed) {
    Rng rng(seed);
    const unsigned k = rng.below(5) ? 1 + rng.below(8) : 9 + rng.below(60);
    const bool preset = rng.below(6) == 0;
    const unsigned n = preset ? std::thread::hardware_concurrency() : k;
    printf("together %llu threads %u\n", (unsigned long long) seed, n);
    std::mutex m;
    std::condition_variable c;
    unsigned inside = 0;
    std::unique_ptr<ScheduledThreadPool> pool(preset ? new ScheduledThreadPool() : new ScheduledThreadPool(k));
    const int rounds = 1 + rng.below(4);
    for (int r = 0; r < rounds; r++) {
        {
            std::lock_guard<std::mutex> l(m);
            inside = 0;
        }
        std::vector<std::future<bool>> fs;
        for (unsigned i = 0; i < n; i++) {
            fs.push_back(pool->submit<bool>([&]() {
                std::unique_lock<std::mutex> l(m);
                if (++inside == n) c.notify_all();
                return c.wait_for(l, std::chrono::seconds(PATIENCE / 2), [&]() { return inside == n; });
            }));
            if (rng.below(4) == 0) pause_for(rng.below(4));
        }
        for (unsigned i = 0; i < n; i++) {
            if (!ready(fs[i], PATIENCE)) stuck("rendezvous", i);
            if (!fs[i].get()) { printf("alone %u of %u\n", inside, n); fflush(stdout); _exit(0); }
        }
        if (rng.below(2)) pause_for(2);
    }
    pool.reset();
    printf("met %u rounds %d\ndone\n", n, rounds);
}

int main(int argc, char **argv) {
    const std::string mode = argv[1];
    const uint64_t lo = strtoull(argv[2], nullptr, 10), hi = strtoull(argv[3], nullptr, 10);
    for (uint64_t s = lo; s < hi; s++) {
        if (mode == "together") together(s); else scenario(s, mode == "crowd");
        fflush(stdout);
    }
#ifdef DELAYS
    printf("delayed %u\n", delayed.load());
#endif
    printf("finished\n");
    return 0;
}
