// Small explicit-state / stateless model checker used by every harness.
//
// A model is a function that asks for its nondeterministic choices with choose(n) and reports
// broken properties with fail(). The explorer re-runs it until every combination of choices has
// been executed (depth-first, systematic, never sampled). state() counts distinct states (and can
// be used to prune), step() counts transitions of the implementation that were executed.
#ifndef VERIF_MC_HPP
#define VERIF_MC_HPP

#include <sys/mman.h>
#include <sys/time.h>
#include <sys/wait.h>
#include <unistd.h>
#include <fcntl.h>

#include <algorithm>
#include <csignal>
#include <ctime>
#include <cstdarg>
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <exception>
#include <fstream>
#include <functional>
#include <map>
#include <set>
#include <sstream>
#include <string>
#include <unordered_set>
#include <utility>
#include <vector>

#if defined(__SANITIZE_ADDRESS__)
extern "C" inline const char* __asan_default_options()
{
    return "exitcode=77:detect_leaks=0:abort_on_error=0:detect_stack_use_after_return=1:allocator_may_return_null=1";
}
#endif
extern "C" inline const char* __ubsan_default_options()
{
    return "exitcode=77:halt_on_error=1:print_stacktrace=1";
}

namespace mc
{

struct stop_execution  // thrown to abandon the current execution (after a failure or by prune())
{};

struct shared_trace  // lives in shared memory so that the parent can see it when a child dies
{
    volatile uint64_t executions;
    volatile uint32_t len;
    volatile int32_t  choice[4096];
    char              note[4096];
};

inline uint64_t hash_mix(uint64_t h, uint64_t v)
{
    h ^= v + 0x9e3779b97f4a7c15ull + (h << 6) + (h >> 2);
    h *= 0xff51afd7ed558ccdull;
    h ^= h >> 33;
    return h;
}
inline uint64_t hash_str(const std::string& s)
{
    uint64_t h = 1469598103934665603ull;
    for (unsigned char c : s)
    {
        h = (h ^ c) * 1099511628211ull;
    }
    return hash_mix(h, s.size());
}

// time of the first violation anywhere in this run (shared by all children); the rest of the exploration is cut short
// some time after it unless known findings are to be expected
inline volatile uint64_t* first_violation{nullptr};
inline uint64_t           now_ms()
{
    timespec t{};
    clock_gettime(CLOCK_MONOTONIC, &t);
    return static_cast<uint64_t>(t.tv_sec) * 1000u + static_cast<uint64_t>(t.tv_nsec) / 1000000u;
}
inline bool cut_short()
{
    return first_violation != nullptr && *first_violation != 0 && now_ms() - *first_violation > 20000;
}

struct violation
{
    std::string          key, msg;
    std::vector<int32_t> trace;
    std::string          notes;
};

class ctx
{
  public:
    bool     thorough{false};
    uint64_t executions{0}, transitions{0}, pruned{0};
    bool     replaying{false};
    bool     truncated{false};

    // 0 <= result < n; every value is explored
    int choose(int n)
    {
        if (n <= 0)
        {
            internal("choose(" + std::to_string(n) + ")");
        }
        int c = 0;
        if (pos < stack.size())
        {
            if (!replaying && stack[pos].second != n)
            {
                internal("nondeterministic model: " + std::to_string(stack[pos].second) + " choices became " +
                         std::to_string(n));
            }
            c = stack[pos].first;
            if (c >= n)
            {
                internal("replay does not fit the model");
            }
        }
        else
        {
            c = (pos == 0 && !replaying) ? shard : 0;
            if (c >= n)
            {
                throw stop_execution{};
            }
            stack.emplace_back(c, n);
        }
        if (sh != nullptr && pos < 4096)
        {
            sh->choice[pos] = c;
            sh->len         = static_cast<uint32_t>(pos + 1);
        }
        ++pos;
        return c;
    }
    // inclusive range
    int range(int lo, int hi)
    {
        return lo + choose(hi - lo + 1);
    }
    bool flip()
    {
        return choose(2) == 1;
    }
    template <class C>
    const typename C::value_type& pick(const C& c)
    {
        return c[static_cast<std::size_t>(choose(static_cast<int>(c.size())))];
    }
    void step(uint64_t n = 1)
    {
        transitions += n;
    }
    // returns true if this state had not been seen before
    bool state(uint64_t h)
    {
        if (seen.size() > max_states)
        {
            internal("too many states");
        }
        return seen.insert(h).second;
    }
    // for merging states: true if this state has to be explored from here. Prefixes that are run again only to reach
    // their next branch always are; a state that is new on this branch is explored, one seen elsewhere is not.
    bool fresh(uint64_t h)
    {
        if (replaying || pos < stack.size())
        {
            return true;
        }
        return state(h);
    }
    // true while a prefix that was executed (and checked) before is run again
    bool again() const
    {
        return !replaying && pos < stack.size();
    }
    bool state(const std::string& s)
    {
        return state(hash_str(s));
    }
    std::size_t states() const
    {
        return seen.size();
    }
    [[noreturn]] void prune()
    {
        ++pruned;
        throw stop_execution{};
    }
    void note(const std::string& s)  // remembered for the counterexample of this execution
    {
        if (notes.size() < 20000)
        {
            notes += s + "\n";
        }
        if (replaying)
        {
            std::printf("  %s\n", s.c_str());
        }
    }
    void sample(const std::string& s)
    {
        if (samples.size() < 6 && (executions < 3 || (executions & (executions - 1)) == 0))
        {
            samples.push_back(s.substr(0, 600));
        }
    }
    // key identifies the specific input/history for known-findings; msg is for humans
    [[noreturn]] void fail(const std::string& key, const std::string& msg)
    {
        report(key, msg);
        throw stop_execution{};
    }
    void check(bool ok, const std::string& key, const std::string& msg = "")
    {
        if (!ok)
        {
            fail(key, msg.empty() ? key : msg);
        }
    }
    template <class F>
    void check_lazy(bool ok, F&& f)
    {
        if (!ok)
        {
            const std::string m = f();
            fail(m, m);
        }
    }
    void report(const std::string& key, const std::string& msg)  // as fail, but go on with this execution
    {
        if (first_violation != nullptr && *first_violation == 0)
        {
            *first_violation = now_ms();
        }
        if (keys.insert(key).second && violations.size() < 400)
        {
            violation v{key, msg, {}, notes};
            for (std::size_t i = 0; i < pos; ++i)
            {
                v.trace.push_back(stack[i].first);
            }
            if (replaying)
            {
                std::printf("VIOLATED %s\n  %s\n", key.c_str(), msg.c_str());
            }
            violations.push_back(std::move(v));
        }
        ++violating_executions;
    }

    [[noreturn]] static void internal(const std::string& m)
    {
        std::fprintf(stderr, "MC-INTERNAL %s\n", m.c_str());
        std::fflush(stderr);
        _exit(3);
    }

    // ---- engine
    void run(const std::function<void(ctx&)>& model, int shard_, int nshards_)
    {
        shard   = shard_;
        nshards = nshards_;
        stack.clear();
        for (;;)
        {
            pos = 0;
            notes.clear();
            if (sh != nullptr)
            {
                sh->len        = 0;
                sh->executions = executions;
            }
            try
            {
                model(*this);
                ++executions;
            }
            catch (const stop_execution&)
            {
                ++executions;
            }
            catch (const std::exception& e)
            {
                ++executions;
                report(std::string{"unexpected exception: "} + e.what(), e.what());
            }
            if (violations.size() >= 300 || violating_executions > 200000 || cut_short())
            {
                truncated = true;
                break;
            }
            stack.resize(pos < stack.size() ? pos : stack.size());
            while (!stack.empty())
            {
                auto& [c, n] = stack.back();
                c += (stack.size() == 1) ? nshards : 1;
                if (c < n)
                {
                    break;
                }
                stack.pop_back();
            }
            if (stack.empty())
            {
                break;
            }
        }
    }
    void replay(const std::function<void(ctx&)>& model, const std::vector<int32_t>& t)
    {
        replaying = true;
        stack.clear();
        for (auto c : t)
        {
            stack.emplace_back(c, 1 << 30);
        }
        pos = 0;
        try
        {
            model(*this);
        }
        catch (const stop_execution&)
        {}
        catch (const std::exception& e)
        {
            report(std::string{"unexpected exception: "} + e.what(), e.what());
        }
    }

    std::vector<violation>   violations;
    std::vector<std::string> samples;
    shared_trace*            sh{nullptr};
    std::size_t              max_states{60'000'000};
    uint64_t                 violating_executions{0};

  private:
    std::vector<std::pair<int, int>> stack;
    std::size_t                      pos{0};
    int                              shard{0}, nshards{1};
    std::unordered_set<uint64_t>     seen;
    std::set<std::string>            keys;
    std::string                      notes;
};

struct model_t
{
    std::string               name, bound;
    std::function<void(ctx&)> fn;
    int                       shards{1};
    bool                      thorough_only{false};
};
inline std::vector<model_t>& models()
{
    static std::vector<model_t> m;
    return m;
}
inline int add_model(const std::string& name, const std::string& bound, std::function<void(ctx&)> f, int shards = 1,
                     bool thorough_only = false)
{
    models().push_back({name, bound, std::move(f), shards, thorough_only});
    return 0;
}

inline std::string jstr(const std::string& s)
{
    std::string o = "\"";
    for (unsigned char c : s)
    {
        if (c == '"' || c == '\\')
        {
            o += '\\';
            o += static_cast<char>(c);
        }
        else if (c < 0x20 || c >= 0x7f)
        {
            char b[8];
            std::snprintf(b, sizeof b, "\\u%04x", c);
            o += b;
        }
        else
        {
            o += static_cast<char>(c);
        }
    }
    return o + "\"";
}
inline std::string jvec(const std::vector<int32_t>& v)
{
    std::string o = "[";
    for (std::size_t i = 0; i < v.size(); ++i)
    {
        o += (i ? "," : "") + std::to_string(v[i]);
    }
    return o + "]";
}

inline shared_trace* watch_trace{nullptr};
inline uint64_t      watch_last{~0ull};
inline int           watch_same{0};
inline int           watch_limit{60};
__attribute__((no_sanitize_thread)) inline void on_tick(int)
{
    if (watch_trace == nullptr)
    {
        return;
    }
    if (watch_trace->executions == watch_last)
    {
        if (++watch_same > watch_limit)
        {
            _exit(78);
        }
    }
    else
    {
        watch_last = watch_trace->executions;
        watch_same = 0;
    }
}

inline void write_result(const std::string& file, const model_t& m, const ctx& c, int shard, double cpu)
{
    std::ofstream o{file};
    o << "{\"model\":" << jstr(m.name) << ",\"bound\":" << jstr(m.bound) << ",\"shard\":" << shard
      << ",\"executions\":" << c.executions << ",\"transitions\":" << c.transitions << ",\"states\":" << c.states()
      << ",\"pruned\":" << c.pruned << ",\"truncated\":" << (c.truncated ? "true" : "false") << ",\"cpu\":" << cpu
      << ",\"samples\":[";
    for (std::size_t i = 0; i < c.samples.size(); ++i)
    {
        o << (i ? "," : "") << jstr(c.samples[i]);
    }
    o << "],\"violations\":[";
    for (std::size_t i = 0; i < c.violations.size(); ++i)
    {
        const auto& v = c.violations[i];
        o << (i ? "," : "") << "{\"key\":" << jstr(v.key) << ",\"msg\":" << jstr(v.msg)
          << ",\"trace\":" << jvec(v.trace) << ",\"notes\":" << jstr(v.notes) << "}";
    }
    o << "]}\n";
}

// harness --out DIR [--thorough] [--jobs N] [--only MODEL] | --replay MODEL c,c,c
inline int run_main(int argc, char** argv)
{
    std::string out, only, rmodel, rtrace;
    bool        thorough = false;
    int         jobs     = 8;
    for (int i = 1; i < argc; ++i)
    {
        const std::string a = argv[i];
        if (a == "--out" && i + 1 < argc)
        {
            out = argv[++i];
        }
        else if (a == "--thorough")
        {
            thorough = true;
        }
        else if (a == "--jobs" && i + 1 < argc)
        {
            jobs = std::atoi(argv[++i]);
        }
        else if (a == "--only" && i + 1 < argc)
        {
            only = argv[++i];
        }
        else if (a == "--limit" && i + 1 < argc)
        {
            watch_limit = std::atoi(argv[++i]);
        }
        else if (a == "--replay" && i + 2 < argc)
        {
            rmodel = argv[++i];
            rtrace = argv[++i];
        }
    }
    if (!rmodel.empty())
    {
        std::vector<int32_t> t;
        std::stringstream    ss{rtrace};
        std::string          s;
        while (std::getline(ss, s, ','))
        {
            if (!s.empty())
            {
                t.push_back(std::atoi(s.c_str()));
            }
        }
        for (auto& m : models())
        {
            if (m.name == rmodel)
            {
                ctx c;
                c.thorough = thorough;
                c.replay(m.fn, t);
                return c.violations.empty() ? 0 : 1;
            }
        }
        std::fprintf(stderr, "no such model %s\n", rmodel.c_str());
        return 3;
    }

    struct job
    {
        const model_t* m;
        int            shard;
        shared_trace*  sh;
        pid_t          pid;
    };
    std::vector<job> todo;
    for (auto& m : models())
    {
        if ((!only.empty() && m.name != only) || (m.thorough_only && !thorough))
        {
            continue;
        }
        for (int s = 0; s < m.shards; ++s)
        {
            todo.push_back({&m, s, nullptr, 0});
        }
    }
    if (std::getenv("VERIF_NO_CUT") == nullptr)
    {
        first_violation = static_cast<volatile uint64_t*>(
            mmap(nullptr, sizeof(uint64_t), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0));
    }
    std::map<pid_t, job> running;
    std::size_t          next   = 0;
    int                  status = 0;
    while (next < todo.size() || !running.empty())
    {
        if (cut_short())
        {
            next = todo.size();
            if (running.empty())
            {
                break;
            }
        }
        while (next < todo.size() && static_cast<int>(running.size()) < jobs)
        {
            job j = todo[next++];
            j.sh  = static_cast<shared_trace*>(
                mmap(nullptr, sizeof(shared_trace), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0));
            const auto base = out + "/" + j.m->name + "." + std::to_string(j.shard);
            std::fflush(stdout);
            std::fflush(stderr);
            const pid_t p = fork();
            if (p == 0)
            {
                const int fd = open((base + ".log").c_str(), O_CREAT | O_WRONLY | O_TRUNC, 0644);
                dup2(fd, 1);
                dup2(fd, 2);
                watch_trace = j.sh;
                signal(SIGVTALRM, on_tick);
                itimerval it{{1, 0}, {1, 0}};
                setitimer(ITIMER_VIRTUAL, &it, nullptr);
                ctx c;
                c.thorough = thorough;
                c.sh       = j.sh;
                c.run(j.m->fn, j.shard, j.m->shards);
                write_result(base + ".json", *j.m, c, j.shard, static_cast<double>(clock()) / CLOCKS_PER_SEC);
                std::fflush(stdout);
                _exit(0);
            }
            j.pid      = p;
            running[p] = j;
        }
        int         st = 0;
        const pid_t p  = wait(&st);
        auto        it = running.find(p);
        if (it == running.end())
        {
            continue;
        }
        job j = it->second;
        running.erase(it);
        if (!(WIFEXITED(st) && WEXITSTATUS(st) == 0))
        {
            const bool internal = WIFEXITED(st) && WEXITSTATUS(st) == 3;
            const bool hang     = WIFEXITED(st) && WEXITSTATUS(st) == 78;
            const bool killed   = WIFSIGNALED(st) && WTERMSIG(st) == SIGKILL;
            if (internal || killed)
            {
                status = 3;
            }
            ctx       c;
            violation v;
            v.key = hang ? "does not terminate in model " + j.m->name : "crash in model " + j.m->name;
            v.msg = hang ? "one execution made no progress within the CPU limit" :
                           "the implementation crashed or a sanitizer stopped it (status " + std::to_string(st) +
                               "), see log";
            for (uint32_t k = 0; k < j.sh->len && k < 4096; ++k)
            {
                v.trace.push_back(static_cast<int32_t>(j.sh->choice[k]));
            }
            v.notes       = std::string{j.sh->note};
            c.executions  = j.sh->executions;
            c.truncated   = true;
            if (!internal && !killed)
            {
                if (first_violation != nullptr && *first_violation == 0)
                {
                    *first_violation = now_ms();
                }
                c.violations.push_back(v);
            }
            write_result(out + "/" + j.m->name + "." + std::to_string(j.shard) + ".json", *j.m, c, j.shard, 0);
        }
        munmap(j.sh, sizeof(shared_trace));
    }
    return status;
}

}  // namespace mc

#define MC_CAT2(a, b) a##b
#define MC_CAT(a, b)  MC_CAT2(a, b)
// MC_MODEL(name, bound-description, shards) { body using ctx c }
#define MC_MODEL(NAME, BOUND, SHARDS)                                                        \
    static void                   NAME(mc::ctx& c);                                          \
    [[maybe_unused]] static const int MC_CAT(NAME, _reg) = mc::add_model(#NAME, BOUND, NAME, SHARDS); \
    static void                   NAME([[maybe_unused]] mc::ctx& c)
#define MC_MODEL_THOROUGH(NAME, BOUND, SHARDS)                                               \
    static void                   NAME(mc::ctx& c);                                          \
    [[maybe_unused]] static const int MC_CAT(NAME, _reg) = mc::add_model(#NAME, BOUND, NAME, SHARDS, true); \
    static void                   NAME([[maybe_unused]] mc::ctx& c)

#ifndef MC_NO_MAIN
int main(int argc, char** argv)
{
    return mc::run_main(argc, argv);
}
#endif

#endif
