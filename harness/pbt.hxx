// Small property-based testing engine (choice-sequence style, as in Hypothesis).
//
// Every random decision of a case is one bounded integer drawn from Src and
// recorded in memory shared with the parent process.  A case is a pure function
// of its choice sequence; the choice sequence of case i is a pure function of
// (seed, property, i).  Failures (oracle mismatch, unexpected exception, sanitizer
// report, signal, non-termination) are shrunk on the choice sequence, each
// candidate in a forked child, and written to a replay file.
#ifndef PBT_HXX
#define PBT_HXX

#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <string>
#include <vector>
#include <map>
#include <set>
#include <unordered_set>
#include <sstream>
#include <fstream>
#include <iostream>
#include <stdexcept>
#include <functional>
#include <algorithm>
#include <chrono>
#include <cmath>
#include <unistd.h>
#include <fcntl.h>
#include <signal.h>
#include <sys/mman.h>
#include <sys/wait.h>
#include <sys/time.h>
#include <sys/resource.h>
#include <sys/stat.h>
#include <sys/prctl.h>

namespace pbt {

enum { MAXCH = 1 << 16, MSGLEN = 1 << 15, CPU_LIMIT_S = 20 };

struct Shared
{
    volatile uint64_t caseIdx;
    volatile uint32_t n;        // choices used
    volatile int state;         // 0 idle, 1 running, 2 failed, 3 passed/discarded, 4 done
    volatile uint64_t minFail;  // only in the first Shared: lowest failing case so far
    uint32_t ch[MAXCH];
    char msg[MSGLEN];
};

struct Ctx;
inline Ctx *&current() { static Ctx *c = 0; return c; }

struct Fail : std::runtime_error { Fail(std::string const &s) : std::runtime_error(s) {} };
struct Discard {};

inline uint64_t mix(uint64_t x)
{
    x += 0x9e3779b97f4a7c15ull;
    x = (x ^ (x >> 30)) * 0xbf58476d1ce4e5b9ull;
    x = (x ^ (x >> 27)) * 0x94d049bb133111ebull;
    return x ^ (x >> 31);
}

struct Ctx
{
    Shared *sh;
    bool replay;                       // take choices from `in` instead of the RNG
    std::vector<uint32_t> in;
    uint64_t s;                        // RNG state
    bool nontriv;
    std::ostringstream text;           // human readable rendering of the case
    std::vector<std::string> labels;
    bool wantText;

    Ctx(Shared *sh_) : sh(sh_), replay(false), s(0), nontriv(false), wantText(true)
    { sh->n = 0; }

    // uniform in [0, n); 0 is the simplest value
    uint32_t u(uint32_t n)
    {
        if(n < 1) n = 1;
        if(sh->n >= MAXCH) throw Discard();
        uint32_t v;
        if(replay)
        {
            v = sh->n < in.size() ? in[sh->n] : 0;
            if(v >= n) v %= n;
        }
        else
        {
            s = mix(s);
            v = (uint32_t)(((s >> 32) * (uint64_t)n) >> 32);
        }
        sh->ch[sh->n] = v;
        sh->n = sh->n + 1;
        return v;
    }
    int i(int lo, int hi) { return lo + (int)u((uint32_t)(hi - lo + 1)); }
    // true with probability num/den; false is simpler
    bool p(int num, int den) { return u(den) >= (uint32_t)(den - num); }
    template<class V> typename V::value_type const &pick(V const &v) { return v[u(v.size())]; }

    void classify(std::string const &l, bool cond = true) { if(cond) labels.push_back(l); }
    void nontrivial(bool c = true) { if(c) nontriv = true; }
};

typedef std::function<void(Ctx &)> PropFn;

struct Registry
{
    static std::map<std::string, PropFn> &get()
    { static std::map<std::string, PropFn> r; return r; }
    static std::map<std::string, std::string> &rules()
    { static std::map<std::string, std::string> r; return r; }
    Registry(char const *n, PropFn f, char const *rule) { get()[n] = f; rules()[n] = rule; }
};

#define PROP(NAME, RULE) \
    static void prop_##NAME(pbt::Ctx &g); \
    static pbt::Registry reg_##NAME(#NAME, prop_##NAME, RULE); \
    static void prop_##NAME(pbt::Ctx &g)

#define REQUIRE(cond, what) do { if(!(cond)) { std::ostringstream o_; \
    o_ << what << "   [" << #cond << "]"; throw pbt::Fail(o_.str()); } } while(0)

inline void onDeath();
inline void vtalrm(int) {
    static const char m[] = "case did not terminate within the CPU limit\n";
    ssize_t r = write(2, m, sizeof(m)-1); (void)r;
    onDeath();
    _exit(78);
}

inline void armTimer(int secs)
{
    signal(SIGVTALRM, vtalrm);
    struct itimerval tv; memset(&tv, 0, sizeof tv);
    tv.it_value.tv_sec = secs;
    setitimer(ITIMER_VIRTUAL, &tv, 0);
}

extern "C" void __sanitizer_set_death_callback(void (*callback)(void));
inline void onDeath()
{
    if(!current()) return;
    std::string t = "\n--- case:\n" + current()->text.str();
    ssize_t r = write(2, t.c_str(), t.size()); (void)r;
}

// runs one case in this process; returns false on failure (message in sh->msg)
inline bool runCase(Ctx &c, PropFn const &f, bool &discarded)
{
    discarded = false;
    c.sh->msg[0] = 0;
    current() = &c;
    __sanitizer_set_death_callback(onDeath);
    try { f(c); }
    catch(Discard &) { discarded = true; }
    catch(std::exception &e)
    {
        std::string m = e.what();
        m += "\n--- case:\n" + c.text.str();
        strncpy(c.sh->msg, m.c_str(), MSGLEN - 1);
        c.sh->msg[MSGLEN-1] = 0;
        return false;
    }
    return true;
}

inline std::string slurpTail(std::string const &fn, size_t n = 6000)
{
    std::ifstream f(fn.c_str());
    std::stringstream s; s << f.rdbuf();
    std::string r = s.str();
    // prefer the first sanitizer line
    size_t p = r.find("ERROR: AddressSanitizer");
    if(p == std::string::npos) p = r.find("runtime error:");
    if(p != std::string::npos)
    {
        p = p > 200 ? p - 200 : 0;
        size_t q = r.find("--- case:", p);
        if(q == std::string::npos) return r.substr(p, n);
        return r.substr(p, std::min(n/2, q - p)) + "\n" + r.substr(q, n/2);
    }
    return r.size() > n ? r.substr(r.size() - n) : r;
}

inline std::string jesc(std::string const &s)
{
    std::string r;
    for(unsigned char ch : s)
        if(ch == '"' || ch == '\\') { r += '\\'; r += ch; }
        else if(ch == '\n') r += "\\n";
        else if(ch == '\t') r += "\\t";
        else if(ch < 32 || ch > 126) { char b[8]; snprintf(b, 8, "\\u%04x", ch); r += b; }
        else r += ch;
    return r;
}

struct Engine
{
    std::string prop, outFile, replayOut, tmpDir;
    PropFn fn;
    uint64_t seed, cases;
    int workers;

    Shared *mk()
    {
        void *m = mmap(0, sizeof(Shared), PROT_READ|PROT_WRITE, MAP_SHARED|MAP_ANONYMOUS, -1, 0);
        if(m == MAP_FAILED) { perror("mmap"); exit(2); }
        return (Shared *)m;
    }

    uint64_t caseSeed(uint64_t idx)
    {
        uint64_t h = mix(seed * 0x9e37u + 17);
        for(char ch : prop) h = mix(h ^ (unsigned char)ch);
        return mix(h ^ mix(idx));
    }

    // runs the choices in a child. true = fails
    bool candidate(Shared *sh, std::vector<uint32_t> const &ch, std::string &msg,
                   std::vector<uint32_t> &used, int cpu)
    {
        std::string err = tmpDir + "/cand.err";
        sh->state = 1; sh->n = 0; sh->msg[0] = 0;
        fflush(0);
        pid_t pid = fork();
        if(!pid)
        {
            prctl(PR_SET_PDEATHSIG, SIGKILL);
            int fd = open(err.c_str(), O_CREAT|O_TRUNC|O_WRONLY|O_APPEND, 0644);
            dup2(fd, 2); dup2(fd, 1);
            armTimer(cpu);
            Ctx c(sh); c.replay = true; c.in = ch;
            bool disc;
            bool ok = runCase(c, fn, disc);
            sh->state = ok ? 3 : 2;
            _exit(ok ? 0 : 1);
        }
        int st; waitpid(pid, &st, 0);
        used.assign(sh->ch, sh->ch + sh->n);
        if(WIFEXITED(st) && WEXITSTATUS(st) == 0) return false;
        if(sh->state == 2) msg = sh->msg;
        else
        {
            std::ostringstream o;
            if(WIFSIGNALED(st)) o << "killed by signal " << WTERMSIG(st) << "\n";
            else o << "process exit " << WEXITSTATUS(st) << " inside the case\n";
            o << slurpTail(err);
            msg = o.str();
        }
        return true;
    }

    static std::string kind(std::string const &m)
    {   // first words without digits: used to keep the shrinker on the same failure
        std::string r;
        for(char ch : m) { if(ch == '\n') break; if(!isdigit((unsigned char)ch)) r += ch; if(r.size() > 40) break; }
        return r;
    }

    std::vector<uint32_t> shrink(Shared *sh, std::vector<uint32_t> best, std::string &msg)
    {
        auto t0 = std::chrono::steady_clock::now();
        int budget = 6000;
        auto left = [&]{ return budget > 0 &&
            std::chrono::duration<double>(std::chrono::steady_clock::now() - t0).count() < 90; };
        auto attempt = [&](std::vector<uint32_t> const &cand) -> bool {
            if(!left()) return false;
            --budget;
            std::string m; std::vector<uint32_t> used;
            if(!candidate(sh, cand, m, used, 5)) return false;
            while(!used.empty() && used.back() == 0) used.pop_back();
            if(used.size() > best.size()) return false;
            if(used.size() == best.size() && !(used < best)) return false;
            best = used; msg = m; return true;
        };
        bool progress = true;
        while(progress && left())
        {
            progress = false;
            for(size_t len = std::max<size_t>(best.size() / 2, 1); len >= 1 && left(); len /= 2)
                for(size_t pos = 0; pos < best.size() && left(); )
                {
                    size_t e = std::min(best.size(), pos + len);
                    std::vector<uint32_t> c(best.begin(), best.begin() + pos);
                    c.insert(c.end(), best.begin() + e, best.end());
                    if(attempt(c)) progress = true; else pos += len;
                }
            for(size_t len = 8; len >= 1 && left(); len /= 2)
                for(size_t pos = 0; pos + 1 <= best.size() && left(); pos += len)
                {
                    std::vector<uint32_t> c(best); bool any = false;
                    for(size_t k = pos; k < std::min(best.size(), pos + len); ++k) { any |= c[k] != 0; c[k] = 0; }
                    if(any && attempt(c)) progress = true;
                }
            for(size_t pos = 0; pos < best.size() && left(); ++pos)
            {
                uint32_t lo = 0, hi = best[pos];
                while(lo < hi && left())
                {
                    uint32_t mid = lo + (hi - lo) / 2;
                    std::vector<uint32_t> c(best); c[pos] = mid;
                    if(attempt(c)) { progress = true; if(pos >= best.size()) break; hi = std::min(mid, best[pos]); }
                    else lo = mid + 1;
                }
            }
        }
        return best;
    }

    int replayFile(std::string const &file)
    {
        std::ifstream f(file.c_str());
        std::string line; std::vector<uint32_t> ch;
        while(std::getline(f, line))
        {
            if(line.empty() || line[0] == '#') continue;
            std::istringstream s(line); uint32_t v; while(s >> v) ch.push_back(v);
        }
        Shared *sh = mk();
        std::string msg; std::vector<uint32_t> used;
        bool fails = candidate(sh, ch, msg, used, CPU_LIMIT_S);
        if(fails) { printf("REPLAY FAILS\n%s\n", msg.c_str()); return 1; }
        printf("REPLAY PASSES\n");
        return 0;
    }

    int run()
    {
        auto t0 = std::chrono::steady_clock::now();
        std::vector<Shared *> shs;
        for(int w = 0; w < workers; ++w) shs.push_back(mk());
        shs[0]->minFail = ~0ull;
        std::vector<pid_t> pids(workers);
        fflush(0);
        for(int w = 0; w < workers; ++w)
        {
            pids[w] = fork();
            if(!pids[w]) { worker(w, shs); _exit(0); }
        }
        struct F { uint64_t idx; std::vector<uint32_t> ch; std::string msg; };
        std::vector<F> fails;
        for(int left = workers; left; --left)
        {
            int st; pid_t pid = wait(&st);
            int w = 0; while(w < workers && pids[w] != pid) ++w;
            if(w == workers) { ++left; continue; }
            Shared *sh = shs[w];
            if(WIFEXITED(st) && WEXITSTATUS(st) == 0 && sh->state == 4) continue;
            F f; f.idx = sh->caseIdx; f.ch.assign(sh->ch, sh->ch + sh->n);
            if(sh->state == 2) f.msg = sh->msg;
            else
            {
                std::ostringstream o;
                if(WIFSIGNALED(st)) o << "killed by signal " << WTERMSIG(st) << "\n";
                else o << "process exit " << WEXITSTATUS(st) << " inside the case\n";
                std::ostringstream e; e << tmpDir << "/w" << w << ".err";
                o << slurpTail(e.str());
                f.msg = o.str();
            }
            fails.push_back(f);
            if(f.idx < shs[0]->minFail) shs[0]->minFail = f.idx;
        }
        // merge worker reports
        uint64_t evals = 0, disc = 0, nontriv = 0;
        std::unordered_set<uint64_t> distinct;
        std::map<std::string, uint64_t> cls;
        std::map<uint64_t, std::string> samples;
        for(int w = 0; w < workers; ++w)
        {
            std::ostringstream e; e << tmpDir << "/w" << w << ".rep";
            std::ifstream f(e.str().c_str());
            std::string tag;
            while(f >> tag)
            {
                if(tag == "E") { uint64_t a, b, c; f >> a >> b >> c; evals += a; disc += b; nontriv += c; }
                else if(tag == "H") { uint64_t h; f >> h; distinct.insert(h); }
                else if(tag == "C") { uint64_t n; std::string l; f >> n; f.get(); std::getline(f, l); cls[l] += n; }
                else if(tag == "S") { uint64_t i; size_t len; f >> i >> len; f.get(); std::string s(len, 0); f.read(&s[0], len); samples[i] = s; }
            }
        }
        bool violated = false; std::string vmsg; size_t shrunk = 0, orig = 0; uint64_t fidx = 0;
        if(!fails.empty())
        {
            std::sort(fails.begin(), fails.end(), [](F const &a, F const &b){ return a.idx < b.idx; });
            for(size_t k = 0; k < fails.size() && k < 3 && !violated; ++k)
            {
                F &f = fails[k];
                Shared *sh = mk();
                std::string msg; std::vector<uint32_t> used;
                if(!candidate(sh, f.ch, msg, used, CPU_LIMIT_S))
                {
                    fprintf(stderr, "case %llu failed in the worker but not on its own: %s\n",
                            (unsigned long long)f.idx, f.msg.c_str());
                    continue;
                }
                std::vector<uint32_t> best = shrink(sh, f.ch, msg);
                int rep = 0;
                for(int r = 0; r < 3; ++r) { std::string m; if(candidate(sh, best, m, used, CPU_LIMIT_S)) { ++rep; msg = m; } }
                if(rep < 3)
                {   // fall back to the unshrunk case
                    best = f.ch; rep = 0;
                    for(int r = 0; r < 3; ++r) { std::string m; if(candidate(sh, best, m, used, CPU_LIMIT_S)) { ++rep; msg = m; } }
                }
                if(rep < 3) { fprintf(stderr, "failure does not reproduce 3 times, ignored\n"); continue; }
                violated = true; vmsg = msg; orig = f.ch.size(); shrunk = best.size(); fidx = f.idx;
                std::ofstream o(replayOut.c_str());
                o << "# property " << prop << " seed " << seed << " case " << f.idx << "\n";
                std::istringstream ms(msg); std::string l;
                while(std::getline(ms, l)) o << "# " << l << "\n";
                for(size_t q = 0; q < best.size(); ++q) o << best[q] << (q % 20 == 19 ? "\n" : " ");
                o << "\n";
            }
        }
        double wall = std::chrono::duration<double>(std::chrono::steady_clock::now() - t0).count();
        std::ofstream o(outFile.c_str());
        o << "{\"property\":\"" << prop << "\",\"seed\":" << seed << ",\"evaluations\":" << evals
          << ",\"discarded\":" << disc << ",\"nontrivial\":" << nontriv
          << ",\"distinct_nontrivial\":" << distinct.size()
          << ",\"rule\":\"" << jesc(Registry::rules()[prop]) << "\",\"wall_s\":" << wall
          << ",\"violated\":" << (violated ? "true" : "false")
          << ",\"worker_failures\":" << fails.size()
          << ",\"message\":\"" << jesc(vmsg) << "\",\"case\":" << fidx
          << ",\"choices\":" << orig << ",\"shrunk_choices\":" << shrunk << ",\"classes\":{";
        bool first = true;
        for(auto const &c : cls) { o << (first ? "" : ",") << "\"" << jesc(c.first) << "\":" << c.second; first = false; }
        o << "},\"samples\":["; first = true; int ns = 0;
        for(auto const &s : samples) { if(++ns > 5) break; o << (first ? "" : ",") << "\"" << jesc(s.second.substr(0, 1500)) << "\""; first = false; }
        o << "]}\n";
        return violated ? 1 : 0;
    }

    void worker(int w, std::vector<Shared *> &shs)
    {
        prctl(PR_SET_PDEATHSIG, SIGKILL);
        Shared *sh = shs[w];
        std::ostringstream e; e << tmpDir << "/w" << w << ".err";
        int fd = open(e.str().c_str(), O_CREAT|O_TRUNC|O_RDWR|O_APPEND, 0644);
        dup2(fd, 2); dup2(fd, 1);
        uint64_t evals = 0, disc = 0, nontriv = 0; 
        std::unordered_set<uint64_t> hashes;
        std::map<std::string, uint64_t> cls;
        std::vector<std::pair<uint64_t, std::string> > samples;
        bool failed = false;
        for(uint64_t idx = w; idx < cases; idx += workers)
        {
            if(idx > shs[0]->minFail) break;
            struct stat sb;
            if(evals % 64 == 0 && fstat(fd, &sb) == 0 && sb.st_size > (1 << 20)) { int r = ftruncate(fd, 0); (void)r; }
            sh->caseIdx = idx; sh->state = 1;
            armTimer(CPU_LIMIT_S);
            Ctx c(sh); c.s = caseSeed(idx);
            c.wantText = samples.size() < 5;
            bool d;
            bool ok = runCase(c, fn, d);
            ++evals;
            if(!ok)
            {
                sh->state = 2; failed = true;
                if(idx < shs[0]->minFail) shs[0]->minFail = idx;
                break;
            }
            if(d) ++disc;
            else
            {
                if(c.nontriv)
                {
                    ++nontriv;
                    uint64_t h = 1469598103934665603ull;
                    for(uint32_t k = 0; k < sh->n; ++k) h = mix(h ^ sh->ch[k]);
                    hashes.insert(h);
                    if(samples.size() < 5) samples.push_back(std::make_pair(idx, c.text.str()));
                }
                for(auto const &l : c.labels) ++cls[l];
            }
            sh->state = 3;
        }
        std::ostringstream rn; rn << tmpDir << "/w" << w << ".rep";
        std::ofstream o(rn.str().c_str());
        o << "E " << evals << " " << disc << " " << nontriv << "\n";
        for(uint64_t h : hashes) o << "H " << h << "\n";
        for(auto const &c : cls) o << "C " << c.second << " " << c.first << "\n";
        for(auto const &s : samples) o << "S " << s.first << " " << s.second.size() << " " << s.second << "\n";
        o.close();
        if(failed) _exit(1);
        sh->state = 4;
        _exit(0);
    }
};

inline int main_(int argc, char **argv)
{
    Engine e; e.seed = 1; e.cases = 100; e.workers = 8; e.tmpDir = "/tmp"; e.outFile = "/dev/stdout";
    e.replayOut = "/dev/null";
    std::string replay;
    for(int k = 1; k + 1 < argc; k += 2)
    {
        std::string a = argv[k], v = argv[k+1];
        if(a == "--prop") e.prop = v;
        else if(a == "--seed") e.seed = strtoull(v.c_str(), 0, 10);
        else if(a == "--cases") e.cases = strtoull(v.c_str(), 0, 10);
        else if(a == "--workers") e.workers = atoi(v.c_str());
        else if(a == "--out") e.outFile = v;
        else if(a == "--tmp") e.tmpDir = v;
        else if(a == "--replay-out") e.replayOut = v;
        else if(a == "--replay") replay = v;
    }
    if(!Registry::get().count(e.prop)) { fprintf(stderr, "unknown property %s\n", e.prop.c_str()); return 2; }
    e.fn = Registry::get()[e.prop];
    if(!replay.empty()) return e.replayFile(replay);
    return e.run();
}

} // namespace pbt

#endif
