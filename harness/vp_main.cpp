// Driver for vp.hpp harnesses: forked deterministic workers, crash/hang attribution, shrinking,
// confirmation, known findings, evidence.
#include "vp.hpp"
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <fstream>
#include <iostream>
#include <map>
#include <set>
#include <typeinfo>
#include <exception>
#include <chrono>
#include <csignal>
#include <cerrno>
#include <fcntl.h>
#include <unistd.h>
#include <sys/mman.h>
#include <sys/time.h>
#include <sys/types.h>
#include <sys/wait.h>
#include <sys/resource.h>

#ifndef VP_PROPERTY
#define VP_PROPERTY "P00"
#endif

extern "C" const char* __asan_default_options() {
    return "detect_leaks=0:abort_on_error=0:exitcode=99:allocator_may_return_null=0:max_malloc_fill_size=4096:malloc_fill_byte=203:detect_stack_use_after_return=0:handle_abort=0:max_allocation_size_mb=2500:detect_odr_violation=0";
}
extern "C" const char* __ubsan_default_options() { return "print_stacktrace=0:halt_on_error=1:exitcode=98"; }

namespace vp {
std::vector<Aspect>& registry() { static std::vector<Aspect> r; return r; }

const int MAXLAB = 64; const int LABLEN = 56;
enum Out { O_PASS = 0, O_FAIL = 1, O_CRASH = 2, O_HANG = 3, O_MEM = 4, O_DISCARD = 5 };

struct Region {
    volatile uint64_t evals, discards, nontriv, caseno, known_hits; volatile int outcome; volatile int truncated;
    char tag[128]; char msg[4096];
    uint32_t ncur; uint64_t cur[Case::max_choices + 8];
    char labname[MAXLAB][LABLEN]; uint64_t labcount[MAXLAB]; int nlab;
    char known_tag[16][128]; uint64_t known_count[16]; char known_msg[16][1024]; int nknown;
};
static Region* g_region = nullptr;

int label_id(const char* name) {
    for (int i = 0; i < g_region->nlab; ++i) if (!strncmp(g_region->labname[i], name, LABLEN - 1)) return i;
    if (g_region->nlab >= MAXLAB) return MAXLAB - 1;
    strncpy(g_region->labname[g_region->nlab], name, LABLEN - 1);
    return g_region->nlab++;
}
void label_hit(int id) { ++g_region->labcount[id]; }
void Case::label(const char* name) { label_hit(label_id(name)); }

static Region* new_region() {
    void* p = mmap(nullptr, sizeof(Region), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
    if (p == MAP_FAILED) { perror("mmap"); exit(2); }
    return (Region*)p;
}

static std::string type_tag(const std::exception& e) { return std::string("exception:") + typeid(e).name(); }

static void run_case(const Aspect& a, Case& c, Out& out, std::string& tag, std::string& msg) {
    try { a.fn(c); out = O_PASS; }
    catch (Failure& f) { out = O_FAIL; tag = f.tag; msg = f.msg; }
    catch (Discarded&) { out = O_DISCARD; }
    catch (std::exception& e) { out = O_FAIL; tag = type_tag(e); msg = e.what(); }
    catch (...) { out = O_FAIL; tag = "exception:unknown"; msg = "non-std exception escaped"; }
}

// ---- hang / memory guard: SIGPROF ticks every second of CPU time
static volatile uint64_t g_last_case = ~0ULL; static volatile int g_ticks = 0; static int g_hang_ticks = 20;
static void on_prof(int) {
    if (g_region->caseno == g_last_case) ++g_ticks; else { g_ticks = 0; g_last_case = g_region->caseno; }
    if (g_ticks >= g_hang_ticks) { g_region->outcome = O_HANG; _exit(11); }
    int fd = open("/proc/self/statm", O_RDONLY);
    if (fd >= 0) {
        char b[128]; ssize_t n = read(fd, b, 127); close(fd);
        if (n > 0) { b[n] = 0; char* p = strchr(b, ' '); long rss = 0; if (p) { ++p; while (*p >= '0' && *p <= '9') rss = rss * 10 + (*p++ - '0'); }
            if (rss * 4096L > 2800L * 1024 * 1024) { g_region->outcome = O_MEM; _exit(12); } }
    }
}
static void arm_guard() {
    struct sigaction sa; memset(&sa, 0, sizeof sa); sa.sa_handler = on_prof; sa.sa_flags = SA_RESTART; sigaction(SIGPROF, &sa, nullptr);
    struct itimerval t; t.it_interval.tv_sec = 1; t.it_interval.tv_usec = 0; t.it_value = t.it_interval; setitimer(ITIMER_PROF, &t, nullptr);
}
static void quiet_stdio(const char* file) {
    int fd = open(file, O_WRONLY | O_CREAT | O_TRUNC, 0644);
    if (fd < 0) fd = open("/dev/null", O_WRONLY);
    if (fd >= 0) { dup2(fd, 1); dup2(fd, 2); close(fd); }
    fd = open("/dev/null", O_RDONLY); if (fd >= 0) { dup2(fd, 0); close(fd); }
}

struct Known { std::string aspect, tag, what; uint64_t hits = 0; };
static std::vector<Known> g_known;
static int known_index(const std::string& aspect, const std::string& tag) {
    for (std::size_t i = 0; i < g_known.size(); ++i) if ((g_known[i].aspect == "*" || g_known[i].aspect == aspect) && g_known[i].tag == tag) return (int)i;
    return -1;
}

struct Attempt { Out out; std::string tag, msg, note; std::vector<uint64_t> used; bool nontriv; std::string log; };
static std::string g_tmpdir;
static std::string slurp(const std::string& f, std::size_t max) { std::ifstream i(f); std::string s((std::istreambuf_iterator<char>(i)), std::istreambuf_iterator<char>()); if (s.size() > max) s.resize(max); return s; }

//! run one choice sequence in a fork
static Attempt attempt(const Aspect& a, const std::vector<uint64_t>& ch, bool noting) {
    static Region* r = new_region();
    memset((void*)r, 0, offsetof(Region, cur)); r->nlab = 0; r->nknown = 0;
    std::string logf = g_tmpdir + "/attempt.log", notef = g_tmpdir + "/attempt.note";
    unlink(notef.c_str()); r->outcome = -1;
    fflush(nullptr);
    pid_t pid = fork();
    if (pid == 0) {
        g_region = r; quiet_stdio(logf.c_str()); arm_guard();
        Case c; c.rec = r->cur; c.nrec = &r->ncur; c.replaying = true; c.replay = ch.data(); c.nreplay = ch.size(); c.noting = noting; if (noting) c.notefile = notef.c_str();
        Out o; std::string tag, msg; run_case(a, c, o, tag, msg);
        strncpy(r->tag, tag.c_str(), sizeof r->tag - 1); strncpy(r->msg, msg.c_str(), sizeof r->msg - 1);
        r->nontriv = c.nontriv; r->outcome = o;
        if (noting) c.flush_note();
        fflush(nullptr); _exit(0);
    }
    int st = 0; while (waitpid(pid, &st, 0) < 0 && errno == EINTR) {}
    Attempt t; t.nontriv = r->nontriv != 0; t.used.assign(r->cur, r->cur + r->ncur);
    if (WIFEXITED(st) && WEXITSTATUS(st) == 0 && r->outcome >= 0) { t.out = (Out)r->outcome; t.tag = r->tag; t.msg = r->msg; }
    else if (r->outcome == O_HANG) { t.out = O_HANG; t.tag = "hang"; t.msg = "case did not finish within the CPU limit"; }
    else if (r->outcome == O_MEM) { t.out = O_MEM; t.tag = "memory"; t.msg = "case exceeded the memory limit"; }
    else {
        t.out = O_CRASH; std::ostringstream o;
        if (WIFSIGNALED(st)) o << "signal " << WTERMSIG(st); else o << "exit " << WEXITSTATUS(st);
        t.tag = "crash:" + o.str();
    }
    if (noting || t.out == O_CRASH) t.log = slurp(logf, 6000);
    if (noting) t.note = slurp(notef, 20000);
    if (t.out == O_CRASH) t.msg = t.log.substr(0, 1500);
    return t;
}

static bool same(const Attempt& t, Out o, const std::string& tag) { return t.out == o && t.tag == tag; }

static std::vector<uint64_t> shrink(const Aspect& a, std::vector<uint64_t> best, Out out, const std::string& tag, double secs, long& steps) {
    auto t0 = std::chrono::steady_clock::now();
    steps = 0;
    auto left = [&] { return std::chrono::duration<double>(std::chrono::steady_clock::now() - t0).count() < secs && steps < 4000; };
    auto tryit = [&](const std::vector<uint64_t>& cand) -> bool {
        ++steps; Attempt t = attempt(a, cand, false);
        if (!same(t, out, tag)) return false;
        std::vector<uint64_t> u = t.used; while (!u.empty() && u.back() == 0) u.pop_back();
        if (u.size() < best.size() || (u.size() == best.size() && u < best)) { best = u; return true; }
        return false;
    };
    if (out == O_HANG || out == O_MEM) secs = std::min(secs, 60.0);
    bool progress = true; tryit(best);
    while (progress && left()) {
        progress = false;
        for (std::size_t k : {64, 16, 8, 4, 3, 2, 1})
            for (std::size_t i = 0; i + k <= best.size() && left();) {
                std::vector<uint64_t> cand(best); cand.erase(cand.begin() + i, cand.begin() + i + k);
                if (tryit(cand)) progress = true; else i += std::max<std::size_t>(1, k / 2);
            }
        for (std::size_t k : {8, 2, 1})
            for (std::size_t i = 0; i + k <= best.size() && left(); i += k) {
                bool nz = false; for (std::size_t j = i; j < i + k; ++j) nz |= best[j] != 0; if (!nz) continue;
                std::vector<uint64_t> cand(best); for (std::size_t j = i; j < i + k; ++j) cand[j] = 0;
                if (tryit(cand)) progress = true;
            }
        for (std::size_t i = 0; i < best.size() && left(); ++i) {
            uint64_t lo = 0; // smallest failing value by bisection (assumes monotone; verified by tryit)
            while (i < best.size() && best[i] > lo && left()) {
                uint64_t mid = lo + (best[i] - lo) / 2; std::vector<uint64_t> cand(best); cand[i] = mid;
                if (tryit(cand)) progress = true; else lo = mid + 1;
            }
            for (uint64_t d : {1, 2}) if (i < best.size() && best[i] >= d && left()) { std::vector<uint64_t> cand(best); cand[i] -= d; if (tryit(cand)) progress = true; }
        }
    }
    return best;
}

static std::string jesc(const std::string& s) {
    std::string o; for (unsigned char ch : s) { if (ch == '"' || ch == '\\') { o += '\\'; o += (char)ch; } else if (ch == '\n') o += "\\n"; else if (ch == '\t') o += "\\t"; else if (ch < 32 || ch > 126) { char b[8]; snprintf(b, 8, "\\u%04x", ch); o += b; } else o += (char)ch; }
    return o;
}

static void write_replay(const std::string& path, const Aspect& a, const std::vector<uint64_t>& ch, const Attempt& t, const char* mode, uint64_t seed, long shard, long caseno) {
    std::ofstream f(path);
    f << "property " << VP_PROPERTY << "\naspect " << a.name << "\nmode " << mode << "\nseed " << seed << " shard " << shard << " case " << caseno << "\nchoices " << ch.size();
    for (auto v : ch) f << " " << v;
    f << "\n# outcome: " << t.tag << "\n";
    std::istringstream m("message: " + t.msg + "\n--- input ---\n" + t.note); std::string l;
    while (std::getline(m, l)) f << "# " << l << "\n";
}

//! run cases [0,n) of one shard inside the current process; returns true when a failure was recorded
static bool run_shard(const Aspect& a, uint64_t seed, long shard, long n, uint64_t* hashes, uint64_t* nh, double deadline_s) {
    auto t0 = std::chrono::steady_clock::now();
    Region* r = g_region; uint64_t base = mix(mix(seed, hash_str(a.name)), (uint64_t)shard + 1);
    for (long i = 0; i < n; ++i) {
        if ((i & 15) == 0 && std::chrono::duration<double>(std::chrono::steady_clock::now() - t0).count() > deadline_s) { r->truncated = 1; break; }
        r->caseno = i; r->ncur = 0;
        Case c; c.rec = r->cur; c.nrec = &r->ncur; c.rng = Rng(mix(base, (uint64_t)i));
        Out o; std::string tag, msg; run_case(a, c, o, tag, msg);
        if (o == O_DISCARD) { ++r->discards; continue; }
        ++r->evals;
        if (c.nontriv && hashes) { uint64_t h = 0xcbf29ce484222325ULL; for (uint32_t k = 0; k < r->ncur; ++k) h = mix(h, r->cur[k]); hashes[(*nh)++] = h; ++r->nontriv; }
        if (o == O_FAIL) {
            int ki = known_index(a.name, tag);
            if (ki >= 0) {
                ++r->known_hits; int k = 0; for (; k < r->nknown; ++k) if (tag == r->known_tag[k]) break;
                if (k == r->nknown && k < 16) { strncpy(r->known_tag[k], tag.c_str(), 127); strncpy(r->known_msg[k], msg.c_str(), 1023); ++r->nknown; }
                if (k < 16) ++r->known_count[k];
                continue;
            }
            r->outcome = O_FAIL; strncpy(r->tag, tag.c_str(), sizeof r->tag - 1); strncpy(r->msg, msg.c_str(), sizeof r->msg - 1);
            return true;
        }
    }
    return false;
}

static int replay_file(const std::string& path) {
    std::ifstream f(path); std::string line; std::string aspect, mode = "choices"; uint64_t seed = 0; long shard = 0, caseno = 0; std::vector<uint64_t> ch;
    while (std::getline(f, line)) {
        std::istringstream is(line); std::string k; is >> k;
        if (k == "aspect") is >> aspect; else if (k == "mode") is >> mode;
        else if (k == "seed") { std::string w; is >> seed >> w >> shard >> w >> caseno; }
        else if (k == "choices") { std::size_t n; is >> n; uint64_t v; while (is >> v) ch.push_back(v); }
    }
    for (auto& a : registry()) if (aspect == a.name) {
        if (mode == "choices") {
            Attempt t = attempt(a, ch, true);
            std::cout << "aspect " << a.name << "\n--- input ---\n" << t.note << "--- outcome " << t.out << " " << t.tag << "\n" << t.msg << "\n" << t.log << std::endl;
            return (t.out == O_PASS || t.out == O_DISCARD) ? 0 : 1;
        }
        g_region = new_region(); arm_guard(); // whole-shard replay
        bool b = run_shard(a, seed, shard, caseno + 1, nullptr, nullptr, 1e9);
        std::cout << (b ? "fails: " : "passes ") << g_region->tag << " " << g_region->msg << std::endl; return b ? 1 : 0;
    }
    std::cerr << "unknown aspect " << aspect << "\n"; return 2;
}

static int main_(int argc, char** argv) {
    std::string tier = "quick", evid, known, only, replay, replaydir = "."; uint64_t seed = 1; double scale = 1.0; int workers = 8; double budget = 0; bool list = false;
    for (int i = 1; i < argc; ++i) {
        std::string s = argv[i]; auto nx = [&] { return std::string(i + 1 < argc ? argv[++i] : ""); };
        if (s == "--tier") tier = nx(); else if (s == "--seed") seed = strtoull(nx().c_str(), 0, 10); else if (s == "--evidence") evid = nx();
        else if (s == "--known") known = nx(); else if (s == "--aspect") only = nx(); else if (s == "--replay") replay = nx(); else if (s == "--replaydir") replaydir = nx();
        else if (s == "--scale") scale = atof(nx().c_str()); else if (s == "--workers") workers = atoi(nx().c_str()); else if (s == "--budget") budget = atof(nx().c_str()); else if (s == "--list") list = true;
    }
    char tmpl[] = "/tmp/vpXXXXXX"; g_tmpdir = mkdtemp(tmpl);
    struct Cleanup { ~Cleanup() { for (const char* n : {"/attempt.log", "/attempt.note"}) unlink((g_tmpdir + n).c_str()); for (int i = 0; i < 4096; ++i) { std::string f = g_tmpdir + "/job" + std::to_string(i) + ".log"; if (unlink(f.c_str()) && i > 2048) break; } rmdir(g_tmpdir.c_str()); } } cleanup;
    if (list) { for (auto& a : registry()) std::cout << a.name << " " << a.quick << " " << a.thorough << "\n"; return 0; }
    if (!replay.empty()) return replay_file(replay);
    if (!known.empty()) { // lines: property<TAB>aspect<TAB>tag<TAB>what
        std::ifstream f(known); std::string l;
        while (std::getline(f, l)) {
            if (l.empty() || l[0] == '#') continue;
            std::vector<std::string> p; std::size_t b = 0; for (;;) { std::size_t e = l.find('\t', b); p.push_back(l.substr(b, e == std::string::npos ? e : e - b)); if (e == std::string::npos) break; b = e + 1; }
            if (p.size() >= 4 && p[0] == VP_PROPERTY) { Known k; k.aspect = p[1]; k.tag = p[2]; k.what = p[3]; g_known.push_back(k); }
        }
    }
    auto T0 = std::chrono::steady_clock::now();
    bool thorough = tier == "thorough";
    const int SH = 8; // shards per aspect: fixed, so results do not depend on the machine
    if (budget <= 0) budget = thorough ? 540 : 150;
    struct Job { int aspect; int shard; long n; Region* r; pid_t pid; bool done; uint64_t* hashes; uint64_t* nh; std::size_t hbytes; double t0, t1; };
    std::vector<Job> jobs; auto& R = registry();
    long total = 0;
    for (std::size_t ai = 0; ai < R.size(); ++ai) {
        if (!only.empty() && only != R[ai].name) continue;
        long n = (long)((thorough ? R[ai].thorough : R[ai].quick) * scale); if (n < SH) n = SH; total += n;
        for (int s = 0; s < SH; ++s) jobs.push_back(Job{(int)ai, s, n / SH, nullptr, 0, false, nullptr, nullptr, 0, 0, 0});
    }
    // interleave so that different aspects run together, and each gets a fair share of the time budget
    std::stable_sort(jobs.begin(), jobs.end(), [](const Job& a, const Job& b) { return a.shard < b.shard; });
    double per_job = budget * workers / std::max<std::size_t>(1, jobs.size());
    std::size_t next = 0, running = 0; std::map<pid_t, std::size_t> byPid;
    auto now = [&] { return std::chrono::duration<double>(std::chrono::steady_clock::now() - T0).count(); };
    while (next < jobs.size() || running) {
        while (next < jobs.size() && running < (std::size_t)workers) {
            Job& j = jobs[next]; j.r = new_region(); j.hbytes = (std::size_t)(j.n + 2) * 8;
            void* h = mmap(nullptr, j.hbytes, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
            if (h == MAP_FAILED) { perror("mmap"); return 2; }
            j.nh = (uint64_t*)h; j.hashes = j.nh + 1; j.t0 = now();
            fflush(nullptr);
            pid_t pid = fork();
            if (pid == 0) {
                g_region = j.r; quiet_stdio((g_tmpdir + "/job" + std::to_string(next) + ".log").c_str()); j.r->outcome = -1; arm_guard();
                bool f = run_shard(R[j.aspect], seed, j.shard, j.n, j.hashes, j.nh, per_job);
                if (!f) j.r->outcome = O_PASS; _exit(f ? 10 : 0);
            }
            j.pid = pid; byPid[pid] = next; ++next; ++running;
        }
        int st; pid_t p = waitpid(-1, &st, 0); if (p < 0) { if (errno == EINTR) continue; break; }
        auto it = byPid.find(p); if (it == byPid.end()) continue;
        Job& j = jobs[it->second]; j.done = true; j.t1 = now(); --running;
        if (WIFEXITED(st) && (WEXITSTATUS(st) == 0 || WEXITSTATUS(st) == 10) && j.r->outcome >= 0) {}
        else if (j.r->outcome == O_HANG) strcpy(j.r->tag, "hang");
        else if (j.r->outcome == O_MEM) strcpy(j.r->tag, "memory");
        else { j.r->outcome = O_CRASH; std::ostringstream o; if (WIFSIGNALED(st)) o << "crash:signal " << WTERMSIG(st); else o << "crash:exit " << WEXITSTATUS(st); strncpy(j.r->tag, o.str().c_str(), 127); }
    }
    // aggregate
    uint64_t evals = 0, disc = 0, nontriv = 0; bool trunc = false; std::ostringstream aj; std::vector<std::string> samples; std::set<std::string> rules;
    std::map<int, std::pair<uint64_t, uint64_t>> perKnown; // index -> hits
    std::map<std::string, std::pair<uint64_t, std::string>> knownHits;
    bool firstA = true;
    for (std::size_t ai = 0; ai < R.size(); ++ai) {
        uint64_t e = 0, d = 0; std::map<std::string, uint64_t> labs; std::vector<uint64_t> hs; bool any = false; double secs = 0;
        for (auto& j : jobs) if (j.aspect == (int)ai) {
            any = true; e += j.r->evals; d += j.r->discards; trunc |= j.r->truncated != 0; secs += j.t1 - j.t0;
            for (int k = 0; k < j.r->nlab; ++k) labs[j.r->labname[k]] += j.r->labcount[k];
            hs.insert(hs.end(), j.hashes, j.hashes + *j.nh);
            for (int k = 0; k < j.r->nknown; ++k) { auto& x = knownHits[std::string(R[ai].name) + "\t" + j.r->known_tag[k]]; x.first += j.r->known_count[k]; if (x.second.empty()) x.second = j.r->known_msg[k]; }
        }
        if (!any) continue;
        std::sort(hs.begin(), hs.end()); hs.erase(std::unique(hs.begin(), hs.end()), hs.end());
        evals += e; disc += d; nontriv += hs.size();
        if (!firstA) aj << ",\n"; firstA = false;
        aj << "   {\"aspect\":\"" << R[ai].name << "\",\"rule\":\"" << jesc(R[ai].rule) << "\",\"evaluations\":" << e << ",\"discarded\":" << d << ",\"distinct_nontrivial\":" << hs.size() << ",\"cpu_s\":" << secs << ",\"labels\":{";
        bool f = true; for (auto& l : labs) { if (!f) aj << ","; f = false; aj << "\"" << jesc(l.first) << "\":" << l.second; }
        aj << "}}";
    }
    // samples: re-run the first non-trivial cases of each aspect with notes on
    for (std::size_t ai = 0; ai < R.size() && samples.size() < 12; ++ai) {
        if (!only.empty() && only != R[ai].name) continue;
        uint64_t base = mix(mix(seed, hash_str(R[ai].name)), 1);
        for (int i = 0; i < 12; ++i) {
            static uint64_t buf[Case::max_choices + 8]; static uint32_t nb; // generate the choices by a dry run in a fork is unnecessary: record through attempt()
            Region* r = new_region(); fflush(nullptr); pid_t pid = fork();
            if (pid == 0) { g_region = r; quiet_stdio("/dev/null"); arm_guard(); Case c; c.rec = r->cur; c.nrec = &r->ncur; c.rng = Rng(mix(base, (uint64_t)i)); c.noting = true; Out o; std::string t, m; run_case(R[ai], c, o, t, m); if (c.nontriv) { r->outcome = 7; strncpy(r->msg, c.os.str().c_str(), sizeof r->msg - 1); } _exit(0); }
            int st; while (waitpid(pid, &st, 0) < 0 && errno == EINTR) {}
            bool ok = r->outcome == 7; std::string s = r->msg; munmap((void*)r, sizeof(Region)); (void)buf; (void)nb;
            if (ok && !s.empty()) { if (s.size() > 900) s.resize(900); samples.push_back(std::string(R[ai].name) + ": " + s); break; }
        }
    }
    // failures
    int rc = 0; std::string violation; 
    std::vector<std::string> vlines;
    std::set<int> seenAspect; std::vector<std::string> notes;
    for (auto& j : jobs) {
        if (j.r->outcome == O_PASS) continue;
        const Aspect& a = R[j.aspect]; if (seenAspect.count(j.aspect) || vlines.size() >= 3) continue;
        std::vector<uint64_t> ch(j.r->cur, j.r->cur + j.r->ncur);
        Attempt t = attempt(a, ch, false); long steps = 0; std::string rp = replaydir + "/" + VP_PROPERTY + "-" + a.name + ".replay";
        if (t.out != O_PASS && t.out != O_DISCARD && !(t.out == O_FAIL && known_index(a.name, t.tag) >= 0)) {
            Out o = t.out; std::string tag = t.tag;
            std::vector<uint64_t> b = shrink(a, ch, o, tag, 60, steps);
            int ok = 0; Attempt last; for (int k = 0; k < 3; ++k) { last = attempt(a, b, true); if (same(last, o, tag)) ++ok; }
            if (ok < 3) { b = ch; ok = 0; for (int k = 0; k < 3; ++k) { last = attempt(a, b, true); if (last.out != O_PASS && last.out != O_DISCARD) ++ok; } }
            if (ok == 3) {
                seenAspect.insert(j.aspect); write_replay(rp, a, b, last, "choices", seed, j.shard, (long)j.r->caseno);
                std::cout << "aspect " << a.name << " failed: " << last.tag << ": " << last.msg << "\n--- minimal input (" << b.size() << " choices, " << steps << " shrink steps) ---\n" << last.note << std::endl;
                vlines.push_back(rp); continue;
            }
        }
        // not reproducible from a single case: replay the whole shard prefix (state carried between cases)
        int ok = 0;
        for (int k = 0; k < 3; ++k) {
            Region* r = new_region(); fflush(nullptr); pid_t pid = fork();
            if (pid == 0) { g_region = r; quiet_stdio("/dev/null"); r->outcome = -1; arm_guard(); bool f = run_shard(a, seed, j.shard, (long)j.r->caseno + 1, nullptr, nullptr, 1e9); if (!f) r->outcome = O_PASS; _exit(0); }
            int st; while (waitpid(pid, &st, 0) < 0 && errno == EINTR) {}
            if (r->outcome != O_PASS) ++ok; munmap((void*)r, sizeof(Region));
        }
        if (ok == 3) { seenAspect.insert(j.aspect); Attempt l; l.out = O_FAIL; l.tag = j.r->tag; l.msg = j.r->msg; write_replay(rp, a, ch, l, "shard", seed, j.shard, (long)j.r->caseno); std::cout << "aspect " << a.name << " failed (needs the preceding cases): " << j.r->tag << ": " << j.r->msg << std::endl; vlines.push_back(rp); }
        else notes.push_back(std::string("unreproducible outcome in ") + a.name + ": " + j.r->tag + " " + j.r->msg);
    }
    for (auto& n : notes) std::cout << "NOTE " << n << "\n";
    for (auto& k : g_known) {
        for (auto& h : knownHits) { std::size_t p = h.first.find('\t'); if ((k.aspect == "*" || k.aspect == h.first.substr(0, p)) && k.tag == h.first.substr(p + 1)) k.hits += h.second.first; }
        if (k.hits) std::cout << "KNOWN-FINDING: property=" << VP_PROPERTY << " " << k.what << " [" << k.aspect << "/" << k.tag << ", " << k.hits << " generated cases]" << std::endl;
    }
    for (auto& v : vlines) { std::cout << "VIOLATION property=" << VP_PROPERTY << " replay=" << v << std::endl; rc = 1; }
    double wall = now();
    std::cout << VP_PROPERTY << " tier=" << tier << " seed=" << seed << " cases=" << evals << " discarded=" << disc << " distinct_nontrivial=" << nontriv << (trunc ? " (time cap reached)" : "") << " run_s=" << std::fixed << std::setprecision(1) << wall << std::endl;
    if (!evid.empty()) {
        std::ofstream f(evid);
        f << "{\n \"property\":\"" << VP_PROPERTY << "\",\"tier\":\"" << tier << "\",\"seed\":" << seed << ",\"level\":\"exploration\",\n \"coverage\":{\n  \"evaluations\":" << evals << ",\"discarded\":" << disc << ",\"distinct_nontrivial\":" << nontriv
          << ",\n  \"rule\":\"Each case is a sequence of integer choices drawn by the aspect's generator from the seed; distinct = distinct choice sequences; non-trivial is decided per aspect as stated in its rule below.\",\n  \"time_cap_reached\":" << (trunc ? "true" : "false") << ",\n  \"aspects\":[\n" << aj.str() << "],\n  \"samples\":[";
        for (std::size_t i = 0; i < samples.size(); ++i) f << (i ? ",\n   " : "\n   ") << "\"" << jesc(samples[i]) << "\"";
        f << "],\n  \"known_finding_cases\":{"; bool ff = true; for (auto& h : knownHits) { f << (ff ? "" : ",") << "\"" << jesc(h.first) << "\":" << h.second.first; ff = false; }
        f << "},\n  \"notes\":["; for (std::size_t i = 0; i < notes.size(); ++i) f << (i ? "," : "") << "\"" << jesc(notes[i]) << "\"";
        f << "]\n },\n \"assumptions\":[\"IEEE double arithmetic; oracles in this harness are trusted\"],\n \"wall_s\":" << std::fixed << std::setprecision(2) << wall << ",\n \"violations\":[";
        for (std::size_t i = 0; i < vlines.size(); ++i) f << (i ? "," : "") << "\"" << jesc(vlines[i]) << "\"";
        f << "]\n}\n";
    }
    return rc;
}
} // namespace vp

#ifdef VP_LIBFUZZER
// coverage-guided driver: bytes -> choices (first byte selects the aspect)
extern "C" int LLVMFuzzerTestOneInput(const uint8_t* d, size_t n) {
    using namespace vp; static Region* r = g_region = new_region();
    auto& R = registry(); if (n < 2) return 0;
    r->nlab = 0; r->ncur = 0; static const char* only = getenv("VP_ASPECT"); std::size_t ai = d[0] % R.size(); if (only) { for (std::size_t i = 0; i < R.size(); ++i) if (!strcmp(R[i].name, only)) ai = i; }
    std::vector<uint64_t> ch; std::size_t p = 1;
    while (p < n && ch.size() < 4000) { uint64_t v = d[p++]; if (v >= 0xF8) { int k = (int)(v - 0xF8) + 1; v = 0; for (int i = 0; i < k && p < n; ++i) v = v << 8 | d[p++]; } ch.push_back(v); }
    Case c; c.rec = r->cur; c.nrec = &r->ncur; c.replaying = true; c.replay = ch.data(); c.nreplay = ch.size();
    Out o; std::string tag, msg; run_case(R[ai], c, o, tag, msg);
    if (o == O_FAIL && known_index(R[ai].name, tag) < 0) {
        const char* dir = getenv("VP_REPLAYDIR"); Attempt t; t.out = o; t.tag = tag; t.msg = msg;
        write_replay(std::string(dir ? dir : ".") + "/" + VP_PROPERTY + "-" + R[ai].name + ".fuzz.replay", R[ai], std::vector<uint64_t>(r->cur, r->cur + r->ncur), t, "choices", 0, 0, 0);
        __builtin_trap();
    }
    return 0;
}
#else
int main(int argc, char** argv) { return vp::main_(argc, argv); }
#endif
