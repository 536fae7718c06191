#include "mc.hpp"
#include <algorithm>
#include <chrono>
#include <fcntl.h>
#include <signal.h>
#include <sys/mman.h>
#include <sys/personality.h>
#include <sys/wait.h>
#include <unistd.h>

namespace vp {

static const int MAXPATH = 4096;
struct Shared {
    volatile uint64_t beat;
    volatile int scenario;
    volatile int len;
    volatile int path[MAXPATH];
    volatile int status;      // 0 running, 1 done, 2 violation, 3 internal error
    char msg[8192];
    char text[16384];
    uint64_t transitions, traces, leaves, extra;
    volatile int complete;
};

std::vector<Scenario>& scenarios() { static std::vector<Scenario> s; return s; }
static std::vector<std::function<void()>>& starts() { static std::vector<std::function<void()>> s; return s; }
void on_worker_start(std::function<void()> f) { starts().push_back(f); }

void Ctx::shard_check() {
    if (m_checked || m_replay) return;
    m_checked = true;
    uint64_t h = 7;
    for (size_t i = 0; i < m_pos; ++i) h = mix(h, m_path[i].val + 1);
    if (m_nshards > 1 && (int)(h % m_nshards) != m_shard) throw Skip{};
}

int Ctx::choose(int n, const char* what) {
    if (n <= 0) { fprintf(stderr, "harness error: choose(%d) %s\n", n, what); abort(); }
    int v;
    if (m_pos < m_path.size()) {
        v = m_path[m_pos].val;
        if (m_path[m_pos].n != n && m_path[m_pos].n >= 0) {
            throw Violation{"the run is not a function of its choices: a choice point changed from " +
                std::to_string(m_path[m_pos].n) + " to " + std::to_string(n) + " alternatives (" + what + ")"};
        }
        m_path[m_pos].n = n;
        if (v >= n) v = n - 1;
    } else {
        v = 0;
        m_path.push_back({0, n});
    }
    if (m_shared) {
        if (m_pos < MAXPATH) { m_shared->path[m_pos] = v; m_shared->len = (int)m_pos + 1; }
        m_shared->beat++;
    }
    ++m_pos;
    if (m_pos == m_split) shard_check();
    return v;
}

void Ctx::step(uint64_t n) { m_transitions += n; if (m_shared) m_shared->beat++; }

void Ctx::m_states_add(uint64_t h) {
    m_hashes.push_back(h);
    if (m_hashes.size() >= m_compact_at) {
        std::sort(m_hashes.begin(), m_hashes.end());
        m_hashes.erase(std::unique(m_hashes.begin(), m_hashes.end()), m_hashes.end());
        m_compact_at = std::max<size_t>(1 << 20, m_hashes.size() * 2);
    }
}

static bool g_thorough = false;
static double now() { return std::chrono::duration<double>(std::chrono::steady_clock::now().time_since_epoch()).count(); }

// runs one leaf; returns 0 ok, 1 skip, 2 violation
static int run_one(Ctx& c, const Scenario& s, std::string& msg) {
    c.m_pos = 0; c.m_text.clear(); c.m_checked = (c.m_nshards == 1);
    try {
        s.body(c);
        if (c.m_pos < c.m_split) c.shard_check();
        return 0;
    } catch (const Skip&) { return 1;
    } catch (const Violation& v) { msg = v.msg; return 2;
    } catch (const std::exception& e) { msg = std::string("unexpected exception: ") + e.what(); return 2;
    } catch (...) { msg = "unexpected exception of unknown type"; return 2; }
}

static void put(char* dst, size_t cap, const std::string& s) { size_t n = std::min(cap - 1, s.size()); memcpy(dst, s.data(), n); dst[n] = 0; }

static void worker(Shared* sh, int shard, int nshards, const std::vector<int>& which, const std::string& hashfile, double deadline) {
    for (auto& f : starts()) f();
    Ctx c; c.m_shared = sh; c.m_shard = shard; c.m_nshards = nshards; c.m_thorough = g_thorough;
    bool complete = true;
    std::string samples;
    for (int si : which) {
        auto& s = scenarios()[si];
        sh->scenario = si;
        c.m_split = s.split; c.m_path.clear();
        uint64_t leaf = 0;
        while (true) {
            sh->len = 0;
            c.m_tell = (leaf == 0);
            std::string msg;
            uint64_t t0 = c.m_transitions, t1 = c.m_traces, t2 = c.m_extra;
            int r = run_one(c, s, msg);
            if (r == 1) { c.m_transitions = t0; c.m_traces = t1; c.m_extra = t2; }
            if (r == 2) {
                put(sh->msg, sizeof sh->msg, msg);
                put(sh->text, sizeof sh->text, c.m_text);
                sh->status = 2; _exit(10);
            }
            if (r == 0) {
                ++c.m_leaves; ++c.m_traces; ++leaf;
                if (leaf == 1 && !c.m_text.empty() && shard < 2) samples += s.name + ": " + c.m_text + "\n";
            }
            c.m_path.resize(c.m_pos);
            while (!c.m_path.empty() && c.m_path.back().val + 1 >= c.m_path.back().n) c.m_path.pop_back();
            if (c.m_path.empty()) break;
            c.m_path.back().val++;
            if (now() > deadline) { complete = false; break; }
        }
        if (!complete) break;
    }
    std::sort(c.m_hashes.begin(), c.m_hashes.end());
    c.m_hashes.erase(std::unique(c.m_hashes.begin(), c.m_hashes.end()), c.m_hashes.end());
    FILE* f = fopen(hashfile.c_str(), "wb");
    if (f) { fwrite(c.m_hashes.data(), 8, c.m_hashes.size(), f); fclose(f); }
    put(sh->text, sizeof sh->text, samples);
    sh->transitions = c.m_transitions; sh->traces = c.m_traces; sh->leaves = c.m_leaves; sh->extra = c.m_extra; sh->complete = complete;
    sh->status = 1;
    _exit(0);
}

static std::string jstr(const std::string& s) {
    std::string o = "\"";
    for (unsigned char ch : s) {
        if (ch == '"' || ch == '\\') { o += '\\'; o += ch; }
        else if (ch == '\n') o += "\\n";
        else if (ch < 32 || ch > 126) { char b[8]; snprintf(b, sizeof b, "\\u%04x", ch); o += b; }
        else o += ch;
    }
    return o + "\"";
}

struct Outcome { bool bad = false; bool hang = false; bool killed = false; int code = 0; std::string msg, text; };

// Runs one path alone in a fresh process; stderr goes to errfile.
static Outcome replay(int si, const std::vector<int>& path, const std::string& errfile, double limit) {
    auto* sh = (Shared*)mmap(nullptr, sizeof(Shared), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
    memset(sh, 0, sizeof *sh);
    fflush(stdout);
    pid_t p = fork();
    if (p == 0) {
        int fd = open(errfile.c_str(), O_CREAT | O_TRUNC | O_WRONLY, 0644);
        if (fd >= 0) { dup2(fd, 2); close(fd); }
        for (auto& f : starts()) f();
        Ctx c; c.m_shared = sh; c.m_replay = true; c.m_tell = true; c.m_thorough = g_thorough;
        for (int v : path) c.m_path.push_back({v, -1});
        c.m_split = 0;
        std::string msg;
        sh->scenario = si;
        int r = run_one(c, scenarios()[si], msg);
        put(sh->text, sizeof sh->text, c.m_text);
        put(sh->msg, sizeof sh->msg, msg);
        sh->status = r == 2 ? 2 : 1;
        _exit(r == 2 ? 10 : 0);
    }
    double t0 = now(); int st = 0; Outcome o;
    while (waitpid(p, &st, WNOHANG) == 0) {
        if (now() - t0 > limit) { kill(p, SIGKILL); waitpid(p, &st, 0); o.bad = o.hang = true; o.msg = "does not terminate"; return o; }
        usleep(2000);
    }
    o.text = sh->text; o.msg = sh->msg;
    if (sh->status == 2) o.bad = true;
    else if (sh->status == 1) o.bad = false;
    else {
        o.bad = true;
        if (WIFSIGNALED(st)) { o.killed = WTERMSIG(st) == SIGKILL; o.msg = "crash: signal " + std::to_string(WTERMSIG(st)); }
        else o.msg = "the process exited with status " + std::to_string(WEXITSTATUS(st)) + " in the middle of the run (sanitizer report or exit())";
        FILE* f = fopen(errfile.c_str(), "r");
        if (f) {
            char line[512]; int n = 0;
            while (fgets(line, sizeof line, f) && n < 14) { if (strstr(line, "ERROR:") || strstr(line, "#") ) { o.msg += "\n" + std::string(line); ++n; } }
            fclose(f);
        }
    }
    munmap(sh, sizeof *sh);
    return o;
}

static std::string path_str(const std::vector<int>& p) { std::string s; for (size_t i = 0; i < p.size(); ++i) { if (i) s += ","; s += std::to_string(p[i]); } return s; }

} // namespace vp

int main(int argc, char** argv) {
    using namespace vp;
    std::string out = "/dev/stdout", scratch = "/tmp", rep_s, rep_p, only; int jobs = 8; double budget = 600, hang = 90; bool rep = false;
    for (int i = 1; i < argc; ++i) {
        std::string a = argv[i];
        auto next = [&] { return std::string(argv[++i]); };
        if (a == "--out") out = next();
        else if (a == "--scratch") scratch = next();
        else if (a == "--jobs") jobs = atoi(next().c_str());
        else if (a == "--budget") budget = atof(next().c_str());
        else if (a == "--hang") hang = atof(next().c_str());
        else if (a == "--thorough") g_thorough = true;
        else if (a == "--only") only = next();
        else if (a == "--replay") { rep = true; rep_s = next(); rep_p = next(); }
        else if (a == "--noaslr-done") {}
    }
    // Same addresses on every run where the kernel lets us.
    if (!getenv("VP_NOASLR")) {
        setenv("VP_NOASLR", "1", 1);
        int p = personality(0xffffffff);
        if (p != -1 && !(p & ADDR_NO_RANDOMIZE) && personality(p | ADDR_NO_RANDOMIZE) != -1) execv("/proc/self/exe", argv);
    }
    auto& sc = scenarios();
    std::sort(sc.begin(), sc.end(), [](const Scenario& a, const Scenario& b) { return a.name < b.name; });
    if (rep) {
        int si = -1;
        for (size_t i = 0; i < sc.size(); ++i) if (sc[i].name == rep_s) si = (int)i;
        if (si < 0) { fprintf(stderr, "no such scenario\n"); return 2; }
        std::vector<int> p; std::stringstream ss(rep_p); std::string t;
        while (std::getline(ss, t, ',')) if (!t.empty()) p.push_back(atoi(t.c_str()));
        auto o = replay(si, p, scratch + "/replay.err", hang * 2);
        printf("%s\nrun: %s\n%s\n", o.bad ? "VIOLATED" : "holds", o.text.c_str(), o.msg.c_str());
        return o.bad ? 1 : 0;
    }
    std::vector<int> which;
    for (size_t i = 0; i < sc.size(); ++i) if ((only.empty() || sc[i].name.find(only) != std::string::npos) && (sc[i].quick || g_thorough)) which.push_back((int)i);

    auto* shs = (Shared*)mmap(nullptr, sizeof(Shared) * jobs, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
    memset(shs, 0, sizeof(Shared) * jobs);
    std::vector<pid_t> pids(jobs);
    double t0 = now();
    for (int i = 0; i < jobs; ++i) {
        pids[i] = fork();
        if (pids[i] == 0) {
            setpgid(0, 0);
            std::string e = scratch + "/worker" + std::to_string(i) + ".err";
            int fd = open(e.c_str(), O_CREAT | O_TRUNC | O_WRONLY, 0644);
            if (fd >= 0) { dup2(fd, 2); close(fd); }
            worker(&shs[i], i, jobs, which, scratch + "/hashes" + std::to_string(i), t0 + budget);
        }
    }
    std::vector<uint64_t> beats(jobs, 0); std::vector<double> last(jobs, now()); std::vector<bool> live(jobs, true);
    int left = jobs; int bad = -1; bool hung = false; int badst = 0;
    while (left && bad < 0) {
        int st; pid_t p = waitpid(-1, &st, WNOHANG);
        if (p > 0) {
            for (int i = 0; i < jobs; ++i) if (pids[i] == p && live[i]) {
                live[i] = false; --left;
                if (shs[i].status != 1) { bad = i; badst = st; }
            }
            continue;
        }
        usleep(5000);
        for (int i = 0; i < jobs; ++i) if (live[i]) {
            if (shs[i].beat != beats[i]) { beats[i] = shs[i].beat; last[i] = now(); }
            else if (now() - last[i] > hang) { bad = i; hung = true; }
        }
    }
    for (int i = 0; i < jobs; ++i) if (live[i]) { kill(-pids[i], SIGKILL); kill(pids[i], SIGKILL); int st; waitpid(pids[i], &st, 0); }
    FILE* f = fopen(out.c_str(), "w");
    if (bad >= 0) {
        Shared& s = shs[bad];
        std::vector<int> path; for (int i = 0; i < s.len && i < MAXPATH; ++i) path.push_back(int(s.path[i]));
        std::string first = s.status == 2 ? std::string(s.msg) : hung ? "does not terminate" : WIFSIGNALED(badst) ? "crash: signal " + std::to_string(WTERMSIG(badst)) : "process exit status " + std::to_string(WEXITSTATUS(badst));
        bool was_killed = !hung && s.status != 2 && WIFSIGNALED(badst) && WTERMSIG(badst) == SIGKILL;
        Outcome o; int tries = 0; bool confirmed = false;
        for (; tries < 3 && !confirmed; ++tries) { o = replay(s.scenario, path, scratch + "/replay.err", hang * 2); confirmed = o.bad && !o.killed; if (o.killed) break; }
        bool report = confirmed || s.status == 2 || (!hung && !was_killed);
        fprintf(f, "{\"result\": %s, \"scenario\": %s, \"path\": %s, \"first\": %s, \"message\": %s, \"run\": %s, \"confirmed\": %s}\n",
                report && !was_killed ? "\"violation\"" : "\"error\"", jstr(sc[s.scenario].name).c_str(), jstr(path_str(path)).c_str(), jstr(first).c_str(),
                jstr(confirmed ? o.msg : first).c_str(), jstr(confirmed ? o.text : std::string(s.text)).c_str(), confirmed ? "true" : "false");
        fclose(f);
        return report && !was_killed ? 1 : 2;
    }
    uint64_t tr = 0, tc = 0, lv = 0, ex = 0; bool complete = true; std::string samples; std::vector<uint64_t> all;
    for (int i = 0; i < jobs; ++i) {
        tr += shs[i].transitions; tc += shs[i].traces; lv += shs[i].leaves; ex += shs[i].extra; complete = complete && shs[i].complete;
        if (i < 2) samples += shs[i].text;
        FILE* h = fopen((scratch + "/hashes" + std::to_string(i)).c_str(), "rb");
        if (h) { fseek(h, 0, SEEK_END); size_t n = ftell(h) / 8; fseek(h, 0, SEEK_SET); size_t o = all.size(); all.resize(o + n); if (fread(all.data() + o, 8, n, h) != n) {} fclose(h); }
    }
    std::sort(all.begin(), all.end()); all.erase(std::unique(all.begin(), all.end()), all.end());
    fprintf(f, "{\"result\": \"ok\", \"states\": %zu, \"transitions\": %llu, \"traces\": %llu, \"paths\": %llu, \"exhaustive\": %s, \"scenarios\": [",
            all.size() + (size_t)ex, (unsigned long long)tr, (unsigned long long)tc, (unsigned long long)lv, complete ? "true" : "false");
    for (size_t i = 0; i < which.size(); ++i) fprintf(f, "%s%s", i ? ", " : "", jstr(sc[which[i]].name).c_str());
    fprintf(f, "], \"samples\": [");
    std::stringstream ss(samples); std::string line; int n = 0;
    std::set<std::string> seen;
    while (std::getline(ss, line)) { auto nm = line.substr(0, line.find(':')); if (!seen.insert(nm).second) continue; fprintf(f, "%s%s", n++ ? ", " : "", jstr(line.substr(0, 1500)).c_str()); }
    fprintf(f, "]}\n");
    fclose(f);
    return 0;
}
