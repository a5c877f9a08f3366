#include "explore.h"
#include "vpalloc.h"
#include <atomic>
#include <cerrno>
#include <cstdarg>
#include <cstdlib>
#include <cstring>
#include <ctime>
#include <map>
#include <set>
#include <fcntl.h>
#include <signal.h>
#include <sys/mman.h>
#include <sys/resource.h>
#include <sys/wait.h>
#include <unistd.h>

void register_props(std::vector<PropDef>& out);

static const int MAXC = 4096;
static const int MAXW = 32;
struct WorkerSlot {
    std::atomic<uint64_t> execs, nodes, ops, checked, beat;
    std::atomic<int> nchoice;
    int choices[MAXC];
    std::atomic<int> status; // 0 running, 1 done, 2 violation, 3 truncated
    char msg[16384];
    char known[4096];
    int sample_n; int sample[MAXC];
};
static const uint64_t BITS = 1ULL << 27;
struct Shared {
    WorkerSlot w[MAXW];
    std::atomic<uint64_t> distinct;
    std::atomic<uint64_t> bitmap[BITS / 64];
};
static std::set<std::string> g_known;
static bool g_leaks = false; // leaks are C17's business
static double now_s() { timespec t; clock_gettime(CLOCK_MONOTONIC, &t); return t.tv_sec + t.tv_nsec * 1e-9; }
uint64_t hmix(uint64_t h, uint64_t v) { h ^= v + 0x9e3779b97f4a7c15ULL + (h << 6) + (h >> 2); h *= 0xff51afd7ed558ccdULL; h ^= h >> 33; return h; }
uint64_t hstr(const std::string& s) { uint64_t h = 1469598103934665603ULL; for(unsigned char c : s) { h ^= c; h *= 1099511628211ULL; } return hmix(h, s.size()); }
static std::string vf(const char* fmt, va_list ap) { va_list ap2; va_copy(ap2, ap); int n = vsnprintf(nullptr, 0, fmt, ap2); va_end(ap2); std::string s(n, 0); vsnprintf(&s[0], n + 1, fmt, ap); return s; }
std::string sfmt(const char* fmt, ...) { va_list ap; va_start(ap, fmt); std::string s = vf(fmt, ap); va_end(ap); return s; }

int Ex::choose(int n) {
    if(n < 1) { fprintf(stderr, "choose(%d)\n", n); _exit(97); }
    int c;
    if(pos < st.size()) {
        c = st[pos].first;
        st[pos].second = n;
        if(c >= n) { fprintf(stderr, "replay out of range\n"); _exit(96); }
    }
    else {
        c = 0; st.push_back({0, n});
        if(sh && (gated || worker == 0)) sh->w[worker].nodes.fetch_add(1, std::memory_order_relaxed);
    }
    if(sh && pos < MAXC) sh->w[worker].choices[pos] = c;
    pos++;
    if(sh) sh->w[worker].nchoice.store((int)pos, std::memory_order_relaxed);
    return c;
}
void Ex::gate() {
    if(gated) return;
    bool fresh = gate_no == 0 || changed < pos;
    if(workers > 1) {
        // choices made after the gate belong to the same scenario
        if(fresh) gate_no++;
        if((int)((gate_no - 1) % workers) != worker) throw Skip{};
    }
    gated = true;
}
void Ex::op(uint64_t n) { if(sh) sh->w[worker].ops.fetch_add(n, std::memory_order_relaxed); }
void Ex::checked(uint64_t n) { if(sh) sh->w[worker].checked.fetch_add(n, std::memory_order_relaxed); }
void Ex::state(uint64_t h) {
    if(!sh) return;
    uint64_t b = h % BITS; uint64_t m = 1ULL << (b & 63);
    auto& wd = sh->bitmap[b / 64];
    if(wd.load(std::memory_order_relaxed) & m) return;
    if(!(wd.fetch_or(m) & m)) sh->distinct.fetch_add(1);
}
void Ex::note(const char* fmt, ...) { if(!verbose) return; va_list ap; va_start(ap, fmt); text += vf(fmt, ap); va_end(ap); text += "\n"; }
void Ex::fail(const char* fmt, ...) { va_list ap; va_start(ap, fmt); std::string s = vf(fmt, ap); va_end(ap); throw Violation{s}; }
bool Ex::known(const std::string& key) {
    if(!g_known.count(key)) return false;
    if(sh) { char* k = sh->w[worker].known; if(!strstr(k, key.c_str()) && strlen(k) + key.size() + 2 < sizeof sh->w[worker].known) { strcat(k, key.c_str()); strcat(k, "\n"); } }
    return true;
}
static WorkerSlot* g_slot = nullptr;
extern "C" [[noreturn]] void vp_alloc_error(const char* what) {
    if(g_slot) snprintf(g_slot->msg, sizeof g_slot->msg, "memory error: %s", what);
    fprintf(stderr, "memory error: %s\n", what);
    abort();
}
static void run_worker(const BodyDef& b, Shared* sh, int w, int W, int tier, double deadline) {
    Ex ex; ex.tier = b.small ? 0 : tier; ex.worker = w; ex.workers = W; ex.sh = sh;
    WorkerSlot& s = sh->w[w]; g_slot = &s;
    uint64_t n = 0, next_sample = 1;
    for(;;) {
        ex.pos = 0; ex.gated = false;
        uint64_t live = vp_live_blocks;
        try {
            b.fn(ex);
            if(g_leaks && vp_live_blocks != live)
                throw Violation{sfmt("leak: %lld block(s) still allocated after everything was released", (long long)(vp_live_blocks - live))};
            if(ex.gated || w == 0) { s.execs.fetch_add(1, std::memory_order_relaxed); n++;
                if(n == next_sample) { s.sample_n = ex.pos < (size_t)MAXC ? ex.pos : MAXC; for(int i = 0; i < s.sample_n; i++) s.sample[i] = ex.st[i].first; next_sample = next_sample * 3 + 1; } }
        } catch(Skip&) {
        } catch(Violation& v) {
            snprintf(s.msg, sizeof s.msg, "%s", v.msg.c_str());
            s.status = 2; _exit(0);
        }
        s.beat.fetch_add(1, std::memory_order_relaxed);
        ex.st.resize(ex.pos);
        while(!ex.st.empty() && ex.st.back().first + 1 >= ex.st.back().second) ex.st.pop_back();
        if(ex.st.empty()) break;
        ex.st.back().first++; ex.changed = ex.st.size() - 1;
        if((n & 63) == 0 && now_s() > deadline) { s.status = 3; _exit(0); }
    }
    s.status = 1; _exit(0);
}
// Runs one choice sequence in a child; returns its text and outcome.
struct Replay { bool bad = false; std::string msg, text; };
static Replay replay(const BodyDef& b, const std::vector<int>& ch, int tier) {
    int fd[2]; if(pipe(fd)) exit(99);
    fflush(nullptr);
    pid_t p = fork();
    if(p == 0) {
        close(fd[0]);
        int dn = open("/dev/null", O_WRONLY); dup2(dn, 1);
        if(!getenv("MC_STDERR")) dup2(dn, 2);
        Ex ex; ex.tier = b.small ? 0 : tier; ex.verbose = true;
        for(int c : ch) ex.st.push_back({c, c + 1});
        auto put = [&](char k, const std::string& s) { dprintf(fd[1], "%c%zu\n", k, s.size()); size_t o = 0; while(o < s.size()) { ssize_t r = write(fd[1], s.data() + o, s.size() - o); if(r <= 0) break; o += r; } };
        static Ex* gex; gex = &ex; static int gfd; gfd = fd[1];
        auto h = [](int sig) { dprintf(gfd, "T%zu\n", gex->text.size()); (void)!write(gfd, gex->text.data(), gex->text.size()); std::string m = sfmt("the process died with signal %d", sig); dprintf(gfd, "V%zu\n", m.size()); (void)!write(gfd, m.data(), m.size()); _exit(1); };
        static char alt[1 << 16]; stack_t ss = {}; ss.ss_sp = alt; ss.ss_size = sizeof alt; sigaltstack(&ss, nullptr);
        for(int sg : {SIGABRT, SIGSEGV, SIGBUS, SIGFPE, SIGILL, SIGALRM}) { struct sigaction sa = {}; sa.sa_handler = h; sa.sa_flags = SA_ONSTACK; sigaction(sg, &sa, nullptr); }
        alarm(60);
        uint64_t live = vp_live_blocks;
        std::string v;
        try { b.fn(ex); if(g_leaks && vp_live_blocks != live) v = sfmt("leak: %lld block(s) still allocated after everything was released", (long long)(vp_live_blocks - live)); }
        catch(Violation& x) { v = x.msg; } catch(Skip&) {}
        put('T', ex.text); if(!v.empty()) put('V', v);
        _exit(0);
    }
    close(fd[1]);
    std::string all; char buf[65536]; ssize_t r;
    while((r = read(fd[0], buf, sizeof buf)) > 0) all.append(buf, r);
    close(fd[0]);
    int stt; waitpid(p, &stt, 0);
    Replay out; size_t i = 0;
    while(i < all.size()) { char k = all[i]; size_t e = all.find('\n', i); if(e == std::string::npos) break; size_t n = strtoull(all.c_str() + i + 1, 0, 10); std::string s = all.substr(e + 1, n); i = e + 1 + n; if(k == 'T') out.text = s; else { out.msg = s; out.bad = true; } }
    if(!(WIFEXITED(stt) && WEXITSTATUS(stt) == 0)) { out.bad = true; if(out.msg.empty()) out.msg = sfmt("the process ended abnormally (status 0x%x; sanitizer report or crash)", stt); }
    return out;
}
static std::string esc(const std::string& s) { std::string o; for(unsigned char c : s) { if(c == '"' || c == '\\') { o += '\\'; o += c; } else if(c == '\n') o += "\\n"; else if(c == '\t') o += "\\t"; else if(c < 32 || c >= 127) o += sfmt("\\u%04x", c); else o += c; } return o; }
int main(int argc, char** argv) {
    std::string prop, only, outp = "/dev/stdout", replay_s, vtag = "plain"; int tier = 0, W = 8; double budget = 1e9, wall = 1e9; bool list = false;
    for(int i = 1; i < argc; i++) {
        std::string a = argv[i]; auto nx = [&] { return std::string(argv[++i]); };
        if(a == "--prop") prop = nx(); else if(a == "--tier") tier = nx() == "thorough"; else if(a == "--body") only = nx();
        else if(a == "--workers") W = atoi(nx().c_str()); else if(a == "--budget") budget = atof(nx().c_str()); else if(a == "--wall") wall = atof(nx().c_str());
        else if(a == "--out") outp = nx(); else if(a == "--replay") replay_s = nx(); else if(a == "--variant") vtag = nx(); else if(a == "--list") list = true;
        else if(a == "--known") { FILE* f = fopen(nx().c_str(), "r"); char ln[4096]; while(f && fgets(ln, sizeof ln, f)) { std::string s = ln; while(!s.empty() && (s.back() == '\n' || s.back() == ' ')) s.pop_back(); if(!s.empty()) g_known.insert(s); } if(f) fclose(f); }
        else { fprintf(stderr, "bad argument %s\n", a.c_str()); return 2; }
    }
    if(W > MAXW) W = MAXW;
    std::vector<PropDef> props; register_props(props);
    const PropDef* pd = nullptr;
    for(auto& p : props) { if(list) for(auto& b : p.bodies) printf("%s %s\n", p.id.c_str(), b.name.c_str()); if(p.id == prop) pd = &p; }
    if(list) return 0;
    g_leaks = prop == "C17";
    if(!pd) { fprintf(stderr, "no property %s\n", prop.c_str()); return 2; }
    int vbit = vtag == "asan" ? 2 : 1;
    PropDef pa; // bodies that also run under the sanitizers, with the quick bounds
    if(vbit == 2) { static const std::set<std::string> also =
#include "asan.h"
        ; pa = *pd; for(auto& b : pa.bodies) if(!(b.variants & 2) && also.count(prop + "/" + b.name)) { b.variants |= 2; b.small = true; } pd = &pa; }
    if(!replay_s.empty() || (!only.empty() && replay_s == "-")) {
        std::vector<int> ch; std::string cur; for(char c : replay_s + ",") { if(c == ',') { if(!cur.empty() && cur != "-") ch.push_back(atoi(cur.c_str())); cur.clear(); } else cur += c; }
        for(auto& b : pd->bodies) if(b.name == only) { Replay r = replay(b, ch, tier); printf("%s\n%s%s\n", r.text.c_str(), r.bad ? "VIOLATED: " : "held", r.msg.c_str()); return r.bad; }
        return 2;
    }
    Shared* sh = (Shared*)mmap(nullptr, sizeof(Shared), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
    FILE* out = fopen(outp.c_str(), "w"); if(!out) return 2;
    fprintf(out, "{\"bodies\":[");
    bool first = true; int rc = 0; double t_start = now_s();
    uint64_t prev_distinct = 0;
    for(auto& b : pd->bodies) {
        if(!only.empty() && b.name != only) continue;
        if(!(b.variants & vbit) || !(b.tiers & (1 << tier))) continue;
        memset((void*)sh->w, 0, sizeof sh->w);
        double t0 = now_s(), deadline = std::min(t0 + budget, t_start + wall);
        pid_t pid[MAXW]; fflush(nullptr);
        for(int w = 0; w < W; w++) {
            pid[w] = fork();
            if(pid[w] == 0) {
                int dn = open("/dev/null", O_WRONLY); dup2(dn, 1); if(!getenv("MC_STDERR")) dup2(dn, 2);
                rlimit rl = {0, 0}; setrlimit(RLIMIT_CORE, &rl);
                run_worker(b, sh, w, W, tier, deadline);
            }
        }
        int left = W, bad = -1; std::string badmsg; uint64_t beats[MAXW] = {0}; double last[MAXW]; for(int w = 0; w < W; w++) last[w] = now_s();
        bool trunc = false;
        while(left > 0) {
            int stt; pid_t p = waitpid(-1, &stt, WNOHANG);
            if(p > 0) {
                for(int w = 0; w < W; w++) if(pid[w] == p) {
                    pid[w] = 0; left--;
                    if(sh->w[w].status == 2) { if(bad < 0) { bad = w; badmsg = sh->w[w].msg; } }
                    else if(sh->w[w].status == 3) trunc = true;
                    else if(sh->w[w].status != 1 && bad < 0) { bad = w; badmsg = sh->w[w].msg[0] ? sh->w[w].msg : sfmt("the process died (wait status 0x%x)", stt); }
                }
                if(bad >= 0) for(int w = 0; w < W; w++) if(pid[w]) kill(pid[w], SIGKILL);
                continue;
            }
            double t = now_s();
            for(int w = 0; w < W; w++) if(pid[w]) {
                uint64_t bt = sh->w[w].beat; if(bt != beats[w]) { beats[w] = bt; last[w] = t; }
                else if(t - last[w] > 90 && bad < 0) { bad = w; badmsg = "no progress for 90 s: a call does not return"; for(int k = 0; k < W; k++) if(pid[k]) kill(pid[k], SIGKILL); }
            }
            usleep(2000);
        }
        uint64_t ex = 0, nodes = 0, ops = 0, chk = 0; std::set<std::string> kn;
        for(int w = 0; w < W; w++) { auto& s = sh->w[w]; ex += s.execs; nodes += s.nodes; ops += s.ops; chk += s.checked;
            std::string k = s.known, c; for(char ch : k) { if(ch == '\n') { kn.insert(c); c.clear(); } else c += ch; } }
        uint64_t dist = sh->distinct - prev_distinct; prev_distinct = sh->distinct;
        fprintf(out, "%s\n{\"name\":\"%s\",\"executions\":%llu,\"nodes\":%llu,\"ops\":%llu,\"compared\":%llu,\"new_model_states\":%llu,\"truncated\":%s,\"wall_s\":%.2f", first ? "" : ",", b.name.c_str(), (unsigned long long)ex, (unsigned long long)nodes, (unsigned long long)ops, (unsigned long long)chk, (unsigned long long)dist, trunc ? "true" : "false", now_s() - t0);
        first = false;
        fprintf(out, ",\"known\":["); bool f2 = true; for(auto& k : kn) { fprintf(out, "%s\"%s\"", f2 ? "" : ",", esc(k).c_str()); f2 = false; } fprintf(out, "]");
        if(bad >= 0) {
            std::vector<int> ch; int n = std::min((int)sh->w[bad].nchoice, MAXC); for(int i = 0; i < n; i++) ch.push_back(sh->w[bad].choices[i]);
            Replay r = replay(b, ch, tier);
            std::string cs; for(int c : ch) cs += (cs.empty() ? "" : ",") + std::to_string(c);
            fprintf(out, ",\"violation\":{\"message\":\"%s\",\"choices\":\"%s\",\"reproduced\":%s,\"replay_message\":\"%s\",\"text\":\"%s\"}", esc(badmsg).c_str(), cs.c_str(), r.bad ? "true" : "false", esc(r.msg).c_str(), esc(r.text).c_str());
            rc = 1;
        }
        else {
            fprintf(out, ",\"samples\":["); int cnt = 0;
            for(int w : {0, W / 2}) { auto& s = sh->w[w]; if(s.sample_n == 0 || cnt == 2) continue; std::vector<int> ch(s.sample, s.sample + s.sample_n); Replay r = replay(b, ch, tier); std::string t = r.text; if(t.size() > 1500) t = t.substr(0, 1500) + "..."; fprintf(out, "%s\"%s\"", cnt ? "," : "", esc(t).c_str()); cnt++; }
            fprintf(out, "]");
        }
        fprintf(out, "}"); fflush(out);
        if(rc) break;
    }
    fprintf(out, "],\"distinct_model_states\":%llu}\n", (unsigned long long)sh->distinct); fclose(out);
    return rc;
}
