// Exploration engine: see mc.hpp.
#include "mc.hpp"
#include <grp.h>
#include <sys/prctl.h>

namespace mc {
    static std::vector<scenario>& registry() { static std::vector<scenario> r; return r; }
    registrar::registrar(const char* name, void (*body)(), unsigned split) {
        registry().push_back({name, body, split});
    }

    static const unsigned MAXLEN = 8000;
    static const unsigned MAXWORKER = 64;
    static const unsigned MAXSCEN = 64;
    static const std::size_t MAXUNIT = 1u << 22;

    struct slot {
        std::atomic<std::uint64_t> seq;    // execution sequence number (odd: running)
        std::atomic<std::uint32_t> scen;
        std::atomic<std::uint32_t> len;
        std::uint16_t path[MAXLEN];
        std::uint16_t arity[MAXLEN];
        std::atomic<int> state;            // 0 running, 1 finished, 2 violation
        char msg[4096];
        std::uint64_t execs[MAXSCEN], nodes[MAXSCEN], ops[MAXSCEN], rejs[MAXSCEN];
        std::uint64_t capped[MAXSCEN];
        std::uint32_t maxdepth[MAXSCEN];
        std::uint32_t samplelen[MAXSCEN];
        std::uint16_t sample[MAXSCEN][256];
        char known[16][256]; std::uint32_t nknown;
    };
    struct shared {
        std::atomic<int> stop;
        std::atomic<std::uint32_t> stop_above;
        slot slots[MAXWORKER];
        std::atomic<std::uint8_t> claimed[1];
    };
    static shared* sh = nullptr;
    static slot* me = nullptr;

    struct node { std::uint16_t c, n; bool s; };
    int rt_depth = 0;                      // > 0: running code of the engine, not of the program under test (conc_rt.cpp)
    struct rt_scope { rt_scope() { ++rt_depth; } ~rt_scope() { --rt_depth; } };
    static const unsigned DYN = 0xffffu;   // "split" of schedule scenarios: a work unit is everything below a first deviation
    static std::vector<node> path;
    static std::size_t pos = 0;
    static unsigned split = 0;
    static bool exploring = false, claimed_ok = false, new_prefix = false;
    static std::uint64_t unit_counter = 0;
    static std::size_t claim_base = 0;
    static std::size_t first_new = 0;
    static bool is_thorough = false, is_verbose = false;
    static std::unordered_set<std::uint64_t> outcomes;
    static unsigned cur_scen = 0;
    static std::set<std::string> known_keys;
    static double t_end = 0;

    static double now() { struct timespec t; clock_gettime(CLOCK_MONOTONIC, &t); return t.tv_sec + 1e-9*t.tv_nsec; }

    bool thorough() { return is_thorough; }
    bool verbose() { return is_verbose; }
    static int log_fd = -1;
    static unsigned log_count = 0;
    void logs(const std::string& s) {
        rt_scope rs;
        if (log_fd < 0 || ++log_count > 2000) return;
        std::string l = "  " + s + "\n";
        if (write(log_fd, l.data(), l.size()) < 0) {}
    }
    void op(unsigned n) { me->ops[cur_scen] += n; }
    void rejection() { me->rejs[cur_scen] += 1; }
    void outcome(std::uint64_t h) { rt_scope rs; if (outcomes.size() < 400000) outcomes.insert(mix(h, cur_scen)); }

    [[noreturn]] static void internal(const char* m) {
        fprintf(stderr, "mc: internal error: %s\n", m); fflush(stderr); _exit(3);
    }

    static bool claim(std::uint64_t u) {
        std::size_t i = claim_base + u;
        if (i >= MAXUNIT) internal("too many work units");
        std::uint8_t e = 0;
        return sh->claimed[i].compare_exchange_strong(e, 1);
    }

    static unsigned choose_(unsigned n, bool sched) {
        rt_scope rs;
        if (n == 0) internal("choose(0)");
        if (n > 65535) internal("choose: arity too large");
        if (n == 1) return 0;
        if (exploring && split != DYN && pos == split && new_prefix) {
            new_prefix = false;
            claimed_ok = claim(unit_counter++);
            if (!claimed_ok) throw pruned{};
        }
        if (pos < path.size()) {
            if (path[pos].n != n) {
                if (!exploring && path[pos].n == 0) { path[pos].n = n; if (path[pos].c >= n) internal("replay: choice out of range"); }
                else internal("nondeterministic harness: arity changed on replay of a prefix");
            }
        } else {
            if (!exploring) internal("replay: path too short");
            if (path.size() >= MAXLEN) internal("path too long");
            path.push_back({0, (std::uint16_t)n, sched});
        }
        std::uint16_t c = path[pos].c;
        me->path[pos] = c; me->arity[pos] = (std::uint16_t)n;
        ++pos;
        me->len.store((std::uint32_t)pos, std::memory_order_release);
        if (exploring && split == DYN && sched && c != 0 && new_prefix) {
            new_prefix = false;
            claimed_ok = claim(unit_counter++);
            if (!claimed_ok) throw pruned{};
        }
        return c;
    }
    unsigned choose(unsigned n) { return choose_(n, false); }
    unsigned choose_sched(unsigned n) { return choose_(n, true); }
    static std::size_t first_dev() { for (std::size_t i = 0; i < path.size(); ++i) if (path[i].s && path[i].c) return i; return path.size(); }

    struct nullbuf : std::streambuf { int overflow(int c) override { return c; }
        std::streamsize xsputn(const char*, std::streamsize n) override { return n; } };
    static nullbuf nb;

    struct known_hit {};
}
namespace mc {
    // 0 ok, 1 pruned, 2 violation, 3 known
    static int run_body(const scenario& s, std::string& msg) {
        pos = 0; me->len = 0;
        me->seq.fetch_add(1);
        int r = 0;
        try { s.body(); }
        catch (pruned&) { r = 1; }
        catch (skip&) { r = 4; }
        catch (violation& v) { r = 2; msg = v.msg; }
        catch (rejected&) { r = 2; msg = "the library terminated the program on a case that must succeed"; }
        catch (std::exception& e) { r = 2; msg = std::string("unexpected exception: ") + e.what(); }
        catch (...) { r = 2; msg = "unexpected exception"; }
        me->seq.fetch_add(1);
        return r;
    }

    static bool match_known(const std::string& msg, std::string& key) {
        // a violation message may start with "[key] "
        if (msg.size() > 2 && msg[0] == '[') {
            auto e = msg.find("] ");
            if (e != std::string::npos) { key = msg.substr(1, e-1); return known_keys.count(key) != 0; }
        }
        return false;
    }

    // Checks that exercise code which writes or deletes files run it as an unprivileged user
    static void drop_privileges() {
        if (!getenv("MC_UNPRIV") || geteuid() != 0) return;
        if (setgroups(0, nullptr) != 0 || setgid(65534) != 0 || setuid(65534) != 0) internal("cannot drop privileges");
        prctl(PR_SET_DUMPABLE, 1);
    }

    static void worker_main(unsigned id, const std::string& only) {
        me = &sh->slots[id];
        char fn[512]; snprintf(fn, sizeof fn, "%s.w%u", getenv("MC_OUTBASE"), id);
        FILE* outf = fopen(fn, "wb");
        drop_privileges();
        std::cout.rdbuf(&nb); std::cerr.rdbuf(&nb); std::clog.rdbuf(&nb);
        std::size_t base = 0;
        auto& reg = registry();
        for (unsigned si = 0; si < reg.size(); ++si) {
            if (!only.empty() && only != reg[si].name) continue;
            cur_scen = si; me->scen = si;
            path.clear(); exploring = true; split = reg[si].split; unit_counter = 0;
            claim_base = base; new_prefix = true; claimed_ok = false; first_new = 0;
            for (;;) {
                std::string msg;
                std::uint64_t ops0 = me->ops[si], rej0 = me->rejs[si];
                int r = run_body(reg[si], msg);
                if (new_prefix && r != 1) { // finished before reaching the split depth
                    new_prefix = false;
                    claimed_ok = claim(unit_counter++);
                    if (!claimed_ok) r = 1;
                }
                if (r == 4) { me->ops[si] = ops0; me->rejs[si] = rej0; }
                if (r != 1 && r != 4) {
                    me->execs[si]++;
                    me->nodes[si] += path.size() - std::min(first_new, path.size()) + (first_new == 0 ? 1 : 0);
                    if (path.size() > me->maxdepth[si]) me->maxdepth[si] = path.size();
                    if (me->execs[si] == 1 || (me->execs[si] & (me->execs[si]-1)) == 0) {
                        me->samplelen[si] = std::min<std::size_t>(256, path.size());
                        for (unsigned k = 0; k < me->samplelen[si]; ++k) me->sample[si][k] = path[k].c;
                        if (path.size() > 256) me->samplelen[si] = 0;
                    }
                    if (r == 2) {
                        std::string key;
                        if (match_known(msg, key)) {
                            bool seen = false;
                            for (unsigned k = 0; k < me->nknown; ++k) seen = seen || key == me->known[k];
                            if (!seen && me->nknown < 16) { snprintf(me->known[me->nknown], 256, "%s", key.c_str()); me->nknown++; }
                        } else {
                            snprintf(me->msg, sizeof(me->msg), "%s", msg.c_str());
                            me->state = 2; sh->stop = 1; _exit(0);
                        }
                    }
                }
                if (r == 1) { me->ops[si] = ops0; me->rejs[si] = rej0; }
                // backtrack
                if (r == 1 && split == DYN) { std::size_t d = first_dev(); if (d < path.size()) path.resize(d+1); }
                else if (r == 1 && path.size() > split) path.resize(split);
                while (!path.empty() && path.back().c + 1 >= path.back().n) path.pop_back();
                if (path.empty()) break;
                path.back().c++;
                first_new = path.size() - 1;
                if (split == DYN ? path.size() <= first_dev()+1 : path.size() <= split) new_prefix = true;
                if (sh->stop) _exit(0);
                if (t_end > 0 && now() > t_end) { me->capped[si]++; break; }
            }
            base += unit_counter;
        }
        // distinct outcomes
        for (auto h : outcomes) fwrite(&h, 8, 1, outf);
        fclose(outf);
        me->state = 1;
        _exit(0);
    }

    static std::string jstr(const std::string& s) {
        std::string r = "\"";
        for (unsigned char c : s) {
            if (c == '"' || c == '\\') { r += '\\'; r += c; }
            else if (c < 32 || c >= 127) { char b[8]; snprintf(b, 8, "\\u%04x", c); r += b; }
            else r += c;
        }
        return r + "\"";
    }

    struct replay_result { int kind; std::string msg; std::string log; }; // 0 ok 2 violation 4 skipped 6 crash 5 hang 3 internal

    static replay_result do_replay(unsigned si, const std::vector<std::uint16_t>& p, double limit) {
        int fd[2]; if (pipe(fd)) internal("pipe");
        fflush(stdout); fflush(stderr);
        pid_t pid = fork();
        if (pid == 0) {
            close(fd[0]);
            static slot dummy; me = &dummy;
            dup2(fd[1], 2);
            drop_privileges();
            std::cout.rdbuf(&nb); std::cerr.rdbuf(&nb); std::clog.rdbuf(&nb);
            is_verbose = true; exploring = false; cur_scen = si;
            path.clear(); for (auto c : p) path.push_back({c, 0, false});
            std::string msg;
            log_fd = fd[1]; log_count = 0;
            int r = run_body(registry()[si], msg);
            std::string out;
            out += "\x01" + std::to_string(r) + "\x01" + msg + "\x01";
            std::size_t o = 0; while (o < out.size()) { ssize_t k = write(fd[1], out.data()+o, out.size()-o); if (k <= 0) break; o += k; }
            _exit(0);
        }
        close(fd[1]);
        std::string buf; char b[4096]; double t0 = now(); bool hang = false;
        fcntl(fd[0], F_SETFL, O_NONBLOCK);
        for (;;) {
            ssize_t k = read(fd[0], b, sizeof b);
            if (k > 0) { if (buf.size() < (1u<<20)) buf.append(b, k); continue; }
            if (k == 0) break;
            if (now() - t0 > limit) { hang = true; kill(pid, SIGKILL); break; }
            usleep(2000);
        }
        int st = 0; waitpid(pid, &st, 0); close(fd[0]);
        replay_result rr{0, "", ""};
        if (hang) { rr.kind = 5; rr.msg = "no progress: the operation did not terminate"; rr.log = buf; return rr; }
        auto q = buf.find('\x01');
        if (q == std::string::npos || !WIFEXITED(st) || WEXITSTATUS(st) != 0) {
            rr.kind = (WIFEXITED(st) && WEXITSTATUS(st) == 3) ? 3 : 6; rr.msg = "crash or memory error"; rr.log = buf;
            auto e = buf.find("ERROR: AddressSanitizer"); if (e != std::string::npos) rr.msg = "memory error: " + buf.substr(e, buf.find('\n', e) - e);
            return rr;
        }
        rr.log = buf.substr(0, q);
        auto q2 = buf.find('\x01', q+1), q3 = buf.find('\x01', q2+1);
        rr.kind = atoi(buf.substr(q+1, q2-q-1).c_str()); rr.msg = buf.substr(q2+1, q3-q2-1);
        return rr;
    }
}

extern "C" const char* __asan_default_options() {
    return "detect_leaks=0:exitcode=77:abort_on_error=0:hard_rss_limit_mb=3500:"
           "allocator_may_return_null=0:detect_stack_use_after_return=0:max_malloc_fill_size=65536:malloc_fill_byte=165:"
           "max_free_fill_size=65536:free_fill_byte=90:quarantine_size_mb=16:print_legend=0:fast_unwind_on_malloc=1:malloc_context_size=2:"
           "new_delete_type_mismatch=0:alloc_dealloc_mismatch=0:symbolize=0:handle_segv=1:handle_abort=1";
}

using namespace mc;
int main(int argc, char** argv) {
    std::string only, out, replay, knownf; int jobs = 8; double maxs = 0;
    for (int i = 1; i < argc; ++i) {
        std::string a = argv[i]; auto nx = [&]{ return std::string(argv[++i]); };
        if (a == "--tier") is_thorough = nx() == "thorough";
        else if (a == "--jobs") jobs = atoi(nx().c_str());
        else if (a == "--out") out = nx();
        else if (a == "--scenario") only = nx();
        else if (a == "--replay") replay = nx();
        else if (a == "--known") known_keys.insert(nx());
        else if (a == "--max-seconds") maxs = atof(nx().c_str());
    }
    auto& reg = registry();
    if (reg.size() > MAXSCEN) internal("too many scenarios");
    if (!replay.empty()) {
        auto c = replay.find(':'); std::string sn = replay.substr(0, c); std::vector<std::uint16_t> p;
        std::stringstream ss(replay.substr(c+1)); std::string t;
        while (std::getline(ss, t, ',')) if (!t.empty()) p.push_back(atoi(t.c_str()));
        for (unsigned si = 0; si < reg.size(); ++si) if (sn == reg[si].name) {
            auto r = do_replay(si, p, 120);
            printf("%s", r.log.c_str());
            if (r.kind == 0 || r.kind == 1 || r.kind == 4) { printf("replay: property held\n"); return 0; }
            printf("replay: %s\n", r.msg.c_str()); return r.kind == 3 ? 2 : 1;
        }
        fprintf(stderr, "unknown scenario\n"); return 2;
    }
    setenv("MC_OUTBASE", out.c_str(), 1);
    std::size_t sz = sizeof(shared) + MAXUNIT;
    sh = (shared*)mmap(nullptr, sz, PROT_READ|PROT_WRITE, MAP_SHARED|MAP_ANONYMOUS|MAP_NORESERVE, -1, 0);
    if (sh == MAP_FAILED) internal("mmap");
    double t0 = now(); if (maxs > 0) t_end = t0 + maxs;
    if (jobs > (int)MAXWORKER) jobs = MAXWORKER;
    std::vector<pid_t> pids(jobs, 0); std::vector<std::uint64_t> lastseq(jobs, 0); std::vector<double> since(jobs, t0);
    std::vector<std::uint64_t> cleared(jobs, 0);
    std::vector<std::string> errf(jobs);
    for (int w = 0; w < jobs; ++w) {
        fflush(stdout); fflush(stderr);
        errf[w] = out + ".e" + std::to_string(w);
        pid_t p = fork();
        if (p == 0) {
            int fd = open(errf[w].c_str(), O_WRONLY|O_CREAT|O_TRUNC, 0644); dup2(fd, 2); dup2(fd, 1);
            worker_main(w, only);
        }
        pids[w] = p;
    }
    int live = jobs; bool viol = false, interr = false, killed = false; unsigned vscen = 0; std::vector<std::uint16_t> vpath; std::string vmsg, vlog, note;
    int vw = -1;
    while (live > 0) {
        int st; pid_t p = waitpid(-1, &st, WNOHANG);
        if (p > 0) {
            for (int w = 0; w < jobs; ++w) if (pids[w] == p) {
                pids[w] = 0; --live; slot& s = sh->slots[w];
                if (s.state == 2 && !viol) { viol = true; vw = w; vmsg = s.msg; sh->stop = 1; }
                else if (s.state == 0 && !(sh->stop && WIFEXITED(st) && WEXITSTATUS(st) == 0)) {
                    if (WIFEXITED(st) && WEXITSTATUS(st) == 3) { interr = true; sh->stop = 1; vw = w; }
                    else if (!viol) { viol = true; vw = w; vmsg = "crash or memory error"; sh->stop = 1; if (WIFSIGNALED(st) && WTERMSIG(st) == SIGKILL) killed = true; }
                }
            }
            continue;
        }
        usleep(20000);
        double t = now();
        for (int w = 0; w < jobs; ++w) if (pids[w]) {
            slot& s = sh->slots[w]; std::uint64_t q = s.seq;
            if (q != lastseq[w]) { lastseq[w] = q; since[w] = t; continue; }
            if ((q & 1) && t - since[w] > 20 && cleared[w] != q && !viol) {
                // suspected hang: re-run that case alone before deciding
                std::vector<std::uint16_t> p2(s.path, s.path + s.len);
                auto r = do_replay(s.scen, p2, 60);
                if (s.seq == q && r.kind == 5) { viol = true; vw = w; vmsg = r.msg; sh->stop = 1; }
                else cleared[w] = q;
            }
            if (sh->stop && t - since[w] > 5) { kill(pids[w], SIGKILL); }
        }
        if (viol && sh->stop) {
            // give the others a moment, then end them
            for (int k = 0; k < 50 && live > 0; ++k) {
                int st2; pid_t p2;
                while ((p2 = waitpid(-1, &st2, WNOHANG)) > 0) for (int w = 0; w < jobs; ++w) if (pids[w] == p2) { pids[w] = 0; --live; }
                usleep(20000);
            }
            for (int w = 0; w < jobs; ++w) if (pids[w]) { kill(pids[w], SIGKILL); waitpid(pids[w], &st, 0); pids[w] = 0; --live; }
        }
    }
    if (interr) {
        fprintf(stderr, "mc: a worker reported an internal error:\n");
        std::ifstream f(errf[vw]); std::string l; while (std::getline(f, l)) fprintf(stderr, "%s\n", l.c_str());
        return 2;
    }
    bool reproduced = true;
    if (viol) {
        slot& s = sh->slots[vw]; vscen = s.scen; vpath.assign(s.path, s.path + s.len);
        auto r1 = do_replay(vscen, vpath, 120);
        auto r2 = do_replay(vscen, vpath, 120);
        vlog = r1.log;
        if ((r1.kind == 2 || r1.kind >= 5) && (r2.kind == 2 || r2.kind >= 5)) {
            vmsg = r1.msg;
        } else {
            reproduced = false;
            if (killed) { fprintf(stderr, "mc: a worker was killed from outside\n"); return 2; }
            std::ifstream f(errf[vw]); std::string l; int n = 0; while (std::getline(f, l) && n++ < 60) note += l + "\n";
        }
    }
    // merge
    std::unordered_set<std::uint64_t> all;
    for (int w = 0; w < jobs; ++w) {
        std::string fn = out + ".w" + std::to_string(w);
        FILE* f = fopen(fn.c_str(), "rb");
        if (f) { std::uint64_t h; while (fread(&h, 8, 1, f) == 1) all.insert(h); fclose(f); unlink(fn.c_str()); }
        unlink(errf[w].c_str());
    }
    std::ostringstream o; o << "{\"scenarios\":[";
    std::uint64_t te = 0, tn = 0, to = 0, tr = 0, tc = 0, reps = 0; bool det = true;
    for (unsigned si = 0; si < reg.size(); ++si) {
        if (!only.empty() && only != reg[si].name) continue;
        std::uint64_t e=0,n=0,p=0,r=0,c=0; unsigned md=0; int sw=-1;
        for (int w = 0; w < jobs; ++w) { slot& s = sh->slots[w]; e+=s.execs[si]; n+=s.nodes[si]; p+=s.ops[si]; r+=s.rejs[si]; c+=s.capped[si]; md=std::max(md,s.maxdepth[si]); if (s.samplelen[si] && (sw<0)) sw=w; }
        te+=e; tn+=n; to+=p; tr+=r; tc+=c;
        std::string slog, spath;
        if (sw >= 0 && !viol) {
            slot& s = sh->slots[sw];
            std::vector<std::uint16_t> pp(s.sample[si], s.sample[si]+s.samplelen[si]);
            auto a = do_replay(si, pp, 60), b = do_replay(si, pp, 60); reps += 2;
            if (a.kind != b.kind || a.log != b.log) det = false;
            slog = a.log; if (slog.size() > 600) slog.resize(600);
            for (auto x : pp) spath += (spath.empty()?"":",") + std::to_string(x);
        }
        if (si && o.str().back() != '[') o << ",";
        o << "{\"name\":" << jstr(reg[si].name) << ",\"executions\":" << e << ",\"states\":" << n << ",\"operations\":" << p
          << ",\"rejections\":" << r << ",\"max_depth\":" << md << ",\"capped\":" << (c?"true":"false")
          << ",\"sample_choices\":" << jstr(spath) << ",\"sample\":" << jstr(slog) << "}";
    }
    std::set<std::string> kn; for (int w = 0; w < jobs; ++w) for (unsigned k = 0; k < sh->slots[w].nknown; ++k) kn.insert(sh->slots[w].known[k]);
    o << "],\"executions\":" << te << ",\"states\":" << tn << ",\"operations\":" << to << ",\"rejections\":" << tr
      << ",\"distinct_outcomes\":" << all.size() << ",\"exhaustive\":" << (tc?"false":"true") << ",\"deterministic_replay\":" << (det?"true":"false")
      << ",\"replays\":" << reps << ",\"known\":[";
    bool f1 = true; for (auto& k : kn) { o << (f1?"":",") << jstr(k); f1 = false; }
    o << "],\"wall_s\":" << (now()-t0);
    if (viol) {
        std::string p; for (auto x : vpath) p += (p.empty()?"":",") + std::to_string(x);
        o << ",\"violation\":{\"scenario\":" << jstr(reg[vscen].name) << ",\"choices\":" << jstr(p) << ",\"message\":" << jstr(vmsg)
          << ",\"log\":" << jstr(vlog) << ",\"note\":" << jstr(note) << ",\"reproduced\":" << (reproduced?"true":"false") << "}";
    }
    o << "}\n";
    std::ofstream(out) << o.str();
    if (!det && !viol) { fprintf(stderr, "mc: replay of a sample execution diverged\n"); return 2; }
    return viol ? 1 : 0;
}
