// Runner for engine A: case scheduling, crash capture, shrinking, replay.
#include "pbt.hpp"

#include <algorithm>
#include <array>
#include <atomic>
#include <chrono>
#include <cerrno>
#include <csignal>
#include <fcntl.h>
#include <fstream>
#include <functional>
#include <map>
#include <set>
#include <sys/mman.h>
#include <sys/resource.h>
#include <sys/time.h>
#include <sys/wait.h>
#include <unistd.h>

extern "C" char const *__asan_default_options() {
    return "detect_leaks=0:abort_on_error=0:exitcode=86:allocator_may_return_"
           "null=1:handle_abort=0:detect_stack_use_after_return=0";
}
extern "C" char const *__ubsan_default_options() {
    return "print_stacktrace=0:halt_on_error=1:exitcode=86";
}

namespace pbt {
std::vector<Variant> &variants() {
    static std::vector<Variant> v;
    return v;
}
std::vector<std::string> &Ctx::label_names() {
    static std::vector<std::string> v;
    return v;
}
unsigned label_id(char const *name) {
    auto &v = Ctx::label_names();
    for (unsigned i = 0; i < v.size(); ++i) {
        if (v[i] == name) {
            return i;
        }
    }
    if (v.size() >= 63) {
        return 63;
    }
    v.emplace_back(name);
    return static_cast<unsigned>(v.size() - 1);
}
} // namespace pbt

namespace {
using namespace pbt;
using tape_t = std::vector<u64>;

struct Shm {
    std::atomic<u32> stop;
    u64 case_index;
    u32 in_case;
    u32 failed;
    u32 tape_len;
    u64 tape[tape_cap];
    char msg[4096];
    char log[24000];
};

Shm *new_shm() {
    auto *p = mmap(nullptr, sizeof(Shm), PROT_READ | PROT_WRITE,
                   MAP_SHARED | MAP_ANONYMOUS, -1, 0);
    if (p == MAP_FAILED) {
        std::perror("mmap");
        std::exit(3);
    }
    return static_cast<Shm *>(p);
}

double now() {
    using namespace std::chrono;
    return duration<double>(steady_clock::now().time_since_epoch()).count();
}

void on_prof(int) { _exit(78); }
void arm(int secs) {
    itimerval t{};
    t.it_value.tv_sec = secs;
    setitimer(ITIMER_PROF, &t, nullptr);
}

enum class outcome { pass, fail, discarded };

std::vector<u32> cum;
void prepare_variants() {
    auto &v = variants();
    std::sort(v.begin(), v.end(),
              [](auto const &a, auto const &b) { return a.name < b.name; });
    u32 t = 0;
    for (auto const &x : v) {
        t += x.weight;
        cum.push_back(t);
    }
}

outcome run_case(Ctx &c, std::string &msg) {
    try {
        auto const x = c.choose(cum.back());
        auto const i = static_cast<std::size_t>(
            std::upper_bound(cum.begin(), cum.end(), x) - cum.begin());
        c.note("[%s]", variants()[i].name.c_str());
        variants()[i].fn(c);
        return outcome::pass;
    } catch (failure const &f) {
        msg = f.msg;
        return outcome::fail;
    } catch (discard const &) {
        return outcome::discarded;
    } catch (std::exception const &e) {
        msg = std::string{"unexpected exception: "} + e.what();
        return outcome::fail;
    } catch (...) {
        msg = "unexpected exception";
        return outcome::fail;
    }
}

void put(char *dst, std::size_t n, std::string const &s) {
    auto const k = std::min(n - 1, s.size());
    std::memcpy(dst, s.data(), k);
    dst[k] = 0;
}

std::string slurp(std::string const &path, std::size_t max = 1500) {
    std::ifstream f(path);
    std::string s((std::istreambuf_iterator<char>(f)), {});
    if (s.size() > max) {
        s.resize(max);
    }
    return s;
}

std::string status_text(int st, std::string const &errfile) {
    std::string m;
    if (WIFSIGNALED(st)) {
        m = "killed by signal " + std::to_string(WTERMSIG(st));
    } else if (WEXITSTATUS(st) == 78) {
        m = "case exceeded its CPU-time limit (non-termination)";
    } else {
        m = "process exited with status " + std::to_string(WEXITSTATUS(st));
    }
    auto e = slurp(errfile);
    if (not e.empty()) {
        m += "; stderr: " + e;
    }
    return m;
}

struct single_result {
    bool failed{};
    std::string msg, log;
    tape_t tape;
};

// run one tape in a forked child
single_result run_single(Shm *shm, tape_t const &tape, bool verbose,
                         std::string const &errfile, int cpu_secs) {
    shm->failed = 0;
    shm->tape_len = 0;
    shm->msg[0] = 0;
    shm->log[0] = 0;
    auto const pid = fork();
    if (pid == 0) {
        int fd = open(errfile.c_str(), O_CREAT | O_TRUNC | O_WRONLY, 0644);
        dup2(fd, 2);
        dup2(fd, 1);
        std::signal(SIGPROF, on_prof);
        arm(cpu_secs);
        Ctx c{shm->tape, &shm->tape_len};
        c.verbose = verbose;
        c.replay(tape.data(), tape.size());
        std::string msg;
        auto const r = run_case(c, msg);
        put(shm->log, sizeof shm->log, c.log);
        if (r == outcome::fail) {
            put(shm->msg, sizeof shm->msg, msg);
            shm->failed = 1;
        }
        _exit(0);
    }
    int st = 0;
    while (waitpid(pid, &st, 0) < 0 and errno == EINTR) {
    }
    single_result r;
    r.tape.assign(shm->tape, shm->tape + shm->tape_len);
    r.log = shm->log;
    if (st != 0) {
        r.failed = true;
        r.msg = status_text(st, errfile);
    } else if (shm->failed) {
        r.failed = true;
        r.msg = shm->msg;
    }
    return r;
}

bool simpler(tape_t const &a, tape_t const &b) {
    if (a.size() != b.size()) {
        return a.size() < b.size();
    }
    return std::lexicographical_compare(a.begin(), a.end(), b.begin(), b.end());
}

tape_t shrink(Shm *shm, tape_t best, std::string const &errfile, int &attempts,
              int max_attempts, double max_wall) {
    auto const t0 = now();
    auto over = [&] {
        return attempts >= max_attempts or now() - t0 > max_wall;
    };
    std::set<tape_t> seen;
    auto attempt = [&](tape_t cand) {
        if (over() or not seen.insert(cand).second) {
            return false;
        }
        ++attempts;
        auto r = run_single(shm, cand, false, errfile, 3);
        if (r.failed) {
            auto t = r.tape;
            while (not t.empty() and t.back() == 0) {
                t.pop_back();
            }
            while (not cand.empty() and cand.back() == 0) {
                cand.pop_back();
            }
            if (simpler(cand, t)) {
                t = cand;
            }
            if (simpler(t, best)) {
                best = t;
                return true;
            }
        }
        return false;
    };
    bool progress = true;
    while (progress and not over()) {
        progress = false;
        for (std::size_t len = std::max<std::size_t>(best.size() / 2, 1);
             len >= 1; len = len > 8 ? len / 2 : len - 1) {
            for (std::size_t i = 0; i + len <= best.size() and not over();) {
                auto t = best;
                t.erase(t.begin() + static_cast<long>(i),
                        t.begin() + static_cast<long>(i + len));
                if (attempt(t)) {
                    progress = true;
                } else {
                    i += std::max<std::size_t>(1, len / 2);
                }
            }
        }
        for (std::size_t i = 0; i < best.size() and not over(); ++i) {
            if (best[i] == 0) {
                continue;
            }
            auto t = best;
            t[i] = 0;
            if (attempt(t)) {
                progress = true;
                continue;
            }
            if (i >= best.size()) {
                break;
            }
            u64 lo = 0, hi = best[i];
            while (lo + 1 < hi and not over() and i < best.size()) {
                auto const mid = lo + (hi - lo) / 2;
                auto t2 = best;
                t2[i] = mid;
                if (attempt(t2)) {
                    progress = true;
                    if (i >= best.size()) {
                        break;
                    }
                    hi = std::min(mid, best[i]);
                } else {
                    lo = mid;
                }
            }
        }
    }
    return best;
}

std::string esc(std::string const &s) {
    std::string o = "\"";
    for (unsigned char ch : s) {
        if (ch == '"' or ch == '\\') {
            o += '\\';
            o += static_cast<char>(ch);
        } else if (ch == '\n') {
            o += "\\n";
        } else if (ch < 32 or ch > 126) {
            char b[8];
            std::snprintf(b, sizeof b, "\\u%04x", ch);
            o += b;
        } else {
            o += static_cast<char>(ch);
        }
    }
    return o + "\"";
}

u64 tape_hash(u64 const *p, std::size_t n) {
    u64 h = 0x1234567;
    for (std::size_t i = 0; i < n; ++i) {
        h = mix(h ^ p[i]);
    }
    return mix(h ^ n);
}

struct worker_stats {
    u64 evals{}, nontriv{}, discards{}, nsamples{};
    u64 labels[64]{};
    u64 variant_counts[512]{};
};

void worker(Shm *shm, u64 seed, u64 w, u64 jobs, u64 cases,
            std::string const &dir) {
    auto const base = dir + "/w" + std::to_string(w);
    int fd = open((base + ".err").c_str(), O_CREAT | O_TRUNC | O_WRONLY, 0644);
    dup2(fd, 2);
    dup2(fd, 1);
    std::signal(SIGPROF, on_prof);
    worker_stats st;
    std::vector<u64> hashes;
    std::vector<tape_t> samples;
    Ctx c{shm->tape, &shm->tape_len};
    std::string msg;
    for (u64 i = w; i < cases; i += jobs) {
        if (shm->stop.load(std::memory_order_relaxed)) {
            break;
        }
        shm->case_index = i;
        shm->tape_len = 0;
        c.nontriv = false;
        c.labels = 0;
        c.seed(mix(mix(seed) ^ mix(i * 0x51ed27f5ull + 77)));
        if ((i / jobs) % 64 == 0) {
            arm(20); // CPU seconds for up to 64 cases; normal cases take < 5 ms
        }
        shm->in_case = 1;
        auto const r = run_case(c, msg);
        shm->in_case = 0;
        if (r == outcome::fail) {
            put(shm->msg, sizeof shm->msg, msg);
            shm->failed = 1;
            _exit(77);
        }
        if (r == outcome::discarded) {
            ++st.discards;
            continue;
        }
        ++st.evals;
        for (unsigned b = 0; b < 64; ++b) {
            st.labels[b] += (c.labels >> b) & 1u;
        }
        if (c.nontriv) {
            ++st.nontriv;
            if (hashes.size() < 3000000) {
                hashes.push_back(tape_hash(shm->tape, shm->tape_len));
            }
            if (samples.size() < 2 and (st.nontriv % 37 == 5)) {
                samples.emplace_back(shm->tape, shm->tape + shm->tape_len);
            }
        }
    }
    arm(0);
    std::sort(hashes.begin(), hashes.end());
    hashes.erase(std::unique(hashes.begin(), hashes.end()), hashes.end());
    st.nsamples = samples.size();
    std::ofstream f(base + ".bin", std::ios::binary);
    f.write(reinterpret_cast<char const *>(&st), sizeof st);
    u64 n = hashes.size();
    f.write(reinterpret_cast<char const *>(&n), 8);
    f.write(reinterpret_cast<char const *>(hashes.data()),
            static_cast<std::streamsize>(n * 8));
    for (auto const &s : samples) {
        u64 k = s.size();
        f.write(reinterpret_cast<char const *>(&k), 8);
        f.write(reinterpret_cast<char const *>(s.data()),
                static_cast<std::streamsize>(k * 8));
    }
    // label names are registered lazily per process
    std::ofstream lf(base + ".labels");
    for (auto const &l : Ctx::label_names()) {
        lf << l << "\n";
    }
    lf.close();
    f.close();
    _exit(0);
}
} // namespace

int main(int argc, char **argv) {
    u64 seed = 1, cases = 1000, jobs = 8;
    double maxwall = 600;
    std::string dir = ".", replay, out;
    for (int i = 1; i + 1 < argc; i += 2) {
        std::string a = argv[i], v = argv[i + 1];
        if (a == "--seed") {
            seed = std::strtoull(v.c_str(), nullptr, 10);
        } else if (a == "--cases") {
            cases = std::strtoull(v.c_str(), nullptr, 10);
        } else if (a == "--jobs") {
            jobs = std::strtoull(v.c_str(), nullptr, 10);
        } else if (a == "--maxwall") {
            maxwall = std::atof(v.c_str());
        } else if (a == "--dir") {
            dir = v;
        } else if (a == "--replay") {
            replay = v;
        } else if (a == "--out") {
            out = v;
        }
    }
    prepare_variants();
    auto const err1 = dir + "/single.err";
    auto *sshm = new_shm();
    std::ofstream o(out.empty() ? dir + "/result.json" : out);

    if (not replay.empty()) { // file: whitespace separated tape
        std::ifstream f(replay);
        tape_t t;
        u64 x{};
        while (f >> x) {
            t.push_back(x);
        }
        auto r = run_single(sshm, t, true, err1, 20);
        o << "{\"failed\":" << (r.failed ? "true" : "false")
          << ",\"msg\":" << esc(r.msg) << ",\"log\":" << esc(r.log) << "}\n";
        return r.failed ? 1 : 0;
    }

    std::vector<Shm *> shms;
    std::vector<pid_t> pids;
    for (u64 w = 0; w < jobs; ++w) {
        shms.push_back(new_shm());
        auto const pid = fork();
        if (pid == 0) {
            worker(shms[w], seed, w, jobs, cases, dir);
        }
        pids.push_back(pid);
    }
    auto const t0 = now();
    bool capped = false;
    std::vector<int> status(jobs, -1);
    u64 left = jobs;
    auto stop_all = [&] {
        for (auto *s : shms) {
            s->stop.store(1);
        }
    };
    while (left > 0) {
        int st = 0;
        auto const p = waitpid(-1, &st, WNOHANG);
        if (p > 0) {
            for (u64 w = 0; w < jobs; ++w) {
                if (pids[w] == p) {
                    status[w] = st;
                    --left;
                }
            }
            if (st != 0) {
                stop_all();
            }
            continue;
        }
        if (not capped and now() - t0 > maxwall) {
            capped = true;
            stop_all();
        }
        usleep(3000);
    }

    struct cand {
        u64 idx;
        tape_t tape;
        std::string msg;
    };
    std::vector<cand> cands;
    worker_stats tot;
    std::map<std::string, u64> labels;
    std::vector<u64> hashes;
    std::vector<tape_t> samples;
    for (u64 w = 0; w < jobs; ++w) {
        auto const base = dir + "/w" + std::to_string(w);
        if (status[w] != 0) {
            cand cd;
            cd.idx = shms[w]->case_index;
            cd.tape.assign(shms[w]->tape, shms[w]->tape + shms[w]->tape_len);
            cd.msg = shms[w]->failed ? shms[w]->msg
                                     : status_text(status[w], base + ".err");
            cands.push_back(std::move(cd));
            continue;
        }
        std::ifstream f(base + ".bin", std::ios::binary);
        worker_stats st;
        f.read(reinterpret_cast<char *>(&st), sizeof st);
        tot.evals += st.evals;
        tot.nontriv += st.nontriv;
        tot.discards += st.discards;
        u64 n = 0;
        f.read(reinterpret_cast<char *>(&n), 8);
        auto const at = hashes.size();
        hashes.resize(at + n);
        f.read(reinterpret_cast<char *>(hashes.data() + at),
               static_cast<std::streamsize>(n * 8));
        for (u64 s = 0; s < st.nsamples; ++s) {
            u64 k = 0;
            f.read(reinterpret_cast<char *>(&k), 8);
            tape_t t(k);
            f.read(reinterpret_cast<char *>(t.data()),
                   static_cast<std::streamsize>(k * 8));
            samples.push_back(std::move(t));
        }
        std::ifstream lf(base + ".labels");
        std::string l;
        for (unsigned i = 0; std::getline(lf, l); ++i) {
            labels[l] += st.labels[i];
        }
    }
    std::sort(hashes.begin(), hashes.end());
    auto const distinct = static_cast<u64>(
        std::unique(hashes.begin(), hashes.end()) - hashes.begin());

    o << "{\"evaluations\":" << tot.evals << ",\"nontrivial\":" << tot.nontriv
      << ",\"distinct_nontrivial\":" << distinct
      << ",\"discards\":" << tot.discards << ",\"variants\":"
      << variants().size() << ",\"capped\":" << (capped ? "true" : "false");
    o << ",\"labels\":{";
    bool first = true;
    for (auto const &[k, v] : labels) {
        o << (first ? "" : ",") << esc(k) << ":" << v;
        first = false;
    }
    o << "},\"samples\":[";
    first = true;
    for (std::size_t i = 0; i < samples.size() and i < 6; ++i) {
        auto r = run_single(sshm, samples[i], true, err1, 20);
        if (r.log.size() > 700) {
            r.log.resize(700);
            r.log += "...";
        }
        o << (first ? "" : ",") << esc(r.log);
        first = false;
    }
    o << "]";

    std::sort(cands.begin(), cands.end(),
              [](auto const &a, auto const &b) { return a.idx < b.idx; });
    int unreproduced = 0;
    for (auto &cd : cands) {
        auto first_run = run_single(sshm, cd.tape, false, err1, 20);
        if (not first_run.failed) {
            ++unreproduced;
            continue;
        }
        int attempts = 0;
        auto best = shrink(sshm, cd.tape, err1, attempts, 4000, 25.0);
        auto confirm = [&](tape_t const &t, single_result &r) {
            for (int k = 0; k < 3; ++k) {
                r = run_single(sshm, t, true, err1, 20);
                if (not r.failed) {
                    return false;
                }
            }
            return true;
        };
        single_result r;
        bool ok = confirm(best, r);
        if (not ok) {
            best = cd.tape;
            ok = confirm(best, r);
        }
        if (not ok) {
            ++unreproduced;
            continue;
        }
        o << ",\"failure\":{\"case\":" << cd.idx << ",\"seed\":" << seed
          << ",\"shrink_attempts\":" << attempts
          << ",\"msg\":" << esc(r.msg) << ",\"first_msg\":" << esc(cd.msg)
          << ",\"log\":" << esc(r.log) << ",\"tape\":[";
        for (std::size_t i = 0; i < best.size(); ++i) {
            o << (i ? "," : "") << best[i];
        }
        o << "]}";
        break;
    }
    o << ",\"unreproduced\":" << unreproduced << "}\n";
    return 0;
}
