// vf <mode> <seed> <first> <count> <progress-file> [verbose]
// modes: hist (histories of one model), threads (many states of one model, one thread each),
//        iter (array views), qm (quadratic models), wide (sums and products over huge ranges)
#include <fcntl.h>
#include <unistd.h>

#include <atomic>
#include <thread>

#include "engine.hpp"
#include "modes.hpp"

using namespace vf;

static int prog_fd = -1;
static void progress(long c) {
    if (prog_fd < 0) return;
    char b[32];
    int n = snprintf(b, sizeof b, "%-24ld\n", c);
    if (pwrite(prog_fd, b, n, 0) != n) _exit(9);
}

static string jstr(const string& s) {
    string o = "\"";
    for (char c : s) {
        if (c == '"' || c == '\\') { o += '\\'; o += c; }
        else if (c == '\n') o += "\\n";
        else if ((unsigned char)c < 32) o += ' ';
        else o += c;
    }
    return o + "\"";
}

struct Found {
    string kind, node, msg, model, log;
};

template <class F>
static void guarded(Found& f, F&& go) {
    try {
        go();
    } catch (const Violation& v) {
        f.kind = v.kind, f.node = v.node, f.msg = v.what();
    } catch (const Abandoned&) {
    } catch (const std::exception& x) {
        f.kind = "exception", f.node = "graph", f.msg = string("unexpected exception: ") + x.what();
    }
}

// one shared locked model; every thread has states of its own
static void run_threads(uint64_t seed, Stats& st, Found& f, string& sample) {
    Engine e(seed, st);
    guarded(f, [&] { e.build(); });
    f.model = e.m.describe();
    if (!f.kind.empty()) return;
    e.m.st = nullptr;
    const int T = (int)e.r.range(2, 6);
    vector<Stats> sts(T);
    vector<Found> fs(T);
    vector<string> logs(T);
    vector<std::map<string, long>> ign(T);
    vector<std::thread> ts;
    std::atomic<int> ready{0};
    for (int t = 0; t < T; ++t)
        ts.emplace_back([&, t] {
            Engine mine(seed * 31 + 17 * (t + 1), sts[t], e.m);
            ++ready;
            while (ready < T) {}
            guarded(fs[t], [&] { mine.run_history((int)mine.r.range(3, 8)); });
            logs[t] = mine.log.str();
            ign[t] = ignored_total;
        });
    for (auto& t : ts) t.join();
    st.add("threads", T);
    for (int t = 0; t < T; ++t) {
        st.merge(sts[t]);
        for (auto& [k, v] : ign[t]) ignored_total[k] += v;
        if (!fs[t].kind.empty() && f.kind.empty()) f = fs[t], f.model = e.m.describe(), f.log = logs[t];
    }
    sample = std::to_string(T) + " threads on\n" + e.m.describe();
}

int main(int argc, char** argv) {
    if (argc < 6) return 2;
    string mode = argv[1];
    uint64_t seed = strtoull(argv[2], 0, 10);
    long first = atol(argv[3]), count = atol(argv[4]);
    prog_fd = open(argv[5], O_CREAT | O_RDWR | O_TRUNC, 0644);
    bool verbose = argc > 6;
    if (const char* k = getenv("VF_KINDS")) {
        std::istringstream is(k);
        string w;
        while (std::getline(is, w, ',')) enabled_kinds.insert(w);
    }
    Stats total;
    std::set<uint64_t> seen, states;
    int nviol = 0;
    string sample;
    for (long c = first; c < first + count; ++c) {
        progress(c);
        ignored_in_case = 0;
        Stats st;
        Found f;
        uint64_t cs = seed * 1000003ull + (uint64_t)c * 7919ull;
        if (mode == "hist") {
            Engine e(cs, st);
            e.states_seen = &states;
            guarded(f, [&] {
                e.build();
                e.run_history((int)e.r.range(4, 14));
            });
            bool changed = false;
            for (auto& [k, v] : st.c) changed = changed || k.starts_with("seen:update") || k.starts_with("seen:placement") || k.starts_with("seen:removal");
            if (changed) seen.insert(std::hash<string>()(e.m.describe() + e.log.str()));
            if (!f.kind.empty() || verbose) f.model = e.m.describe(), f.log = e.log.str();
            if (sample.empty() && changed && e.m.infos.size() > 7) sample = e.m.describe() + e.log.str();
        } else if (mode == "threads") {
            string s;
            run_threads(cs, st, f, s);
            seen.insert(std::hash<string>()(s));
            if (sample.empty()) sample = s;
        } else if (mode == "iter" || mode == "qm" || mode == "wide") {
            Rng r(cs);
            std::ostringstream log;
            guarded(f, [&] {
                if (mode == "iter") iter_case(r, st, log, seen);
                else if (mode == "wide") wide_case(r, st, log, seen);
                else qm_case(r, st, log, seen);
            });
            f.log = log.str();
            if (sample.empty()) sample = f.log;
        } else
            return 2;
        if (verbose) printf("%s%s", f.model.c_str(), f.log.c_str());
        if (!f.kind.empty()) {
            if (nviol < 60)
                printf("VIOL {\"case\": %ld, \"kind\": %s, \"node\": %s, \"msg\": %s, \"model\": %s, \"log\": %s}\n", c,
                       jstr(f.kind).c_str(), jstr(f.node).c_str(), jstr(f.msg).c_str(), jstr(f.model).c_str(), jstr(f.log).c_str());
            fflush(stdout);
            ++nviol;
        }
        st.add("cases");
        total.merge(st);
    }
    progress(-1);
    if (!states.empty()) total.add("distinct_states_of_models", (long)states.size());
    for (auto& [k, v] : ignored_total) total.add("other_kind:" + k, v);
    if (FILE* f = fopen((string(argv[5]) + ".seen").c_str(), "wb")) {
        for (uint64_t h : seen) fwrite(&h, 8, 1, f);
        fclose(f);
    }
    printf("STATS {\"distinct_states\": %zu, \"violations\": %d", seen.size(), nviol);
    for (auto& [k, v] : total.c) printf(", %s: %ld", jstr(k).c_str(), v);
    printf("}\n");
    if (!sample.empty()) printf("SAMPLE %s\n", jstr(sample).c_str());
    return 0;
}
