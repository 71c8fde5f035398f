// C21: the same questions to builds of valijson in several configurations
#include "hostile.hpp"
#include <csignal>
#include <fstream>
#include <map>
#include <poll.h>
#include <spawn.h>
#include <sstream>
#include <sys/stat.h>
#include <sys/wait.h>
#include <unistd.h>
using namespace vh;
extern char **environ;

struct Row { std::string conf, adapter, exe, err; };
static std::vector<Row> &table() {
    static std::vector<Row> t = [] {
        std::vector<Row> v;
        const char *p = getenv("VH_CONF");
        std::ifstream f(p ? p : "/dev/null");
        std::string l;
        while (std::getline(f, l)) {
            std::vector<std::string> c; std::string x; std::istringstream s(l);
            while (std::getline(s, x, '\t')) c.push_back(x);
            while (c.size() < 4) c.push_back("");
            v.push_back({c[0], c[1], c[2], c[3]});
        }
        if (v.empty()) { fprintf(stderr, "harness: no table of configurations\n"); exit(3); }
        return v;
    }();
    return t;
}
static const std::string &dir() {
    static const std::string d = [] {
        const char *s = getenv("VH_SCRATCH");
        std::string x = (s ? std::string(s) : std::string("/tmp")) + "/conf." + std::to_string(getpid());
        mkdir(x.c_str(), 0700);
        return x;
    }();
    return d;
}
static void put(const std::string &path, const std::string &text) {
    FILE *f = fopen(path.c_str(), "wb");
    if (!f || fwrite(text.data(), 1, text.size(), f) != text.size()) { perror("harness: write"); exit(3); }
    fclose(f);
}
struct Worker {
    std::string exe;
    pid_t pid = 0;
    int in = -1, out = -1, err = -1;
    void start() {
        int a[2], b[2];
        if (pipe2(a, O_CLOEXEC) || pipe2(b, O_CLOEXEC)) { perror("harness: pipe"); exit(3); }
        std::string ep = dir() + "/err." + std::to_string((uintptr_t)this);
        err = open(ep.c_str(), O_RDWR | O_CREAT | O_TRUNC | O_APPEND | O_CLOEXEC, 0600);
        posix_spawn_file_actions_t fa;
        posix_spawn_file_actions_init(&fa);
        posix_spawn_file_actions_adddup2(&fa, a[0], 0);
        posix_spawn_file_actions_adddup2(&fa, b[1], 1);
        posix_spawn_file_actions_adddup2(&fa, err, 2);
        char *argv[] = {(char *)exe.c_str(), nullptr};
        if (posix_spawn(&pid, exe.c_str(), &fa, nullptr, argv, environ)) { perror("harness: spawn"); exit(3); }
        posix_spawn_file_actions_destroy(&fa);
        close(a[0]); close(b[1]);
        in = a[1]; out = b[0];
    }
    int stop() {
        int st = 0;
        if (pid) { close(in); close(out); waitpid(pid, &st, 0); pid = 0; close(err); }
        return st;
    }
    bool rd(void *p, size_t n, bool &late) {
        char *c = (char *)p;
        while (n) {
            pollfd f{out, POLLIN, 0};
            int k = poll(&f, 1, 60000);
            if (k == 0) { late = true; return false; }
            ssize_t m = read(out, c, n);
            if (m <= 0) return false;
            c += m; n -= (size_t)m;
        }
        return true;
    }
    struct Answer { bool died = false, late = false; int sig = 0, code = 0; std::string text, err; };
    Answer ask(int draft, int mode, const std::string &s, const std::string &i, const std::string &r) {
        if (!pid) start();
        Answer a;
        if (ftruncate(err, 0)) {}
        std::string q;
        q += (char)draft; q += (char)mode;
        for (const std::string *x : {&s, &i, &r}) { uint32_t n = (uint32_t)x->size(); q.append((char *)&n, 4); q += *x; }
        bool ok = write(in, q.data(), q.size()) == (ssize_t)q.size();
        uint32_t n = 0;
        ok = ok && rd(&n, 4, a.late);
        if (ok) { a.text.resize(n); ok = !n || rd(&a.text[0], n, a.late); }
        struct stat st;
        if (!fstat(err, &st) && st.st_size > 0) { a.err.resize((size_t)std::min<off_t>(st.st_size, 20000)); ssize_t k = pread(err, &a.err[0], a.err.size(), 0); a.err.resize(k > 0 ? (size_t)k : 0); }
        if (!ok) {
            a.died = true;
            a.text.clear();
            if (a.late) kill(pid, SIGKILL);
            int x = stop();
            if (!fstat(err, &st)) {}
            a.sig = WIFSIGNALED(x) ? WTERMSIG(x) : 0;
            a.code = WIFEXITED(x) ? WEXITSTATUS(x) : 0;
        }
        return a;
    }
};
static Worker::Answer ask(const Row &row, int draft, int mode, const std::string &s, const std::string &i, const std::string &r) {
    static std::map<std::string, Worker> ws;
    Worker &w = ws[row.exe];
    w.exe = row.exe;
    return w.ask(draft, mode, s, i, r);
}
static std::string show(const Worker::Answer &a) {
    return a.late ? "(no answer)" : a.died ? fmt("(died, signal %d, exit %d) ", a.sig, a.code) + a.err.substr(0, 600) : a.text.substr(0, 1500);
}
static bool starts(const std::string &s, const char *p) { return s.compare(0, strlen(p), p) == 0; }

static void compare(Run &run, const std::string &adapter, int draft, int mode, bool spoilt, const std::string &s, const std::string &insts, const std::string &rem) {
    std::string sp = dir() + "/schema", ip = dir() + "/instances", rp = dir() + "/remote";
    put(sp, s); put(ip, insts); put(rp, rem);
    const Row *base = nullptr;
    for (auto &t : table()) if (t.conf == "base" && t.adapter == adapter) base = &t;
    Worker::Answer b = ask(*base, draft, mode, sp, ip, rp);
    auto where = [&](const Row &t) { return fmt("%s, configuration %s, draft %d, %s types: ", adapter.c_str(), t.conf.c_str(), draft, mode & 1 ? "weak" : "strong"); };
    auto what = [&] { return "\nschema " + s.substr(0, 1500) + "\ninstances " + insts.substr(0, 1200) + (rem != "{}" ? "\nremote " + rem.substr(0, 500) : ""); };
    if (b.died) { run.violation("base", where(*base) + show(b) + what()); return; }
    size_t at = b.text.find("threw ");
    while (at != std::string::npos && at && b.text[at - 1] != '\n') at = b.text.find("threw ", at + 1);
    bool threw = at != std::string::npos;
    bool loaded = !starts(b.text, "schema not") && !starts(b.text, "instances not");
    run.count(threw ? "base_threw" : !loaded ? "base_not_loaded" : "base_answered");
    if (loaded) run.seen("pairs", hashStr(s + insts + adapter));
    bool v = b.text.find("\nvalid") != std::string::npos, iv = b.text.find("\ninvalid") != std::string::npos;
    if (v && iv) run.count("mixed_verdicts");
    for (auto &t : table()) {
        if (&t == base || t.adapter != adapter || t.exe.empty()) continue;
        bool noexc = t.conf.find("noexc") != std::string::npos;
        // (engines and conversions differ in what they make of odd patterns and odd numbers)
        if (spoilt && (t.conf == "streams" || t.conf == "boostregex")) continue;
        Worker::Answer a = ask(t, draft, mode, sp, ip, rp);
        run.count("evaluations");
        run.count("ask:" + t.conf);
        auto bad = [&](const char *k, const std::string &m) { run.violation(t.conf + ":" + k, where(t) + m + ": " + show(a) + "\ninstead of " + show(b) + what()); };
        if (noexc && threw) {
            if (!a.died) { bad("continues", "goes on where the build with exceptions throws"); continue; }
            if (a.late || a.sig != SIGABRT) { bad("death", "does not abort where the build with exceptions throws"); continue; }
            run.count("aborted");
            std::string m = b.text.substr(at + 6);
            if (starts(m, "own ") && m.find("assertion failed") == std::string::npos) {
                // (messages may be extended on their way up where there are exceptions)
                if (a.err.find_first_not_of(" \n") == std::string::npos) { bad("silent", "aborts without a message"); continue; }
                run.count("messages");
            }
        } else if (noexc && !loaded && a.died && a.sig == SIGABRT && (adapter == "picojson" || adapter == "property_tree" || adapter == "jsoncpp" || adapter == "boost_json")) {
            run.count("parser_aborted");       // the library's own exceptions
        } else if (a.died) { bad("death", "dies");
        } else if (a.text != b.text) bad("differs", "answers otherwise");
        else run.count("same");
    }
}

static void one(Run &run, uint64_t idx, Rng &r) {
    static const std::vector<std::string> adapters = [] { std::vector<std::string> v; for (auto &t : table()) if (t.conf == "base") v.push_back(t.adapter); return v; }();
    if (run.mode == "build") {
        if (idx >= table().size()) return;
        const Row &t = table()[idx];
        run.count("evaluations");
        run.count("configurations");
        run.seen("configurations", hashStr(t.conf + "/" + t.adapter));
        if (!t.err.empty()) run.violation("build:" + t.conf + ":" + t.adapter, t.conf + " of " + t.adapter + ": " + t.err);
        return;
    }
    const std::string &adapter = adapters[idx % adapters.size()];
    GenCfg cfg;
    uint64_t ds = r.below(10);
    cfg.draft = ds < 6 ? 7 : ds < 8 ? 4 : 3;
    cfg.oddPct = 20;
    SchemaGen g(cfg, r);
    J base = g.schema(3);
    if (base.t != J::Obj) { base = J::obj(); J a = J::arr(); a.a.push_back(g.schema(2)); base.set(cfg.draft == 3 ? "extends" : "allOf", a); }
    InstGen ig(g, nullptr);
    bool hostile = run.mode == "hostile";
    Hostile h(g);
    h.nan = false;
    J insts = J::arr();
    for (int n = 0; n < 6; n++) { J i = ig.make(base, 3); if (hostile) h.mutate(i, (int)r.range(0, 2), false); insts.a.push_back(i); }
    int mode = (int)r.below(4);
    J remote = J::obj();
    J schema = base;
    if (hostile) {
        schema = h.schema(r.chance(45));
        if (schema.t == J::Obj && r.chance(50)) for (auto &kv : base.o) if (!schema.find(kv.first) && kv.first != "$ref") schema.set(kv.first, kv.second);
        if (schema.find("$ref")) schema.erase("$ref");
        if (r.chance(30)) { remote = g.schema(2); if (remote.t != J::Obj) remote = J::obj(); J ref = J::obj(); ref.set("$ref", J::str(r.pick(std::vector<std::string>{"http://a.b/remote", "http://a.b/missing", "http://a.b/remote#/properties/a", "nowhere.json", "#/definitions/none"}))); J p = J::obj(); p.set(g.name(), ref); if (schema.t == J::Obj && !schema.find("properties")) schema.set("properties", p); }
        if (r.chance(8)) { J p = J::obj(); p.set(r.pick(std::vector<std::string>{"(", "[", "a{2", "*", "\\"}), J::obj()); if (schema.t == J::Obj) schema.set("patternProperties", p); }
    } else {
        // references, in the document and elsewhere
        if (r.chance(50)) {
            J d = J::obj(); d.set("x", g.schema(2));
            schema.set("definitions", d);
            J ref = J::obj(); ref.set("$ref", J::str(r.chance(50) ? "#/definitions/x" : "http://a.b/remote"));
            remote = g.schema(2);
            if (remote.t != J::Obj) remote = J::obj();
            J w = J::arr(); w.a.push_back(ref);
            const char *k = cfg.draft == 3 ? "extends" : r.chance(50) ? "anyOf" : "allOf";
            if (!schema.find(k) && !schema.find("$ref")) schema.set(k, w);
        }
    }
    std::string st = dump(schema), it = dump(insts);
    if (run.mode == "texts") {
        std::string &t = r.chance(60) ? st : it;
        for (int n = 0; n < 2; n++) switch (r.below(6)) {
        case 0: t.resize(r.below(t.size() + 1)); break;
        case 1: if (!t.empty()) t.erase(r.below(t.size()), 1); break;
        case 2: t.insert(r.below(t.size() + 1), 1, "\"{}[],:0-.eE\\ntf/#"[r.below(18)]); break;
        case 3: t += r.pick(std::vector<std::string>{"x", "}", "]", std::string("\0x", 2), ",", "//c"}); break;
        case 4: t = r.pick(std::vector<std::string>{"", "{", "[1e999]", "{\"a\":1e400}", "[\"\\ud800\"]", "null", "\xFF", "[\"\xC3\"]"}); break;
        default: break;
        }
    }
    if (run.verbose) fprintf(stderr, "%s draft %d mode %d\nschema %s\ninstances %s\n", adapter.c_str(), cfg.draft, mode, st.c_str(), it.c_str());
    compare(run, adapter, cfg.draft, mode, run.mode != "verdicts", st, it, dump(remote));
    if (idx % 499 == 3) run.sample(run.mode, adapter + ": " + st);
}
static void done(Run &) {
    std::string c = dir();
    for (const char *f : {"/schema", "/instances", "/remote"}) unlink((c + f).c_str());
}
int main(int argc, char **argv) { signal(SIGPIPE, SIG_IGN); return harnessMain(argc, argv, one, done); }
