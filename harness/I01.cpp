// Programs made of generated #include lines, compiled by the installed compilers, and linked with the library.
// check.py leaves in IM_HEADERS a directory with "list" (a header and the functions it declares per line), "incs" (-I options) and libim.a.
#include "engine.hpp"
#include <fcntl.h>
#include <fstream>
#include <spawn.h>
#include <sstream>
#include <sys/wait.h>
#include <unistd.h>
using namespace im;
extern char** environ;
namespace im {
const Prop PROP = {"I01",
    "Source files of 1 to 12 #include lines, drawn from the public headers (any order, repeated) and the standard ones, followed by a table of the functions the headers declare; compiled as C99, C11 or C17, "
    "with or without GNU extensions, by gcc or clang; some cases compile two files, in drawn languages, and link them with the library. Every compilation and link must succeed. Enumerated: every header alone, once and twice, in every language. "
    "Non-trivial: at least 2 different public headers",
    1600, 24000, 8, 400, 64};
struct Header { std::string name; std::vector<std::string> fns; };
static std::vector<Header> g_headers;
static std::vector<std::string> g_incs;
static std::string g_dir;
static void load() {
    if (!g_headers.empty()) { return; }
    const char* d = getenv("IM_HEADERS");
    if (!d) { fprintf(stderr, "IM_HEADERS is not set\n"); _exit(2); }
    g_dir = d;
    std::string line, w;
    std::ifstream l(g_dir + "/list");
    while (std::getline(l, line)) {
        std::istringstream s(line);
        Header h;
        s >> h.name;
        while (s >> w) { h.fns.push_back(w); }
        g_headers.push_back(h);
    }
    std::ifstream i(g_dir + "/incs");
    while (std::getline(i, line)) { g_incs.push_back(line); }
    if (g_headers.empty()) { fprintf(stderr, "no headers\n"); _exit(2); }
}

static const char* const LANGS[] = {"-std=gnu99", "-std=c99", "-std=gnu11", "-std=c11", "-std=gnu17", "-std=c17"};
static const size_t NLANG = sizeof LANGS / sizeof *LANGS;
// runs a tool with text on its standard input, from and to pipes; the error output is returned in *err
static int tool(std::vector<std::string> args, const std::string& text, std::string* err) {
    std::vector<char*> argv;
    for (auto& a : args) { argv.push_back(&a[0]); }
    argv.push_back(nullptr);
    int in[2], out[2];
    if (pipe2(in, O_CLOEXEC) || pipe2(out, O_CLOEXEC)) { perror("pipe"); _exit(2); }
    posix_spawn_file_actions_t fa;
    posix_spawn_file_actions_init(&fa);
    posix_spawn_file_actions_adddup2(&fa, in[0], 0);
    posix_spawn_file_actions_adddup2(&fa, out[1], 1);
    posix_spawn_file_actions_adddup2(&fa, out[1], 2);
    pid_t pid;
    if (posix_spawnp(&pid, argv[0], &fa, nullptr, argv.data(), environ)) { perror(argv[0]); _exit(2); }
    posix_spawn_file_actions_destroy(&fa);
    close(in[0]);
    close(out[1]);
    for (size_t at = 0; at < text.size();) {  // far less than a pipe holds
        ssize_t w = write(in[1], text.data() + at, text.size() - at);
        if (w < 0 && errno == EINTR) { continue; }
        if (w <= 0) { break; }
        at += (size_t)w;
    }
    close(in[1]);
    char buf[4096];
    for (;;) {
        ssize_t r = read(out[0], buf, sizeof buf);
        if (r < 0 && errno == EINTR) { continue; }
        if (r <= 0) { break; }
        if (err->size() < 20000) { err->append(buf, (size_t)r); }
    }
    close(out[0]);
    int st = 0;
    while (waitpid(pid, &st, 0) < 0 && errno == EINTR) {}
    if (WIFSIGNALED(st) && (WTERMSIG(st) == SIGKILL || WTERMSIG(st) == SIGTERM)) { _exit(2); }
    return st;
}
static std::string firstError(const std::string& e) {
    size_t at = e.find("multiple definition");
    if (at == std::string::npos) { at = e.find("undefined reference"); }
    if (at == std::string::npos) { at = e.find("error:"); }
    if (at == std::string::npos) { at = 0; }
    size_t b = e.rfind('\n', at);
    b = b == std::string::npos ? 0 : b + 1;
    return e.substr(b, std::min<size_t>(300, e.find('\n', at) == std::string::npos ? 300 : e.find('\n', at) - b));
}
static const char* const STANDARD[] = {"stdint.h", "stdbool.h", "stddef.h", "string.h", "stdlib.h", "stdio.h", "limits.h", "math.h", "ctype.h", "assert.h"};
struct Unit { std::vector<int> incs; const char* lang; const char* cc; bool ndebug; };
static std::string source(const Unit& u, const char* table) {
    std::string t;
    std::vector<std::string> fns;
    for (int i : u.incs) {
        if (i < 0) { t += std::string("#include <") + STANDARD[-1 - i] + ">\n"; continue; }
        t += "#include \"" + g_headers[(size_t)i].name + "\"\n";
        for (auto& f : g_headers[(size_t)i].fns) {
            if (std::find(fns.begin(), fns.end(), f) == fns.end()) { fns.push_back(f); }
        }
    }
    t += std::string("typedef void (*im_any)(void);\nextern im_any ") + table + "[];\nim_any " + table + "[] = {\n";
    for (auto& f : fns) { t += "(im_any)&" + f + ",\n"; }
    return t + "0};\n";
}
static std::string describe(const Unit& u) {
    std::string t = std::string(u.cc) + " " + u.lang + (u.ndebug ? " -DNDEBUG" : "") + ":";
    for (int i : u.incs) { t += " " + (i < 0 ? std::string("<") + STANDARD[-1 - i] + ">" : g_headers[(size_t)i].name); }
    return t;
}
static void compile(Ctx& c, const Unit& u, const char* table, const char* object) {
    NOTE(c, "%s", describe(u).c_str());
    std::vector<std::string> a = {u.cc, u.lang};  // warnings do not matter, apart from these
    if (!strcmp(u.cc, "clang")) { a.push_back("-Wno-everything"); a.push_back("-Werror=macro-redefined"); }
    a.push_back("-Werror=implicit-function-declaration");
    a.push_back("-Werror=implicit-int");
    if (u.ndebug) { a.push_back("-DNDEBUG"); }
    for (auto& i : g_incs) { a.push_back(i); }
    if (object) { a.push_back("-c"); a.push_back("-o"); a.push_back(object); } else { a.push_back("-fsyntax-only"); }
    a.push_back("-x");
    a.push_back("c");
    a.push_back("-");
    std::string err;
    if (tool(a, source(u, table), &err) != 0) { c.fail("%s does not compile: %s", describe(u).c_str(), firstError(err).c_str()); }
}
static Unit draw(Ctx& c, size_t max) {
    Unit u;
    u.lang = LANGS[c.below(NLANG)];
    u.cc = c.flag() ? "clang" : "gcc";
    u.ndebug = c.chance(1, 8);
    size_t n = 1 + c.below(max);
    size_t different = 0;
    for (size_t i = 0; i < n; ++i) {
        int h;
        if (c.chance(1, 8)) { h = -1 - (int)c.below(sizeof STANDARD / sizeof *STANDARD); }
        else {
            h = (int)c.below(g_headers.size());
            if (std::find(u.incs.begin(), u.incs.end(), h) == u.incs.end()) { ++different; } else { c.label("a header twice"); }
        }
        u.incs.push_back(h);
    }
    if (different > 1) { c.nontrivial(); }
    return u;
}
void runCase(Ctx& c) {
    load();
    if (!c.chance(1, 8)) {
        compile(c, draw(c, 12), "im_table", nullptr);
        c.evals(1);
        return;
    }
    c.label("two files linked");
    Unit a = draw(c, 6), b = draw(c, 6);
    char dir[200];
    snprintf(dir, sizeof dir, "%s/XXXXXX", g_dir.c_str());
    if (!mkdtemp(dir)) { perror(dir); _exit(2); }
    std::string A = std::string(dir) + "/a.o", B = std::string(dir) + "/b.o", P = std::string(dir) + "/p";
    compile(c, a, "im_a", A.c_str());
    compile(c, b, "im_b", B.c_str());
    std::string err;
    int st = tool({"gcc", A, B, g_dir + "/main.o", g_dir + "/libim.a", "-lm", "-o", P}, "", &err);
    unlink(A.c_str());
    unlink(B.c_str());
    unlink(P.c_str());
    rmdir(dir);
    if (st != 0) { c.fail("%s and %s do not link with the library: %s", describe(a).c_str(), describe(b).c_str(), firstError(err).c_str()); }
    c.evals(2);
}
uint64_t enumCount(bool) {
    load();
    return g_headers.size();
}
void enumCase(Ctx& c, uint64_t i, bool thorough) {
    load();
    c.label("enum:a header alone");
    unsigned r = 0;
    for (size_t l = 0; l < NLANG; ++l) {
        for (int k = 0; k < 4; ++k) {
            if (!thorough && (l + (size_t)k + i) % 4 != 0) { continue; }
            Unit u{{(int)i}, LANGS[l], k & 1 ? "clang" : "gcc", false};
            if (k & 2) { u.incs.push_back((int)i); }
            compile(c, u, "im_table", nullptr);
            ++r;
        }
    }
    c.evals(r);
}
}  // namespace im
