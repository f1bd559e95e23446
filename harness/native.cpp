// Native side of the harness interface: reads tapes from stdin (one per line:
// numbers in decimal, doubles as hex floats) and runs the entry named on the
// command line once per tape, each in its own process.
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <string>
#include <vector>
#include <sstream>
#include <iostream>
#include <new>
#include <dlfcn.h>
#include <link.h>
#include <unistd.h>
#include <signal.h>
#include <sys/wait.h>
#include <sys/resource.h>
#include <stdint.h>
#if defined(__has_feature)
#if __has_feature(thread_sanitizer)
#define VP_THREADS
#include <thread>
#endif
#endif

static const char* tape[1 << 20];
static size_t tapeLen = 0, tapePos = 0;
static bool armed = false;
static uint64_t failAt = 0, allocNo = 0;

// the blocks alive, in order of allocation
struct Block { void* p; size_t n; bool seen; };
static Block* blocks = 0;
static size_t nBlocks = 0, room = 0, ownBlocks = 0;

static std::string* outp;

static void* vp_alloc(size_t n) {
    if (armed && allocNo++ == failAt) throw std::bad_alloc();
    void* p = malloc(n ? n : 1);
    if (!p) throw std::bad_alloc();
    memset(p, 0xA5, n);
    if (nBlocks == room) {
        room = room ? 2 * room : 4096;
        blocks = (Block*)realloc(blocks, room * sizeof(Block));
    }
    blocks[nBlocks].p = p;
    blocks[nBlocks].n = n;
    blocks[nBlocks].seen = false;
    ++nBlocks;
    return p;
}
static void vp_free(void* p) {
    if (!p) return;
    for (size_t i = nBlocks; i-- > 0;)
        if (blocks[i].p == p) {
            memmove(blocks + i, blocks + i + 1, (nBlocks - i - 1) * sizeof(Block));
            --nBlocks;
            if (i < ownBlocks) --ownBlocks;
            break;
        }
    free(p);
}
#ifndef VP_THREADS
void* operator new(size_t n) { return vp_alloc(n); }
void* operator new[](size_t n) { return vp_alloc(n); }
void operator delete(void* p) noexcept { vp_free(p); }
void operator delete[](void* p) noexcept { vp_free(p); }
void operator delete(void* p, size_t) noexcept { vp_free(p); }
void operator delete[](void* p, size_t) noexcept { vp_free(p); }
#endif

// blocks of the code under test that no global or thread-local variable reaches
__attribute__((no_sanitize("address"))) static void scan(const char* p, size_t n) {
    for (const char* e = p + n; p + sizeof(void*) <= e; p += sizeof(void*)) {
        void* v = *(void* const*)p;
        for (size_t i = 0; i < nBlocks; ++i)
            if (!blocks[i].seen && v >= blocks[i].p && (char*)v < (char*)blocks[i].p + (blocks[i].n ? blocks[i].n : 1)) {
                blocks[i].seen = true;
                scan((const char*)blocks[i].p, blocks[i].n);
            }
    }
}
static int roots(struct dl_phdr_info* o, size_t, void*) {
    for (int i = 0; i < o->dlpi_phnum; ++i) {
        const ElfW(Phdr)& h = o->dlpi_phdr[i];
        if (h.p_type == PT_LOAD && (h.p_flags & PF_W)) scan((const char*)(o->dlpi_addr + h.p_vaddr), h.p_memsz);
        if (h.p_type == PT_TLS && o->dlpi_tls_data) scan((const char*)o->dlpi_tls_data, h.p_memsz);
    }
    return 1;   // the executable only
}
static uint64_t lost() {
    if (nBlocks == ownBlocks) return 0;
    dl_iterate_phdr(roots, 0);
    uint64_t k = 0;
    for (size_t i = ownBlocks; i < nBlocks; ++i) if (!blocks[i].seen) ++k;
    return k;
}

static void put(const char* s) { bool a = armed; armed = false; outp->append(s); armed = a; }
static std::ostringstream* strm;
static std::ostringstream *co, *ce;

extern "C" {
uint64_t vp_in() { return tapePos < tapeLen ? strtoull(tape[tapePos++], 0, 10) : (++tapePos, 0); }
double vp_fin() { return tapePos < tapeLen ? strtod(tape[tapePos++], 0) : 0.0; }
void vp_out(uint64_t v) { char b[32]; snprintf(b, sizeof b, " %llu", (unsigned long long)v); put(b); }
void vp_cnt(uint64_t v) { vp_out(v); }
void vp_fout(double d) { char b[64]; snprintf(b, sizeof b, " f%a", d); put(b); }
static void finish(const char* how);
void vp_assume(int c) { if (!c) finish("assume"); }
std::ostream* vp_stream() { return strm; }
std::istream* vp_istream() {
    bool a = armed; armed = false;
    std::string t;
    for (uint64_t n = vp_in(); n; --n) t += (char)vp_in();
    std::istream* s = new std::istringstream(t);
    armed = a;
    return s;
}
void vp_stream_out(int w) {
    bool a = armed; armed = false;
    std::ostringstream* s = w == 0 ? strm : w == 1 ? co : ce;
    std::string t = s->str();
    s->str("");
    outp->append(" s");
    for (size_t i = 0; i < t.size(); ++i) { char b[4]; snprintf(b, sizeof b, "%02x", (unsigned char)t[i]); outp->append(b); }
    armed = a;
}
void vp_arm(uint64_t k) { armed = true; allocNo = 0; failAt = k; }
void vp_disarm() { armed = false; }
void vp_share(const void*) {}
uint64_t vp_watch(int) { return 0; }
void vp_both(void (*f)(void*), void* a, void* b) {
#ifdef VP_THREADS
    std::thread s(f, a), t(f, b);
    s.join();
    t.join();
#else
    f(a);
    f(b);
#endif
}
}

static void finish(const char* how) {
    armed = false;
    std::string s = std::string("end ") + how + *outp + "\n";
    size_t o = 0;
    while (o < s.size()) { ssize_t k = write(3, s.data() + o, s.size() - o); if (k <= 0) break; o += k; }
    _exit(0);
}

int main(int argc, char** argv) {
    if (argc < 3) return 2;
    void (*entry)() = (void (*)())dlsym(RTLD_DEFAULT, argv[1]);
    if (!entry) { fprintf(stderr, "no entry %s\n", argv[1]); return 2; }
    int limit = atoi(argv[2]);
    struct rlimit rl = { 0, 0 };
    setrlimit(RLIMIT_CORE, &rl);
#ifndef __SANITIZE_ADDRESS__
#if !defined(__has_feature)
    rl.rlim_cur = rl.rlim_max = (rlim_t)4 << 30;
    setrlimit(RLIMIT_AS, &rl);
#endif
#endif
    std::string line;
    int hung = 0;
    while (hung < 3 && std::getline(std::cin, line)) {
        int p[2];
        if (pipe(p)) return 2;
        fflush(0);
        pid_t pid = fork();
        if (pid == 0) {
            if (p[1] != 3) { dup2(p[1], 3); close(p[1]); }
            if (p[0] != 3) close(p[0]);
            alarm(limit);
            std::vector<char> buf(line.begin(), line.end());
            buf.push_back(0);
            for (char* t = strtok(&buf[0], " "); t && tapeLen < (1 << 20); t = strtok(0, " ")) tape[tapeLen++] = t;
            outp = new std::string();
            outp->reserve(1 << 20);
            strm = new std::ostringstream(); co = new std::ostringstream(); ce = new std::ostringstream();
            std::cout.rdbuf(co->rdbuf()); std::cerr.rdbuf(ce->rdbuf()); std::clog.rdbuf(ce->rdbuf());
            ownBlocks = nBlocks;
            try { entry(); } catch (...) { finish("throw"); }
            char b[40];
            snprintf(b, sizeof b, "ok leak=%llu", (unsigned long long)lost());
            finish(b);
        }
        close(p[1]);
        std::string got;
        char b[4096];
        ssize_t k;
        while ((k = read(p[0], b, sizeof b)) > 0) got.append(b, k);
        close(p[0]);
        int st = 0;
        waitpid(pid, &st, 0);
        if (WIFSIGNALED(st) && WTERMSIG(st) == SIGALRM) ++hung;
        if (WIFSIGNALED(st)) printf("end signal %d\n", WTERMSIG(st));
        else if (WEXITSTATUS(st)) printf("end exit %d\n", WEXITSTATUS(st));
        else if (got.empty()) printf("end none\n");
        else fputs(got.c_str(), stdout);
        fflush(stdout);
    }
    return 0;
}
