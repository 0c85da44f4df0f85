// Native runtime: runs harness functions of the real build on concrete traces.
//   prog FILE [seconds]   with FILE lines: entry TAB name=value;... TAB note=value;...
// prints one line per trace: "<index> ok" or "<index> FAIL <reason>"; exit 0.
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <cstdint>
#include <new>
#include <string>
#include <vector>
#include <unistd.h>
#include <dlfcn.h>
#include <signal.h>
#include <sys/wait.h>

extern "C" void * __real_malloc(size_t);
extern "C" void * __real_calloc(size_t, size_t);
extern "C" void __real_free(void *);
extern "C" char __executable_start, etext;
#if defined(__has_feature)
#if __has_feature(memory_sanitizer)
#include <sanitizer/msan_interface.h>
#define POISON(p, n) __msan_poison(p, n)
#define CHECKINIT(v) do { __msan_check_mem_is_initialized(&(v), sizeof(v)); } while(0)
#endif
#endif
#ifdef SX_TSAN
#include <pthread.h>
#endif
#ifndef POISON
#define POISON(p, n) (void)0
#define CHECKINIT(v) (void)0
#endif

namespace {
struct KV { char name[64]; uint64_t v; };
KV in[8192], notes[4096]; size_t nIn, nNotes, pos, npos; int wfd = -1; long budget; bool leak{true}, running{false};
enum Kind { k_new = 1, k_newa, k_malloc };
struct Live { void * p; size_t n; int k; } live[8192]; size_t nLive;
const void * life[8192]; size_t nLife;
[[noreturn]] void finish(int code, const char * why) { running = false; if(code && wfd >= 0) { dprintf(wfd, "%s", why); } fflush(nullptr); _exit(code); }
[[noreturn]] void fail(const char * why) { finish(1, why); }
bool fromHere(void * ra) { return running && (char *)ra >= &__executable_start && (char *)ra < &etext; }
uint64_t next(const char * name) {
	if(pos >= nIn) { char b[128]; snprintf(b, sizeof b, "DESYNC: more inputs than recorded (%s)", name); fail(b); }
	if(strcmp(in[pos].name, name)) { char b[256]; snprintf(b, sizeof b, "DESYNC: input %s where %s was recorded", name, in[pos].name); fail(b); }
	return in[pos++].v;
}
bool lifeIn(const void * p, size_t n) { for(size_t i = 0; i < nLife; ++i) if((char *)life[i] >= (char *)p && (char *)life[i] < (char *)p + n) return true; return false; }
void * get(size_t n, int k, size_t al = 0) {
	if(n > (1u << 20)) return nullptr;
	if(budget > 0 && next("alloc")) { --budget; return nullptr; }
	void * p = al > 16 ? aligned_alloc(al, (n + al - 1) / al * al) : __real_malloc(n ? n : 1);
	if(!p || nLive == 8192) fail("DESYNC: out of memory");
	POISON(p, n);
	live[nLive++] = {p, n, k}; return p;
}
void put(void * p, int k, bool sized, size_t n) {
	if(!p) return;
	for(size_t i = 0; i < nLive; ++i) if(live[i].p == p) {
		if(live[i].k != k) fail("allocation and deallocation functions do not match");
		if(sized && live[i].n != n) fail("sized deallocation with the wrong size");
		if(lifeIn(p, live[i].n)) fail("deallocated storage still holds an element that was never destroyed");
		live[i] = live[--nLive]; __real_free(p); return;
	}
	fail("deallocation of a pointer that is not a live allocation");
}
}
extern "C" {
uint8_t sx_u8(const char * n) { return (uint8_t)next(n); }
uint16_t sx_u16(const char * n) { return (uint16_t)next(n); }
uint32_t sx_u32(const char * n) { return (uint32_t)next(n); }
uint64_t sx_u64(const char * n) { return next(n); }
uint64_t sx_range(const char * n, uint64_t lo, uint64_t hi) { auto v = next(n); if(v < lo || v > hi) fail("DESYNC: range"); return v; }
uint64_t sx_pick(const char * n, uint64_t k) { auto v = next(n); if(v >= k) fail("DESYNC: pick"); return v; }
void sx_bytes(void * p, uint64_t n, const char * name) { for(uint64_t i = 0; i < n; ++i) ((unsigned char *)p)[i] = (unsigned char)next(name); }
void sx_assume(bool c) { if(!c) fail("DESYNC: assumption false"); }
void sx_assert(bool c, const char * msg) { CHECKINIT(c); if(!c) { char b[400]; snprintf(b, sizeof b, "ASSERT %s", msg); fail(b); } }
void sx_fail(const char * msg) { char b[400]; snprintf(b, sizeof b, "ASSERT %s", msg); fail(b); }
uint64_t sx_concretize(uint64_t v) { return v; }
void sx_reach(const char *) {}
uint64_t sx_heap_live() { return nLive; }
void sx_alloc_fail(uint64_t b) { budget = (long)b; }
void sx_life_ctor(const void * p) { for(size_t i = 0; i < nLife; ++i) if(life[i] == p) fail("an element is constructed over a live element"); if(nLife == 8192) fail("DESYNC: life"); life[nLife++] = p; }
void sx_life_dtor(const void * p) { for(size_t i = 0; i < nLife; ++i) if(life[i] == p) { life[i] = life[--nLife]; return; } fail("an element is destroyed that is not alive"); }
void sx_life_check(const void * p) { for(size_t i = 0; i < nLife; ++i) if(life[i] == p) return; fail("an element is used that is not alive"); }
uint64_t sx_life_count() { return nLife; }
void sx_note(const char * n, uint64_t v) {
	CHECKINIT(v);
	if(!nNotes) return;
	if(npos >= nNotes || strcmp(notes[npos].name, n) || notes[npos].v != v) { char b[300]; snprintf(b, sizeof b, "MISMATCH: observed %s=%llu, engine computed %s=%llu", n, (unsigned long long)v, npos < nNotes ? notes[npos].name : "nothing", npos < nNotes ? (unsigned long long)notes[npos].v : 0ull); fail(b); }
	++npos;
}
// an operation that only reads, by two threads: one after the other, but without anything that orders them (a race in the sense of the memory model all the same)
#ifdef SX_TSAN
static volatile int turn; static void (*shF)(void *); static void * shP;
static void * sharer(void * me) { while(turn != (int)(long)me) usleep(200); shF(shP); turn = (int)(long)me + 1; return nullptr; }
void sx_shared_run(void (*f)(void *), void * p) { shF = f; shP = p; turn = 9; bool was = running; running = false; pthread_t a, b; pthread_create(&a, nullptr, sharer, (void *)1l); pthread_create(&b, nullptr, sharer, (void *)2l); running = was; turn = 1; while(turn != 3) usleep(200); running = false; pthread_join(a, nullptr); pthread_join(b, nullptr); running = was; }
#else
void sx_shared_run(void (*f)(void *), void * p) { f(p); }
#endif
void sx_noleak() { leak = false; }
void * __wrap_malloc(size_t n) { return running ? get(n, k_malloc) : __real_malloc(n); }
void * __wrap_calloc(size_t a, size_t b) { if(!running) return __real_calloc(a, b); if(b && a > (1u << 20) / b) return nullptr; auto p = get(a * b, k_malloc); if(p) memset(p, 0, a * b); return p; }
void __wrap_free(void * p) { if(running) put(p, k_malloc, false, 0); else __real_free(p); }
}
#define RA __builtin_return_address(0)
static void * nw(size_t n, int k, void * ra, size_t al = 0) { void * p = fromHere(ra) ? get(n, k, al) : __real_malloc(n ? n : 1); if(!p) throw std::bad_alloc{}; return p; }
static void dl(void * p, int k, void * ra, bool s, size_t n) { if(fromHere(ra)) put(p, k, s, n); else __real_free(p); }
void * operator new(size_t n) { return nw(n, k_new, RA); }
void * operator new[](size_t n) { return nw(n, k_newa, RA); }
void * operator new(size_t n, std::align_val_t a) { return nw(n, k_new, RA, (size_t)a); }
void * operator new[](size_t n, std::align_val_t a) { return nw(n, k_newa, RA, (size_t)a); }
void * operator new(size_t n, const std::nothrow_t &) noexcept { return fromHere(RA) ? get(n, k_new) : __real_malloc(n ? n : 1); }
void * operator new[](size_t n, const std::nothrow_t &) noexcept { return fromHere(RA) ? get(n, k_newa) : __real_malloc(n ? n : 1); }
void operator delete(void * p) noexcept { dl(p, k_new, RA, false, 0); }
void operator delete(void * p, size_t n) noexcept { dl(p, k_new, RA, true, n); }
void operator delete[](void * p) noexcept { dl(p, k_newa, RA, false, 0); }
void operator delete[](void * p, size_t n) noexcept { dl(p, k_newa, RA, true, n); }
void operator delete(void * p, std::align_val_t) noexcept { dl(p, k_new, RA, false, 0); }
void operator delete[](void * p, std::align_val_t) noexcept { dl(p, k_newa, RA, false, 0); }
void operator delete(void * p, size_t n, std::align_val_t) noexcept { dl(p, k_new, RA, true, n); }
void operator delete[](void * p, size_t n, std::align_val_t) noexcept { dl(p, k_newa, RA, true, n); }
void operator delete(void * p, const std::nothrow_t &) noexcept { dl(p, k_new, RA, false, 0); }
void operator delete[](void * p, const std::nothrow_t &) noexcept { dl(p, k_newa, RA, false, 0); }

static size_t parse(char * s, KV * out, size_t max) {
	size_t n{0};
	while(s && *s) { char * e = strchr(s, '='), * f = strchr(s, ';'); if(!e || !f || n == max) break; *e = *f = 0; snprintf(out[n].name, sizeof out[n].name, "%s", s); out[n++].v = strtoull(e + 1, nullptr, 10); s = f + 1; }
	return n;
}
int main(int argc, char ** argv) {
	auto f = fopen(argv[1], "r"); if(!f) return 2;
	unsigned secs = argc > 2 ? (unsigned)atoi(argv[2]) : 10;
	char * line = nullptr; size_t cap = 0; ssize_t len;
	for(int i = 0; (len = getline(&line, &cap, f)) > 0; ++i) {
		if(line[len - 1] == '\n') line[len - 1] = 0;
		char * a = strchr(line, '\t'); if(!a) continue; *a++ = 0; char * b = strchr(a, '\t'); if(b) *b++ = 0;
		int fd[2]; if(pipe(fd)) return 2;
		fflush(nullptr); auto p = fork();
		if(p == 0) {
			close(fd[0]); wfd = fd[1];
			nIn = parse(a, in, 8192); nNotes = parse(b, notes, 4096);
			auto fn = (void (*)())dlsym(RTLD_DEFAULT, line);
			if(!fn) finish(1, "DESYNC: no such harness");
			alarm(secs); 
			try { running = true; fn(); running = false; }
			catch(...) { fail("uncaught exception"); }
			if(pos != nIn) fail("DESYNC: fewer inputs than recorded");
			if(nNotes && npos != nNotes) fail("MISMATCH: fewer observations than the engine computed");
			if(leak && nLive) fail("heap allocations never released");
			if(leak && nLife) fail("elements never destroyed");
			finish(0, "");
		}
		close(fd[1]); char why[512]; size_t k{0}; ssize_t r; while(k < sizeof why - 1 && (r = read(fd[0], why + k, sizeof why - 1 - k)) > 0) k += (size_t)r; why[k] = 0; close(fd[0]);
		int st; waitpid(p, &st, 0);
		if(WIFEXITED(st) && WEXITSTATUS(st) == 0) printf("%d ok\n", i);
		else if(k) printf("%d FAIL %s\n", i, why);
		else if(WIFSIGNALED(st) && WTERMSIG(st) == SIGALRM) printf("%d FAIL HANG no end within %u s\n", i, secs);
		else if(WIFSIGNALED(st)) printf("%d FAIL SIGNAL %d (%s)\n", i, WTERMSIG(st), strsignal(WTERMSIG(st)));
		else printf("%d FAIL SANITIZER exit status %d\n", i, WEXITSTATUS(st));
		fflush(stdout);
	}
	return 0;
}
