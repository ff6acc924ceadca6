// In-memory file system under /sim/ (shared between supervisor and simulated
// processes, so it survives a process crash) and interposition of stdio,
// descriptor I/O and namespace calls. stdio buffering is glibc's own
// (fopencookie), so data sits in user-space buffers until flushed, as in production.
#ifndef _GNU_SOURCE
#define _GNU_SOURCE
#endif
#include "internal.h"
#include <dlfcn.h>
#include <errno.h>
#include <string.h>
#include <stdarg.h>
#include <unistd.h>
#include <fcntl.h>
#include <dirent.h>
#include <sys/mman.h>
#include <sys/stat.h>
#include <sys/statvfs.h>
#include <sys/vfs.h>
#include <sys/uio.h>
#include <sys/resource.h>
#include <stdio_ext.h>
#include <unordered_map>
#include <algorithm>
#include <new>
#include <memory>
#define REAL(ret, name, ...) static ret (*real_##name)(__VA_ARGS__) = nullptr; if(!real_##name) real_##name = (ret (*)(__VA_ARGS__))sim_real_lookup(#name)

namespace sim {
std::function<void(int, const std::string&, const std::string&)> fs_observer;
static void observe(int op, const std::string& a, const std::string& b = "") { if(fs_observer) { Quiet q; fs_observer(op, a, b); } }

namespace fs {
constexpr uint32_t PG = 4096, FAN = 1024;
constexpr uint32_t MAXINO = 1 << 16, MAXENT = 1 << 16, HB = 1 << 14, MAXMNT = 16;
constexpr uint64_t ARENA_PAGES = 1u << 19;   // 2 GiB virtual
struct Inode { uint32_t nlink, nopen; uint64_t size; uint32_t root; uint32_t height; int mnt; Gen gen; uint64_t last_off, last_len; };
struct Ent { uint32_t next; uint32_t ino; uint32_t used; char path[244]; };
struct Mnt { char dir[64]; uint64_t cap, used, peak; int dev; };
struct Arena {
	uint32_t page_top, free_page, nfree;
	uint32_t ino_top, ent_top, free_ent, free_ino;
	int nmnt; uint64_t used_all, peak_all;
	Mnt mnt[MAXMNT];
	uint32_t bucket[HB];
	Inode ino[MAXINO];
	Ent ent[MAXENT];
};
static Arena* A = nullptr; static uint8_t* pages = nullptr;
void* arena_base() { return A; }
void init_arena() {
	A = (Arena*)mmap(0, sizeof(Arena), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
	pages = (uint8_t*)mmap(0, ARENA_PAGES * PG, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
	if(A == MAP_FAILED || pages == MAP_FAILED) { perror("mmap"); _exit(96); }
	reset();
}
void reset() {
	if(A->page_top > 16384) madvise(pages + 16384ull * PG, (A->page_top - 16384ull) * PG, MADV_REMOVE);
	memset(A->bucket, 0, sizeof A->bucket);
	A->page_top = 1; A->free_page = 0; A->nfree = 0; A->ino_top = 1; A->ent_top = 1; A->free_ent = A->free_ino = 0; A->nmnt = 0; A->used_all = A->peak_all = 0;
}
static uint32_t page_alloc() {
	uint32_t p;
	if(A->free_page) { p = A->free_page; memcpy(&A->free_page, pages + (uint64_t)p * PG, 4); A->nfree--; }
	else { if(A->page_top >= ARENA_PAGES) { fprintf(stderr, "sim: arena full\n"); _exit(95); } p = A->page_top++; }
	memset(pages + (uint64_t)p * PG, 0, PG);
	return p;
}
static void page_free(uint32_t p) { memcpy(pages + (uint64_t)p * PG, &A->free_page, 4); A->free_page = p; A->nfree++; }
static uint64_t cap_pages(uint32_t h) { uint64_t c = 1; while(h--) c *= FAN; return c; }
static uint8_t* page_at(Inode& n, uint64_t pn, bool make) {
	while(!n.root || pn >= cap_pages(n.height)) {
		if(!make) { if(!n.root || pn >= cap_pages(n.height)) return nullptr; }
		if(!n.root) { n.root = page_alloc(); n.height = 0; if(pn >= 1) continue; }
		else { uint32_t r = page_alloc(); ((uint32_t*)(pages + (uint64_t)r * PG))[0] = n.root; n.root = r; n.height++; }
	}
	uint32_t p = n.root;
	for(uint32_t h = n.height; h > 0; --h) {
		uint64_t idx = (pn / cap_pages(h - 1)) % FAN;
		uint32_t* tab = (uint32_t*)(pages + (uint64_t)p * PG);
		if(!tab[idx]) { if(!make) return nullptr; uint32_t q = page_alloc(); tab = (uint32_t*)(pages + (uint64_t)p * PG); tab[idx] = q; }
		p = tab[idx];
	}
	return pages + (uint64_t)p * PG;
}
static void free_tree(uint32_t p, uint32_t h) { if(!p) return; if(h) { uint32_t* t = (uint32_t*)(pages + (uint64_t)p * PG); for(uint32_t i = 0; i < FAN; ++i) free_tree(t[i], h - 1); } page_free(p); }
static void usage(Inode& n, uint64_t size) {
	Mnt& m = A->mnt[n.mnt]; m.used += size - n.size; A->used_all += size - n.size; n.size = size;
	if(m.used > m.peak) m.peak = m.used;
	if(A->used_all > A->peak_all) A->peak_all = A->used_all;
}
static void ino_put(uint32_t i) { Inode& n = A->ino[i]; if(!n.nlink && !n.nopen) { free_tree(n.root, n.height); n.root = 0; usage(n, 0); n.size = A->free_ino; A->free_ino = i; } }
static void ino_trunc(uint32_t i) { Inode& n = A->ino[i]; free_tree(n.root, n.height); n.root = 0; n.height = 0; n.gen = nullptr; usage(n, 0); }
static uint32_t bucket_of(const char* p) { return (uint32_t)(hash_str(p) % HB); }
static Ent* find(const char* path) { for(uint32_t e = A->bucket[bucket_of(path)]; e; e = A->ent[e].next) if(!strcmp(A->ent[e].path, path)) return &A->ent[e]; return nullptr; }
static int mnt_of(const char* path) { int b = -1; size_t bl = 0; for(int i = 0; i < A->nmnt; ++i) { size_t l = strlen(A->mnt[i].dir); if(!strncmp(path, A->mnt[i].dir, l) && l > bl) { b = i; bl = l; } } return b; }
static bool parent_ok(const char* path) { const char* s = strrchr(path, '/'); std::string d(path, s - path + 1); for(int i = 0; i < A->nmnt; ++i) if(d == A->mnt[i].dir) return true; return false; }
static Ent* create(const char* path) {
	uint32_t i; if(A->free_ino) { i = A->free_ino; A->free_ino = (uint32_t)A->ino[i].size; } else { if(A->ino_top >= MAXINO) { fprintf(stderr, "sim: inodes\n"); _exit(95); } i = A->ino_top++; }
	Inode& n = A->ino[i]; n = Inode(); n.nlink = 1; n.mnt = mnt_of(path);
	uint32_t e; if(A->free_ent) { e = A->free_ent; A->free_ent = A->ent[e].next; } else { if(A->ent_top >= MAXENT) { fprintf(stderr, "sim: ents\n"); _exit(95); } e = A->ent_top++; }
	Ent& t = A->ent[e]; if(strlen(path) >= sizeof t.path) { fprintf(stderr, "sim: path too long\n"); _exit(95); }
	strcpy(t.path, path); t.ino = i; t.used = 1; uint32_t b = bucket_of(path); t.next = A->bucket[b]; A->bucket[b] = e;
	return &t;
}
static void drop_ent(Ent* e) {
	uint32_t id = (uint32_t)(e - A->ent); uint32_t* p = &A->bucket[bucket_of(e->path)]; while(*p != id) p = &A->ent[*p].next; *p = e->next;
	uint32_t ino = e->ino; e->used = 0; e->next = A->free_ent; A->free_ent = id;
	A->ino[ino].nlink--; ino_put(ino);
}
static size_t pread_i(uint32_t i, uint64_t off, void* buf, size_t n) {
	Inode& d = A->ino[i]; if(off >= d.size) return 0; if(n > d.size - off) n = d.size - off;
	if(d.gen) { d.gen(off, (uint8_t*)buf, n); return n; }
	uint8_t* o = (uint8_t*)buf; size_t left = n;
	while(left) { uint64_t pn = off / PG; uint32_t po = off % PG; size_t c = std::min<size_t>(left, PG - po); uint8_t* p = page_at(d, pn, false); if(p) memcpy(o, p + po, c); else memset(o, 0, c); o += c; off += c; left -= c; }
	return n;
}
static void pwrite_raw(uint32_t i, uint64_t off, const void* buf, size_t n) {
	Inode& d = A->ino[i]; const uint8_t* s = (const uint8_t*)buf; uint64_t end = off + n; d.last_off = off; d.last_len = n;
	while(n) { uint64_t pn = off / PG; uint32_t po = off % PG; size_t c = std::min<size_t>(n, PG - po); memcpy(page_at(d, pn, true) + po, s, c); s += c; off += c; n -= c; }
	if(end > d.size) usage(d, end);
}
// ---- public
void mount(const std::string& dir, uint64_t cap, int dev) { for(int i = 0; i < A->nmnt; ++i) if(dir == A->mnt[i].dir) { A->mnt[i].cap = cap; return; } Mnt& m = A->mnt[A->nmnt]; m.dev = dev ? dev : 1000 + A->nmnt; A->nmnt++; strcpy(m.dir, dir.c_str()); m.cap = cap; m.used = m.peak = 0; }
void set_capacity(const std::string& dir, uint64_t cap) { for(int i = 0; i < A->nmnt; ++i) if(dir == A->mnt[i].dir) A->mnt[i].cap = cap; }
uint64_t used(const std::string& dir) { for(int i = 0; i < A->nmnt; ++i) if(dir == A->mnt[i].dir) return A->mnt[i].used; return 0; }
uint64_t peak(const std::string& dir) { for(int i = 0; i < A->nmnt; ++i) if(dir == A->mnt[i].dir) return A->mnt[i].peak; return 0; }
uint64_t peak_all() { return A->peak_all; }
std::vector<Info> list(const std::string& prefix) {
	std::vector<Info> v; for(uint32_t e = 1; e < A->ent_top; ++e) if(A->ent[e].used && !strncmp(A->ent[e].path, prefix.c_str(), prefix.size())) v.push_back({A->ent[e].path, A->ino[A->ent[e].ino].size, A->ent[e].ino});
	std::sort(v.begin(), v.end(), [](const Info& a, const Info& b) { return a.path < b.path; }); return v;
}
bool exists(const std::string& p) { return find(p.c_str()) != nullptr; }
uint64_t size(const std::string& p) { Ent* e = find(p.c_str()); return e ? A->ino[e->ino].size : 0; }
std::vector<uint8_t> read_file(const std::string& p, uint64_t off, uint64_t len) { std::vector<uint8_t> v; Ent* e = find(p.c_str()); if(!e) return v; uint64_t s = A->ino[e->ino].size; if(off >= s) return v; v.resize(std::min(len, s - off)); pread_i(e->ino, off, v.data(), v.size()); return v; }
void write_file(const std::string& p, const void* d, size_t n, uint64_t off, bool trunc) { Ent* e = find(p.c_str()); if(!e) e = create(p.c_str()); else if(trunc) ino_trunc(e->ino); pwrite_raw(e->ino, off, d, n); }
void unlink(const std::string& p) { Ent* e = find(p.c_str()); if(e) drop_ent(e); }
void set_generated(const std::string& p, Gen g, uint64_t size) { Ent* e = find(p.c_str()); if(!e) e = create(p.c_str()); ino_trunc(e->ino); A->ino[e->ino].gen = g; A->ino[e->ino].size = size; }
uint64_t content_hash(const std::string& p) { auto v = read_file(p); uint64_t h = 0x1234567 + v.size(); size_t i = 0; for(; i + 8 <= v.size(); i += 8) { uint64_t w; memcpy(&w, &v[i], 8); h = (h ^ w) * 0x9ddfea08eb382d69ull; h ^= h >> 32; } for(; i < v.size(); ++i) h = (h ^ v[i]) * 0x9ddfea08eb382d69ull; return h; }

// path class: mount name, plot name removed, digits collapsed
std::string path_class(const std::string& path) {
	int m = mnt_of(path.c_str()); std::string dir = m >= 0 ? A->mnt[m].dir : "?"; std::string base = path.substr(std::min(path.size(), dir.size()));
	std::string out = dir.size() > 5 ? dir.substr(5) : dir;
	size_t i = 0;
	if(base.compare(0, 4, "plot") == 0) { size_t d = base.find('.'); out += "P"; i = d == std::string::npos ? base.size() : d; }
	for(; i < base.size(); ++i) { if(isdigit((unsigned char)base[i])) { out += '#'; while(i + 1 < base.size() && isdigit((unsigned char)base[i + 1])) ++i; } else out += base[i]; }
	return out;
}

// ---------------------------------------------------------------- open files of the simulated process
struct OF { uint32_t ino; uint64_t pos; bool rd, wr, app; std::string path; std::string cls; FILE* fp = nullptr; int fd; uint64_t lo = 0, ll = 0; std::unique_ptr<char[]> buf; bool bufset = false; };
static std::unordered_map<int, OF*> g_fd; static std::unordered_map<FILE*, OF*> g_fp; static int g_nextfd = 1 << 20; static int g_nopen = 0, g_max_open = 0;
static uint64_t g_soft = 1024, g_hard = 1048576;
struct FLock { int owner = -1; int depth = 0; };
static std::unordered_map<FILE*, FLock> g_flock;
struct FState { Fault f; uint64_t n = 0; bool on = false; std::string path; int mnt = -1; };
static std::vector<FState> g_faults;
static std::map<std::pair<int, std::string>, uint64_t> g_cnt;
static uint64_t lat_num = 0, lat_max = 0;
static int FDBASE = 1 << 20;
static size_t g_blk = 4096;        // stdio buffer size (st_blksize of the file systems)

int open_count() { return g_nopen; }
void child_start() {
	g_fd.clear(); g_fp.clear(); g_flock.clear(); g_cnt.clear(); g_faults.clear(); g_nopen = g_max_open = 0; g_nextfd = FDBASE;
	for(auto& f : g_plan->faults) if(f.inc == g_inc) { FState s; s.f = f; g_faults.push_back(s); }
	g_soft = g_plan->get("rlim_soft", 1024); g_hard = g_plan->get("rlim_hard", 1048576);
	g_blk = g_plan->get("blk", 4096); lat_num = g_plan->get("lat", 0); lat_max = g_plan->get("lat_max", 20000000);
}
void child_end(bool flush) {
	if(flush) { std::vector<FILE*> v; for(auto& e : g_fp) v.push_back(e.first); std::sort(v.begin(), v.end(), [](FILE* a, FILE* b) { return g_fp[a]->fd < g_fp[b]->fd; }); REAL(int, fflush, FILE*); for(FILE* f : v) if(g_fp[f]->wr) real_fflush(f); }
	for(auto& e : g_fd) { A->ino[e.second->ino].nopen--; ino_put(e.second->ino); }
	sh->max_fds = g_max_open;
}
void collect_counts() { sh->nops = 0; for(auto& e : g_cnt) if(sh->nops < MAXNAMED) { auto& o = sh->ops[sh->nops++]; o.op = e.first.first; strncpy(o.cls, e.first.second.c_str(), sizeof(o.cls) - 1); o.cls[sizeof(o.cls) - 1] = 0; o.n = e.second; } }
std::vector<Count> op_counts() { std::vector<Count> v; for(int i = 0; i < sh->nops; ++i) v.push_back({sh->ops[i].op, sh->ops[i].cls, sh->ops[i].n}); return v; }

// One file system operation: scheduling point, crash point, fault decision. Returns errno to inject or 0.
static int op_begin(int op, const std::string& path, const std::string& cls, const Fault** which = nullptr) {
	if(!in_ctx()) return 0;
	int mnt = mnt_of(path.c_str());
	point(100 + op); fold(hash_str(cls.c_str()));
	g_cnt[{op, cls}]++;
	check_crash(op, cls.c_str(), false);
	if(lat_num || g_plan->explicit_sched) {
		uint64_t l = choice(DEV_LAT, 0, [] { return g_rng.below(65536) < lat_num ? g_rng.log_uniform(1000, lat_max) : 0; });
		if(l) { fired_add("io.latency"); sleep_ns(l, 1); }
	}
	for(auto& w : g_plan->windows) if((w.ops >> op & 1) && now() >= w.t0 && now() < w.t1 && path.compare(0, w.prefix.size(), w.prefix) == 0) {
		char b[64]; snprintf(b, sizeof b, "window.%s.%s", op_names[op], strerrorname_np(w.err)); fired_add(b); trace("inject(window) %s %s -> %s", op_names[op], path.c_str(), strerrorname_np(w.err)); fold(w.err); return w.err;
	}
	for(auto& s : g_faults) {
		if(s.f.op != op) continue;
		bool hit = false;
		if(s.on) hit = s.f.sticky == STICKY_FILE ? s.path == path : s.f.sticky == STICKY_MOUNT ? s.mnt == mnt : false;
		else if((s.f.cls == "*" || s.f.cls == cls) && ++s.n == s.f.nth) { hit = true; s.on = true; s.path = path; s.mnt = mnt; }
		if(hit) {
			char b[64]; snprintf(b, sizeof b, "%s.%s%s%s", op_names[op], strerrorname_np(s.f.err), s.f.frac ? ".torn" : "", s.f.lose ? ".lost" : ""); fired_add(b);
			sh->faults_fired++;
			trace("inject %s %s -> %s", op_names[op], path.c_str(), strerrorname_np(s.f.err)); fold(s.f.err * 31 + op);
			if(which) *which = &s.f;
			return s.f.err;
		}
	}
	return 0;
}
static void op_end(int op, const std::string& path, const std::string& cls, const std::string& p2 = "") { observe(op, path, p2); if(in_ctx()) { check_crash(op, cls.c_str(), true); point(120 + op); } }

static bool ours(const char* p) { return p && A && g_mode != M_OFF && !strncmp(p, "/sim/", 5); }
// simulated code must not change anything outside /sim/: recorded, never executed
static bool outside(const char* op, const char* p) {
	if(g_mode == M_OFF || !in_ctx() || !p || !strncmp(p, "/dev/", 5)) return false;
	trace("%s outside the given directories: %s", op, p); probe("outside_access");
	if(g_plan->prop == "C14" || g_plan->prop == "C18") violation("outside", std::string(op) + " of " + p + ", which is in none of the given directories");
	errno = EACCES; return true;
}
static bool wmode(const char* m) { return m[0] != 'r' || strchr(m, '+'); }
static std::string norm(const char* p) { std::string s; for(; *p; ++p) { if(*p == '/' && !s.empty() && s.back() == '/') continue; s += *p; } size_t i; while((i = s.find("/./")) != std::string::npos) s.erase(i, 2); return s; }

static int do_open(const char* raw, bool rd, bool wr, bool creat, bool trunc, bool excl, bool app) {
	std::string path = norm(raw), cls = path_class(path);
	if(int e = op_begin(OP_OPEN, path, cls)) { errno = e; return -1; }
	if((uint64_t)(g_nopen + 3) >= g_soft) { fired_add("open.EMFILE(limit)"); trace("EMFILE %s", path.c_str()); errno = EMFILE; return -1; }
	if(!parent_ok(path.c_str())) { if(creat) outside("creation", path.c_str()); errno = ENOENT; return -1; }
	Ent* e = find(path.c_str());
	if(!e) { if(!creat) { errno = ENOENT; return -1; } e = create(path.c_str()); }
	else { if(excl && creat) { errno = EEXIST; return -1; } if(trunc && wr) ino_trunc(e->ino); }
	OF* f = new OF; f->ino = e->ino; f->pos = 0; f->rd = rd; f->wr = wr; f->app = app; f->path = path; f->cls = cls; f->fd = g_nextfd++;
	A->ino[e->ino].nopen++; g_fd[f->fd] = f; if(++g_nopen > g_max_open) g_max_open = g_nopen;
	trace("open %s %s", path.c_str(), wr ? "w" : "r");
	op_end(OP_OPEN, path, cls);
	return f->fd;
}
static ssize_t do_read(OF* f, void* b, size_t n, bool at, uint64_t off) {
	if(int e = op_begin(OP_READ, f->path, f->cls)) { errno = e; return -1; }
	size_t r = pread_i(f->ino, at ? off : f->pos, b, n); if(!at) f->pos += r;
	fold(r); if(r) observe(OP_READ, f->path);
	return (ssize_t)r;
}
static ssize_t write_once(OF* f, const void* b, size_t n, bool at, uint64_t off) {
	const Fault* w = nullptr;
	int e = op_begin(OP_WRITE, f->path, f->cls, &w);
	size_t k = n;
	if(e) { k = w ? n * (size_t)w->frac / 1000 : 0; if(k >= n) k = n ? n - 1 : 0; }
	Inode& d = A->ino[f->ino]; Mnt& m = A->mnt[d.mnt];
	uint64_t pos = f->app ? d.size : at ? off : f->pos;
	uint64_t grow = pos + k > d.size ? pos + k - d.size : 0;
	if(m.used + grow > m.cap) { uint64_t room = m.cap > m.used ? m.cap - m.used : 0; uint64_t can = (pos < d.size ? d.size - pos : 0) + room; if(pos > d.size) can = room > pos - d.size ? room - (pos - d.size) : 0; if(can < k) { k = can; if(!e) { e = ENOSPC; fired_add("write.ENOSPC(capacity)"); if(in_ctx()) { sh->faults_fired++; trace("ENOSPC %s", f->path.c_str()); fold(28); } } } }
	if(k) { pwrite_raw(f->ino, pos, b, k); f->lo = pos; f->ll = k; if(!at || f->app) f->pos = pos + k; }
	fold(k);
	if(e && !k) { errno = e; return -1; }
	if(k) op_end(OP_WRITE, f->path, f->cls);
	if(e) { // the next call reports the error, as the kernel does; emulate it here
		errno = e; return k == n ? (ssize_t)k : -2 - (ssize_t)k;
	}
	return (ssize_t)k;
}
// write(2): a partial write returns the short count, the error comes with the next call
static ssize_t do_write(OF* f, const void* b, size_t n, bool at, uint64_t off) { ssize_t r = write_once(f, b, n, at, off); if(r <= -2) return -2 - r; return r; }
static int do_close(OF* f) {
	const Fault* w = nullptr;
	int e = op_begin(OP_CLOSE, f->path, f->cls, &w);
	if(e && w && w->lose && f->ll) { std::vector<uint8_t> z(f->ll, 0); pwrite_raw(f->ino, f->lo, z.data(), z.size()); }
	g_fd.erase(f->fd); g_nopen--; A->ino[f->ino].nopen--; ino_put(f->ino);
	trace("close %s", f->path.c_str());
	std::string p = f->path, c = f->cls; delete f;
	op_end(OP_CLOSE, p, c);
	if(e) { errno = e; return -1; }
	return 0;
}
static int do_rename(const char* a_, const char* b_) {
	std::string a = norm(a_), b = norm(b_), cls = path_class(a) + ">" + path_class(b);
	if(int e = op_begin(OP_RENAME, ours(b_) ? b : a, cls)) { errno = e; return -1; }
	Ent* s = find(a.c_str()); if(!s) { errno = ENOENT; return -1; }
	if(!ours(b_)) { if(!outside("renaming", b_)) errno = EXDEV; return -1; }
	if(!parent_ok(b.c_str())) { errno = ENOENT; return -1; }
	int ma = mnt_of(a.c_str()), mb = mnt_of(b.c_str());
	if(A->mnt[ma].dev != A->mnt[mb].dev) { errno = EXDEV; return -1; }
	Ent* d = find(b.c_str()); uint32_t ino = s->ino;
	if(d && d->ino == ino) return 0;
	if(ma != mb) { Inode& n = A->ino[ino]; A->mnt[ma].used -= n.size; A->mnt[mb].used += n.size; if(A->mnt[mb].used > A->mnt[mb].peak) A->mnt[mb].peak = A->mnt[mb].used; n.mnt = mb; }
	// atomic replace
	A->ino[ino].nlink++; if(d) drop_ent(d); drop_ent(find(a.c_str()));
	uint32_t e; if(A->free_ent) { e = A->free_ent; A->free_ent = A->ent[e].next; } else e = A->ent_top++;
	Ent& t = A->ent[e]; strcpy(t.path, b.c_str()); t.ino = ino; t.used = 1; uint32_t bk = bucket_of(b.c_str()); t.next = A->bucket[bk]; A->bucket[bk] = e;
	trace("rename %s -> %s", a.c_str(), b.c_str());
	op_end(OP_RENAME, a, cls, b);
	return 0;
}
static int do_unlink(const char* p_) {
	std::string p = norm(p_), cls = path_class(p);
	if(int e = op_begin(OP_UNLINK, p, cls)) { errno = e; return -1; }
	Ent* s = find(p.c_str()); if(!s) { errno = ENOENT; return -1; }
	drop_ent(s); trace("unlink %s", p.c_str());
	op_end(OP_UNLINK, p, cls);
	return 0;
}
static int do_stat(const char* p_, struct stat* st) {
	std::string p = norm(p_), cls = path_class(p);
	if(int e = op_begin(OP_STAT, p, cls)) { errno = e; return -1; }
	memset(st, 0, sizeof *st);
	std::string d = p; if(d.back() != '/') d += '/';
	for(int i = 0; i < A->nmnt; ++i) if(d == A->mnt[i].dir) { st->st_mode = S_IFDIR | 0755; st->st_nlink = 2; st->st_dev = A->mnt[i].dev; st->st_ino = 100000 + i; return 0; }
	Ent* e = find(p.c_str()); if(!e) { errno = ENOENT; return -1; }
	Inode& n = A->ino[e->ino]; st->st_mode = S_IFREG | 0644; st->st_size = n.size; st->st_nlink = 1; st->st_dev = A->mnt[n.mnt].dev; st->st_ino = e->ino; st->st_blksize = 4096; st->st_blocks = (n.size + 511) / 512;
	return 0;
}
static OF* fd_of(int fd) { if(g_mode == M_OFF || fd < FDBASE) return nullptr; auto i = g_fd.find(fd); return i == g_fd.end() ? nullptr : i->second; }
// ---- cookie callbacks (glibc buffers above)
static ssize_t ck_read(void* c, char* b, size_t n) { OF* f = (OF*)c; if(!f->rd) { errno = EBADF; return -1; } return do_read(f, b, n, false, 0); }
static ssize_t ck_write(void* c, const char* b, size_t n) {
	OF* f = (OF*)c; if(!f->wr) { errno = EBADF; return 0; }
	ssize_t r = write_once(f, b, n, false, 0);
	if(r == -1) return 0;
	if(r <= -2) return -2 - r;
	return r;
}
static int ck_seek(void* c, off64_t* off, int wh) {
	OF* f = (OF*)c; if(in_ctx()) if(int e = op_begin(OP_SEEK, f->path, f->cls)) { errno = e; return -1; }
	int64_t b = wh == SEEK_SET ? 0 : wh == SEEK_CUR ? (int64_t)f->pos : (int64_t)A->ino[f->ino].size;
	if(b + *off < 0) { errno = EINVAL; return -1; }
	f->pos = b + *off; *off = f->pos; return 0;
}
static int ck_close(void* c) { return do_close((OF*)c); }
static FILE* wrap(int fd, const char* mode) {
	OF* f = g_fd[fd]; cookie_io_functions_t io = {ck_read, ck_write, ck_seek, ck_close};
	// glibc's own buffering; locking is done by our wrappers
	REAL(FILE*, fopencookie, void*, const char*, cookie_io_functions_t);
	FILE* fp = real_fopencookie(f, mode, io); f->fp = fp; g_fp[fp] = f; return fp;
}
static FILE* do_fopen(const char* path, const char* mode) {
	bool plus = strchr(mode, '+'), r = mode[0] == 'r', w = mode[0] == 'w', a = mode[0] == 'a';
	int fd = do_open(path, r || plus, !r || plus, !r, w, strchr(mode, 'x'), a);
	if(fd < 0) return nullptr;
	return wrap(fd, mode);
}
// wrappers serialise per FILE at simulator level (glibc's own FILE lock then never contends)
struct FG {
	FILE* f; bool on = false;
	FG(FILE* fp, bool io = true) : f(fp) {
		if(!in_ctx()) return;
		auto it = g_fp.find(fp); if(it == g_fp.end()) return;
		if(OF* o = it->second; io && !o->bufset) { o->bufset = true; o->buf.reset(new char[g_blk]); REAL(int, setvbuf, FILE*, char*, int, size_t); real_setvbuf(fp, o->buf.get(), _IOFBF, g_blk); }
		on = true; int me = self()->id;
		for(;;) { FLock& l = g_flock[f]; if(l.owner < 0 || l.owner == me) { l.owner = me; l.depth++; break; } block(S_FUTEX, f, false, 0); }
	}
	~FG() { if(!on) return; auto i = g_flock.find(f); if(i == g_flock.end()) return; if(--i->second.depth == 0) { i->second.owner = -1; if(in_ctx()) wake_all_on(f, S_FUTEX); } }
};
static bool isours(FILE* f) { return g_mode != M_OFF && g_fp.find(f) != g_fp.end(); }
}
bool fault_thread() {
	using namespace fs;
	g_cnt[{OP_THREAD, "thread"}]++;
	for(auto& s : g_faults) if(s.f.op == OP_THREAD && !s.on && ++s.n == s.f.nth) { s.on = true; fired_add("thread.EAGAIN"); sh->faults_fired++; trace("inject pthread_create EAGAIN"); return true; }
	return false;
}
static bool fault_alloc(size_t n) {
	using namespace fs;
	if(n < 4096 || !in_ctx() || g_faults.empty()) return false;
	for(auto& s : g_faults) if(s.f.op == OP_ALLOC && !s.on && ++s.n == s.f.nth) { s.on = true; fired_add("alloc.ENOMEM"); sh->faults_fired++; trace("inject bad_alloc %zu", n); return true; }
	return false;
}
}
using namespace sim; using namespace sim::fs;

void* operator new(size_t n) { if(__builtin_expect(n >= 4096, 0) && fault_alloc(n)) throw std::bad_alloc(); void* p = malloc(n ? n : 1); if(!p) throw std::bad_alloc(); return p; }
void* operator new[](size_t n) { return operator new(n); }
void operator delete(void* p) noexcept { free(p); }
void operator delete[](void* p) noexcept { free(p); }
void operator delete(void* p, size_t) noexcept { free(p); }
void operator delete[](void* p, size_t) noexcept { free(p); }

extern "C" {
FILE* fopen(const char* p, const char* m) { REAL(FILE*, fopen, const char*, const char*); if(ours(p)) return do_fopen(p, m); if(wmode(m) && outside("creation", p)) return nullptr; return real_fopen(p, m); }
FILE* fopen64(const char* p, const char* m) { REAL(FILE*, fopen64, const char*, const char*); if(ours(p)) return do_fopen(p, m); if(wmode(m) && outside("creation", p)) return nullptr; return real_fopen64(p, m); }
FILE* fdopen(int fd, const char* m) noexcept { REAL(FILE*, fdopen, int, const char*); return fd_of(fd) ? wrap(fd, m) : real_fdopen(fd, m); }
int fclose(FILE* f) {
	REAL(int, fclose, FILE*);
	if(g_mode != M_OFF && !isours(f) && in_ctx()) { // a stream we do not know: a double fclose of a simulated stream, or a real one
		if(f != stdin && f != stdout && f != stderr) { trace("fclose of unknown stream"); end_run(END_SEGV, 6, "fclose() of a stream that is not open (double close)"); }
	}
	if(!isours(f)) return real_fclose(f);
	int r; { FG g(f, false); r = real_fclose(f); int e = errno; g_fp.erase(f); if(in_ctx()) wake_all_on(f, S_FUTEX); g_flock.erase(f); errno = e; }
	return r;
}
size_t fread(void* b, size_t s, size_t n, FILE* f) { REAL(size_t, fread, void*, size_t, size_t, FILE*); FG g(f); return real_fread(b, s, n, f); }
size_t fwrite(const void* b, size_t s, size_t n, FILE* f) { REAL(size_t, fwrite, const void*, size_t, size_t, FILE*); if(!isours(f)) return real_fwrite(b, s, n, f); FG g(f); return real_fwrite(b, s, n, f); }
size_t fread_unlocked(void* b, size_t s, size_t n, FILE* f) { return fread(b, s, n, f); }
size_t fwrite_unlocked(const void* b, size_t s, size_t n, FILE* f) { return fwrite(b, s, n, f); }
int fseek(FILE* f, long o, int w) { REAL(int, fseek, FILE*, long, int); FG g(f); return real_fseek(f, o, w); }
int fseeko(FILE* f, off_t o, int w) { REAL(int, fseeko, FILE*, off_t, int); FG g(f); return real_fseeko(f, o, w); }
int fseeko64(FILE* f, off64_t o, int w) { return fseeko(f, o, w); }
long ftell(FILE* f) { REAL(long, ftell, FILE*); FG g(f); return real_ftell(f); }
off_t ftello(FILE* f) { REAL(off_t, ftello, FILE*); FG g(f); return real_ftello(f); }
off64_t ftello64(FILE* f) { return ftello(f); }
void rewind(FILE* f) { REAL(void, rewind, FILE*); FG g(f); real_rewind(f); }
int fflush(FILE* f) { REAL(int, fflush, FILE*); if(f && !isours(f)) return real_fflush(f); if(!f) { return 0; } FG g(f); return real_fflush(f); }
int fputc(int c, FILE* f) { REAL(int, fputc, int, FILE*); FG g(f); return real_fputc(c, f); }
int fputs(const char* s, FILE* f) { REAL(int, fputs, const char*, FILE*); FG g(f); return real_fputs(s, f); }
int fgetc(FILE* f) { REAL(int, fgetc, FILE*); FG g(f); return real_fgetc(f); }
char* fgets(char* b, int n, FILE* f) { REAL(char*, fgets, char*, int, FILE*); FG g(f); return real_fgets(b, n, f); }
int setvbuf(FILE* f, char* b, int m, size_t n) noexcept {
	REAL(int, setvbuf, FILE*, char*, int, size_t);
	if(isours(f)) {
		OF* o = g_fp[f]; o->bufset = true;
		// glibc reads an unbuffered real file in pieces of the size asked for, but an unbuffered cookie stream byte by byte
		if(!o->wr && (m == _IONBF || (n && n < 128))) { m = _IOFBF; n = g_blk; o->buf.reset(new char[n]); b = o->buf.get(); }
	}
	return real_setvbuf(f, b, m, n);
}
void setbuf(FILE* f, char* b) noexcept { setvbuf(f, b, b ? _IOFBF : _IONBF, BUFSIZ); }
void setbuffer(FILE* f, char* b, size_t n) noexcept { setvbuf(f, b, b ? _IOFBF : _IONBF, n); }
int fileno(FILE* f) noexcept { REAL(int, fileno, FILE*); if(isours(f)) return g_fp[f]->fd; return real_fileno(f); }
void flockfile(FILE* f) noexcept { REAL(void, flockfile, FILE*); if(!isours(f)) { real_flockfile(f); return; } if(!in_ctx()) return; int me = self()->id; for(;;) { FLock& l = g_flock[f]; if(l.owner < 0 || l.owner == me) { l.owner = me; l.depth++; return; } block(S_FUTEX, f, false, 0); } }
void funlockfile(FILE* f) noexcept { REAL(void, funlockfile, FILE*); if(!isours(f)) { real_funlockfile(f); return; } if(!in_ctx()) return; FLock& l = g_flock[f]; if(--l.depth == 0) { l.owner = -1; wake_all_on(f, S_FUTEX); } }

static int open_common(const char* p, int fl) { int a = fl & O_ACCMODE; return do_open(p, a != O_WRONLY, a != O_RDONLY, fl & O_CREAT, fl & O_TRUNC, fl & O_EXCL, fl & O_APPEND); }
int open(const char* p, int fl, ...) { REAL(int, open, const char*, int, ...); va_list ap; va_start(ap, fl); int m = va_arg(ap, int); va_end(ap); if(ours(p)) return open_common(p, fl); if((fl & (O_ACCMODE | O_CREAT)) && outside("creation", p)) return -1; return real_open(p, fl, m); }
int open64(const char* p, int fl, ...) { REAL(int, open64, const char*, int, ...); va_list ap; va_start(ap, fl); int m = va_arg(ap, int); va_end(ap); if(ours(p)) return open_common(p, fl); if((fl & (O_ACCMODE | O_CREAT)) && outside("creation", p)) return -1; return real_open64(p, fl, m); }
int openat(int d, const char* p, int fl, ...) { REAL(int, openat, int, const char*, int, ...); va_list ap; va_start(ap, fl); int m = va_arg(ap, int); va_end(ap); if(ours(p)) return open_common(p, fl); if((fl & (O_ACCMODE | O_CREAT)) && outside("creation", p)) return -1; return real_openat(d, p, fl, m); }
int openat64(int d, const char* p, int fl, ...) { va_list ap; va_start(ap, fl); int m = va_arg(ap, int); va_end(ap); return openat(d, p, fl, m); }
static long fcntl_common(int fd, int c, long a, bool& mine) { mine = fd_of(fd) != nullptr; if(!mine) return 0; switch(c) { case F_GETFD: return FD_CLOEXEC; case F_GETFL: return O_RDWR; case F_SETFD: case F_SETFL: case F_SETLK: case F_SETLKW: return 0; default: errno = EINVAL; return -1; } }
int fcntl(int fd, int c, ...) { REAL(int, fcntl, int, int, ...); va_list ap; va_start(ap, c); long a = va_arg(ap, long); va_end(ap); bool mine; long r = fcntl_common(fd, c, a, mine); return mine ? r : real_fcntl(fd, c, a); }
int fcntl64(int fd, int c, ...) { REAL(int, fcntl64, int, int, ...); va_list ap; va_start(ap, c); long a = va_arg(ap, long); va_end(ap); bool mine; long r = fcntl_common(fd, c, a, mine); return mine ? r : real_fcntl64(fd, c, a); }
int flock(int fd, int o) noexcept { REAL(int, flock, int, int); return fd_of(fd) ? 0 : real_flock(fd, o); }
int creat(const char* p, mode_t m) { return open(p, O_CREAT | O_WRONLY | O_TRUNC, m); }
int close(int fd) { REAL(int, close, int); OF* f = fd_of(fd); if(g_mode != M_OFF && fd >= FDBASE && !f) { errno = EBADF; return -1; } return f ? do_close(f) : real_close(fd); }
ssize_t read(int fd, void* b, size_t n) { REAL(ssize_t, read, int, void*, size_t); OF* f = fd_of(fd); return f ? do_read(f, b, n, false, 0) : real_read(fd, b, n); }
ssize_t write(int fd, const void* b, size_t n) { REAL(ssize_t, write, int, const void*, size_t); OF* f = fd_of(fd); return f ? do_write(f, b, n, false, 0) : real_write(fd, b, n); }
ssize_t pread(int fd, void* b, size_t n, off_t o) { REAL(ssize_t, pread, int, void*, size_t, off_t); OF* f = fd_of(fd); return f ? do_read(f, b, n, true, o) : real_pread(fd, b, n, o); }
ssize_t pread64(int fd, void* b, size_t n, off64_t o) { return pread(fd, b, n, o); }
ssize_t pwrite(int fd, const void* b, size_t n, off_t o) { REAL(ssize_t, pwrite, int, const void*, size_t, off_t); OF* f = fd_of(fd); return f ? do_write(f, b, n, true, o) : real_pwrite(fd, b, n, o); }
ssize_t pwrite64(int fd, const void* b, size_t n, off64_t o) { return pwrite(fd, b, n, o); }
ssize_t writev(int fd, const struct iovec* v, int c) { REAL(ssize_t, writev, int, const struct iovec*, int); OF* f = fd_of(fd); if(!f) return real_writev(fd, v, c); ssize_t t = 0; for(int i = 0; i < c; ++i) { ssize_t r = do_write(f, v[i].iov_base, v[i].iov_len, false, 0); if(r < 0) return t ? t : -1; t += r; if((size_t)r < v[i].iov_len) break; } return t; }
ssize_t readv(int fd, const struct iovec* v, int c) { REAL(ssize_t, readv, int, const struct iovec*, int); OF* f = fd_of(fd); if(!f) return real_readv(fd, v, c); ssize_t t = 0; for(int i = 0; i < c; ++i) { ssize_t r = do_read(f, v[i].iov_base, v[i].iov_len, false, 0); if(r < 0) return t ? t : -1; t += r; if((size_t)r < v[i].iov_len) break; } return t; }
off_t lseek(int fd, off_t o, int w) noexcept { REAL(off_t, lseek, int, off_t, int); OF* f = fd_of(fd); if(!f) return real_lseek(fd, o, w); off64_t x = o; return ck_seek(f, &x, w) ? -1 : x; }
off64_t lseek64(int fd, off64_t o, int w) noexcept { return lseek(fd, o, w); }
int fsync(int fd) { REAL(int, fsync, int); OF* f = fd_of(fd); if(!f) return real_fsync(fd); point(140); return 0; }
int fdatasync(int fd) { return fsync(fd); }
int ftruncate(int fd, off_t n) noexcept { REAL(int, ftruncate, int, off_t); OF* f = fd_of(fd); if(!f) return real_ftruncate(fd, n); Inode& d = A->ino[f->ino]; if((uint64_t)n < d.size) { std::vector<uint8_t> keep(n); pread_i(f->ino, 0, keep.data(), n); ino_trunc(f->ino); if(n) pwrite_raw(f->ino, 0, keep.data(), n); } else usage(d, n); return 0; }
int ftruncate64(int fd, off64_t n) noexcept { return ftruncate(fd, n); }
int posix_fallocate(int fd, off_t o, off_t l) { REAL(int, posix_fallocate, int, off_t, off_t); OF* f = fd_of(fd); if(!f) return real_posix_fallocate(fd, o, l); Inode& d = A->ino[f->ino]; if((uint64_t)(o + l) > d.size) usage(d, o + l); return 0; }
int posix_fallocate64(int fd, off64_t o, off64_t l) { return posix_fallocate(fd, o, l); }
int fallocate(int fd, int mode, off_t o, off_t l) { REAL(int, fallocate, int, int, off_t, off_t); if(!fd_of(fd)) return real_fallocate(fd, mode, o, l); if(mode & ~FALLOC_FL_KEEP_SIZE) { errno = EOPNOTSUPP; return -1; } if(mode) return 0; int e = posix_fallocate(fd, o, l); if(e) { errno = e; return -1; } return 0; }
int fallocate64(int fd, int mode, off64_t o, off64_t l) { return fallocate(fd, mode, o, l); }
int sync_file_range(int fd, off64_t o, off64_t n, unsigned fl) { REAL(int, sync_file_range, int, off64_t, off64_t, unsigned); return fd_of(fd) ? 0 : real_sync_file_range(fd, o, n, fl); }
ssize_t readahead(int fd, off64_t o, size_t n) noexcept { REAL(ssize_t, readahead, int, off64_t, size_t); return fd_of(fd) ? 0 : real_readahead(fd, o, n); }
ssize_t pwritev(int fd, const struct iovec* v, int c, off_t o) { REAL(ssize_t, pwritev, int, const struct iovec*, int, off_t); OF* f = fd_of(fd); if(!f) return real_pwritev(fd, v, c, o); ssize_t t = 0; for(int i = 0; i < c; ++i) { ssize_t r = do_write(f, v[i].iov_base, v[i].iov_len, true, o + t); if(r < 0) return t ? t : -1; t += r; if((size_t)r < v[i].iov_len) break; } return t; }
ssize_t preadv(int fd, const struct iovec* v, int c, off_t o) { REAL(ssize_t, preadv, int, const struct iovec*, int, off_t); OF* f = fd_of(fd); if(!f) return real_preadv(fd, v, c, o); ssize_t t = 0; for(int i = 0; i < c; ++i) { ssize_t r = do_read(f, v[i].iov_base, v[i].iov_len, true, o + t); if(r < 0) return t ? t : -1; t += r; if((size_t)r < v[i].iov_len) break; } return t; }
ssize_t pwritev64(int fd, const struct iovec* v, int c, off64_t o) { return pwritev(fd, v, c, o); }
ssize_t preadv64(int fd, const struct iovec* v, int c, off64_t o) { return preadv(fd, v, c, o); }
int posix_fadvise(int, off_t, off_t, int) noexcept { return 0; }
int posix_fadvise64(int, off64_t, off64_t, int) noexcept { return 0; }
int fstat(int fd, struct stat* st) noexcept { REAL(int, fstat, int, struct stat*); OF* f = fd_of(fd); if(!f) return real_fstat(fd, st); memset(st, 0, sizeof *st); Inode& n = A->ino[f->ino]; st->st_mode = S_IFREG | 0644; st->st_size = n.size; st->st_nlink = n.nlink; st->st_dev = A->mnt[n.mnt].dev; st->st_ino = f->ino; st->st_blksize = 4096; return 0; }
int fstat64(int fd, struct stat64* st) noexcept { return fstat(fd, (struct stat*)st); }
int stat(const char* p, struct stat* st) noexcept { REAL(int, stat, const char*, struct stat*); return ours(p) ? do_stat(p, st) : real_stat(p, st); }
int lstat(const char* p, struct stat* st) noexcept { REAL(int, lstat, const char*, struct stat*); return ours(p) ? do_stat(p, st) : real_lstat(p, st); }
int stat64(const char* p, struct stat64* st) noexcept { return stat(p, (struct stat*)st); }
int lstat64(const char* p, struct stat64* st) noexcept { return lstat(p, (struct stat*)st); }
int access(const char* p, int m) noexcept { REAL(int, access, const char*, int); if(!ours(p)) return real_access(p, m); struct stat st; return do_stat(p, &st); }
int euidaccess(const char* p, int m) noexcept { return access(p, m); }
int faccessat(int d, const char* p, int m, int fl) noexcept { REAL(int, faccessat, int, const char*, int, int); return ours(p) ? access(p, m) : real_faccessat(d, p, m, fl); }
int fstatat(int d, const char* p, struct stat* st, int fl) noexcept { REAL(int, fstatat, int, const char*, struct stat*, int); return ours(p) ? do_stat(p, st) : real_fstatat(d, p, st, fl); }
int fstatat64(int d, const char* p, struct stat64* st, int fl) noexcept { return fstatat(d, p, (struct stat*)st, fl); }
int rename(const char* a, const char* b) noexcept { REAL(int, rename, const char*, const char*); if(ours(a)) return do_rename(a, b); if(outside("renaming", a)) return -1; return real_rename(a, b); }
int remove(const char* p) noexcept { REAL(int, remove, const char*); if(ours(p)) return do_unlink(p); if(outside("removal", p)) return -1; return real_remove(p); }
int unlink(const char* p) noexcept { REAL(int, unlink, const char*); if(ours(p)) return do_unlink(p); if(outside("removal", p)) return -1; return real_unlink(p); }
int renameat(int, const char* a, int, const char* b) noexcept { return rename(a, b); }
int renameat2(int, const char* a, int, const char* b, unsigned) noexcept { return rename(a, b); }
int unlinkat(int, const char* p, int) noexcept { return unlink(p); }
int link(const char* a_, const char* b_) noexcept {
	REAL(int, link, const char*, const char*); if(!ours(a_)) { if(outside("linking", a_)) return -1; return real_link(a_, b_); }
	std::string a = norm(a_), b = norm(b_), cls = path_class(a) + ">" + path_class(b);
	if(int e = op_begin(OP_RENAME, b, cls)) { errno = e; return -1; }
	Ent* s = find(a.c_str()); if(!s || !ours(b_) || !parent_ok(b.c_str())) { errno = ENOENT; return -1; }
	if(find(b.c_str())) { errno = EEXIST; return -1; }
	if(mnt_of(a.c_str()) != mnt_of(b.c_str())) { errno = EXDEV; return -1; }
	uint32_t ino = s->ino; A->ino[ino].nlink++; uint32_t e; if(A->free_ent) { e = A->free_ent; A->free_ent = A->ent[e].next; } else e = A->ent_top++;
	Ent& t = A->ent[e]; strcpy(t.path, b.c_str()); t.ino = ino; t.used = 1; uint32_t bk = bucket_of(b.c_str()); t.next = A->bucket[bk]; A->bucket[bk] = e;
	op_end(OP_RENAME, a, cls, b); return 0;
}
ssize_t sendfile(int o, int i, off_t* off, size_t n) noexcept { REAL(ssize_t, sendfile, int, int, off_t*, size_t); if(fd_of(o) || fd_of(i)) { errno = EINVAL; return -1; } return real_sendfile(o, i, off, n); }
ssize_t copy_file_range(int i, off64_t* io, int o, off64_t* oo, size_t n, unsigned f) { REAL(ssize_t, copy_file_range, int, off64_t*, int, off64_t*, size_t, unsigned); if(fd_of(o) || fd_of(i)) { errno = ENOSYS; return -1; } return real_copy_file_range(i, io, o, oo, n, f); }
int fchmod(int fd, mode_t m) noexcept { REAL(int, fchmod, int, mode_t); return fd_of(fd) ? 0 : real_fchmod(fd, m); }
int fchmodat(int d, const char* p, mode_t m, int f) noexcept { REAL(int, fchmodat, int, const char*, mode_t, int); return ours(p) ? 0 : real_fchmodat(d, p, m, f); }
int truncate(const char* p, off_t n) noexcept { REAL(int, truncate, const char*, off_t); if(!ours(p)) { if(outside("truncation", p)) return -1; return real_truncate(p, n); } int fd = open(p, O_WRONLY); if(fd < 0) return -1; ftruncate(fd, n); return close(fd); }
int mkdir(const char* p, mode_t m) noexcept { REAL(int, mkdir, const char*, mode_t); if(!ours(p)) { if(outside("creation", p)) return -1; return real_mkdir(p, m); } std::string d = norm(p); if(d.back() != '/') d += '/'; for(int i = 0; i < A->nmnt; ++i) if(d == A->mnt[i].dir) { errno = EEXIST; return -1; } errno = EACCES; return -1; }
int statvfs(const char* p, struct statvfs* s) noexcept { REAL(int, statvfs, const char*, struct statvfs*); if(!ours(p)) return real_statvfs(p, s); memset(s, 0, sizeof *s); int m = mnt_of((norm(p) + "/").c_str()); if(m < 0) m = 0; s->f_bsize = s->f_frsize = 4096; uint64_t c = A->mnt[m].cap, u = A->mnt[m].used; s->f_bavail = s->f_bfree = (c - u) / 4096; s->f_blocks = c / 4096; return 0; }
int getrlimit(__rlimit_resource_t r, struct rlimit* l) noexcept { REAL(int, getrlimit, __rlimit_resource_t, struct rlimit*); if(g_mode == M_OFF || r != RLIMIT_NOFILE) return real_getrlimit(r, l); l->rlim_cur = g_soft; l->rlim_max = g_hard; return 0; }
int setrlimit(__rlimit_resource_t r, const struct rlimit* l) noexcept { REAL(int, setrlimit, __rlimit_resource_t, const struct rlimit*); if(g_mode == M_OFF || r != RLIMIT_NOFILE) return real_setrlimit(r, l); if(l->rlim_max > g_hard) { errno = EPERM; return -1; } if(l->rlim_cur > l->rlim_max) { errno = EINVAL; return -1; } g_soft = l->rlim_cur; g_hard = l->rlim_max; return 0; }
int getrlimit64(__rlimit_resource_t r, struct rlimit64* l) noexcept { return getrlimit(r, (struct rlimit*)l); }
int setrlimit64(__rlimit_resource_t r, const struct rlimit64* l) noexcept { return setrlimit(r, (const struct rlimit*)l); }
}
