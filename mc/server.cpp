// Execution server for the bounded explorer.
//
// Links the assembler's own objects (main() renamed to spasm_main) and, for every request read
// on fd 0, forks a pristine child that runs one complete assembly inside a private scratch
// directory.  Everything the child produces (exit status or signal, console output, files) is
// sent back on fd 1.  The server drops root before serving, so an escaped write cannot reach
// anything outside the scratch directory.
//
// Environment answers under the caller's control, per request:
//   fsize    : RLIMIT_FSIZE in bytes, SIGXFSZ ignored: every write past that offset fails (-1: off)
//   faults   : (operation number, action) pairs: stdio operations on named files are numbered from 0
//              in the order they happen (open, read, write, seek, close) and the chosen ones fail
//   fill     : byte that malloc()ed memory and the stack hold (freed memory: its complement) (-1: leave alone)
//   timeout  : wall-clock limit in ms
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <cstdint>
#include <string>
#include <vector>
#include <set>
#include <unistd.h>
#include <fcntl.h>
#include <poll.h>
#include <signal.h>
#include <dirent.h>
#include <errno.h>
#include <malloc.h>
#include <alloca.h>
#include <time.h>
#include <grp.h>
#include <sys/stat.h>
#include <sys/wait.h>
#include <sys/resource.h>
#include <sys/mman.h>

int spasm_main(int argc, char **argv);

static void die(const char *m) { perror(m); _exit(97); }

static void rd(void *p, size_t n) {
	char *c = (char *) p;
	while (n) {
		ssize_t r = read(0, c, n);
		if (r == 0) _exit(0);
		if (r < 0) { if (errno == EINTR) continue; die("read"); }
		c += r; n -= r;
	}
}
static void wr(const void *p, size_t n) {
	const char *c = (const char *) p;
	while (n) {
		ssize_t r = write(1, c, n);
		if (r < 0) { if (errno == EINTR) continue; die("write"); }
		c += r; n -= r;
	}
}
static uint32_t u32(const char *&p) { uint32_t v; memcpy(&v, p, 4); p += 4; return v; }
static std::string str(const char *&p) { uint32_t n = u32(p); std::string s(p, n); p += n; return s; }
static void put32(std::string &o, uint32_t v) { o.append((char *) &v, 4); }
static void puts_(std::string &o, const std::string &s) { put32(o, s.size()); o += s; }

static double now() { timespec t; clock_gettime(CLOCK_MONOTONIC, &t); return t.tv_sec * 1e3 + t.tv_nsec / 1e6; }

static void mkparents(const std::string &f) {
	for (size_t i = 1; i < f.size(); i++)
		if (f[i] == '/') mkdir(f.substr(0, i).c_str(), 0755);
}

static bool slurp(const std::string &f, std::string &out, size_t cap) {
	int fd = open(f.c_str(), O_RDONLY | O_NONBLOCK);
	if (fd < 0) return false;
	char buf[65536];
	ssize_t r;
	out.clear();
	while ((r = read(fd, buf, sizeof buf)) > 0) {
		out.append(buf, r);
		if (out.size() > cap) break;
	}
	close(fd);
	return r >= 0;
}

// collects and removes everything in the scratch directory
static void harvest(const std::string &dir, const std::set<std::string> &inputs, std::string &out, uint32_t &n,
                    const std::string &prefix) {
	DIR *d = opendir(dir.c_str());
	if (!d) return;
	std::vector<std::string> names;
	while (dirent *e = readdir(d))
		if (strcmp(e->d_name, ".") && strcmp(e->d_name, "..")) names.push_back(e->d_name);
	closedir(d);
	for (auto &nm : names) {
		std::string path = dir + "/" + nm, rel = prefix.empty() ? nm : prefix + "/" + nm;
		struct stat st;
		if (lstat(path.c_str(), &st)) continue;
		if (S_ISDIR(st.st_mode)) {
			chmod(path.c_str(), 0755);
			harvest(path, inputs, out, n, rel);
			rmdir(path.c_str());
			continue;
		}
		if (S_ISREG(st.st_mode) && !inputs.count(rel)) {
			std::string data;
			slurp(path, data, 64u << 20);
			puts_(out, rel);
			puts_(out, data);
			n++;
		}
		unlink(path.c_str());
	}
}

// ---- stdio fault injection: --wrap=fopen routes the assembler's files through fopencookie streams
struct Ops { uint32_t n, fired; struct { uint8_t kind, fault; char name[46]; } op[4096]; };
static Ops *ops;
static bool inject;
static std::vector<std::pair<uint32_t, uint32_t>> plan;
struct Cookie { int fd; std::string name; };
// 0: no fault; otherwise an errno, or a number of bytes above 1000
static uint32_t step(char kind, const std::string &name) {
	uint32_t i = ops->n++, f = 0;
	for (auto &p : plan) if (p.first == i) f = p.second;
	if (i < 4096) {
		ops->op[i].kind = kind;
		ops->op[i].fault = f != 0;
		snprintf(ops->op[i].name, sizeof ops->op[i].name, "%s", name.c_str());
	}
	if (f) ops->fired++;
	return f;
}
static ssize_t ck_read(void *c, char *buf, size_t n) {
	Cookie *k = (Cookie *) c;
	uint32_t f = step('r', k->name);
	if (f && f < 1000) { errno = f; return -1; }
	if (f && n > f - 1000) n = f - 1000;
	return read(k->fd, buf, n);
}
static ssize_t ck_write(void *c, const char *buf, size_t n) {
	Cookie *k = (Cookie *) c;
	uint32_t f = step('w', k->name);
	if (f && f < 1000) { errno = f; return 0; }
	// stdio repeats partial write()s itself, so only reads move fewer bytes than asked
	size_t done = 0;
	while (done < n) {
		ssize_t r = write(k->fd, buf + done, n - done);
		if (r <= 0) break;
		done += r;
	}
	return done;
}
static int ck_seek(void *c, off64_t *o, int w) {
	Cookie *k = (Cookie *) c;
	uint32_t f = step('s', k->name);
	if (f && f < 1000) { errno = f; return -1; }
	off_t r = lseek(k->fd, *o, w);
	if (r < 0) return -1;
	*o = r;
	return 0;
}
static int ck_close(void *c) {
	Cookie *k = (Cookie *) c;
	uint32_t f = step('c', k->name);
	int r = close(k->fd);
	delete k;
	if (f && f < 1000) { errno = f; return -1; }
	return r;
}
extern "C" FILE *__real_fopen(const char *, const char *);
extern "C" FILE *__wrap_fopen(const char *name, const char *mode) {
	if (!inject) return __real_fopen(name, mode);
	uint32_t f = step(strchr(mode, 'r') ? 'o' : 'O', name);
	if (f && f < 1000) { errno = f; return NULL; }
	int fl = *mode == 'r' ? O_RDONLY : *mode == 'w' ? O_WRONLY | O_CREAT | O_TRUNC : O_WRONLY | O_CREAT | O_APPEND;
	if (strchr(mode, '+')) fl = (fl & ~(O_WRONLY | O_RDONLY)) | O_RDWR;
	int fd = open(name, fl, 0666);
	if (fd < 0) return NULL;
	cookie_io_functions_t io = { ck_read, ck_write, ck_seek, ck_close };
	return fopencookie(new Cookie{fd, name}, mode, io);
}

// memory contents under the caller's control: fresh memory holds `fill`, freed memory its complement
static volatile int memfill = -1;
#ifndef __SANITIZE_ADDRESS__
extern "C" {
void *__libc_malloc(size_t);
void *__libc_realloc(void *, size_t);
void *__libc_calloc(size_t, size_t);
void __libc_free(void *);
enum { EDGE = 1 << 18 };
static void soil(void *p, size_t from, size_t to, int c) {
	if (to - from > 2 * EDGE) {
		memset((char *) p + from, c, EDGE);
		memset((char *) p + to - EDGE, c, EDGE);
	} else
		memset((char *) p + from, c, to - from);
}
void *malloc(size_t n) {
	void *p = __libc_malloc(n);
	if (memfill >= 0 && p) soil(p, 0, malloc_usable_size(p), memfill);
	return p;
}
void *calloc(size_t n, size_t k) { return __libc_calloc(n, k); }
void *realloc(void *q, size_t n) {
	size_t had = q ? malloc_usable_size(q) : 0;
	void *p = __libc_realloc(q, n);
	if (memfill >= 0 && p && n && malloc_usable_size(p) > had) soil(p, had, malloc_usable_size(p), memfill);
	return p;
}
void free(void *p) {
	if (memfill >= 0 && p) { size_t n = malloc_usable_size(p); if (n < EDGE) memset(p, ~memfill, n); }
	__libc_free(p);
}
}
#endif

static __attribute__((noinline)) void paint(int fill) {
	volatile char *p = (volatile char *) alloca(262144);
	for (int i = 0; i < 262144; i++) p[i] = (char) fill;
}

static __attribute__((noinline)) int go(int argc, char **argv) { return spasm_main(argc, argv); }

int main(int argc, char **argv) {
	if (argc < 2) { fprintf(stderr, "usage: server scratchdir\n"); return 2; }
	std::string dir = argv[1];
	mallopt(M_MMAP_THRESHOLD, 1 << 17);      // not adapted to what was freed before: big blocks stay cheap, and come zeroed as in a fresh process
	mallopt(M_TRIM_THRESHOLD, 1 << 17);
	if (geteuid() == 0) {
		if (chown(dir.c_str(), 65534, 65534)) die("chown");
		if (setgroups(0, NULL) || setgid(65534) || setuid(65534)) die("drop privileges");
	}
	if (chdir(dir.c_str())) die("chdir");
	signal(SIGPIPE, SIG_IGN);
	ops = (Ops *) mmap(NULL, sizeof(Ops), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
	if (ops == MAP_FAILED) die("mmap");
	std::vector<char> req;
	for (;;) {
		uint32_t len;
		rd(&len, 4);
		req.resize(len);
		rd(req.data(), len);
		const char *p = req.data();
		uint32_t timeout = u32(p);
		int32_t fsize = (int32_t) u32(p), fill = (int32_t) u32(p);
		inject = false;
		plan.clear();
		uint32_t nplan = u32(p);
		if (nplan & 0x10000) inject = true;
		for (nplan &= 0xffff; nplan; nplan--) { uint32_t a = u32(p), b = u32(p); plan.push_back({a, b}); }
		ops->n = ops->fired = 0;
		std::vector<std::string> args;
		for (uint32_t n = u32(p); n; n--) args.push_back(str(p));
		std::set<std::string> inputs;
		for (uint32_t n = u32(p); n; n--) {
			std::string name = str(p);
			uint32_t mode = u32(p);
			std::string data = str(p);
			mkparents(name);
			if (mode & 040000) { mkdir(name.c_str(), mode & 0777); chmod(name.c_str(), mode & 0777); continue; }
			int fd = open(name.c_str(), O_WRONLY | O_CREAT | O_TRUNC, 0644);
			if (fd < 0) die(name.c_str());
			const char *q = data.data(); size_t left = data.size();
			while (left) { ssize_t r = write(fd, q, left); if (r < 0) die("input write"); q += r; left -= r; }
			fchmod(fd, mode & 0777);
			close(fd);
			if (!(mode & 010000)) inputs.insert(name);
		}
		int pfd[2];
		if (pipe2(pfd, O_CLOEXEC)) die("pipe");
		pid_t pid = fork();
		if (pid < 0) die("fork");
		if (pid == 0) {
			setpgid(0, 0);
			dup2(pfd[1], 1);
			dup2(pfd[1], 2);
			int z = open("/dev/null", O_RDONLY);
			dup2(z, 0);
			close(pfd[0]); close(pfd[1]); close(z);
			rlimit rl;
			rl.rlim_cur = rl.rlim_max = 0;
			setrlimit(RLIMIT_CORE, &rl);
			rl.rlim_cur = rl.rlim_max = fsize >= 0 ? (rlim_t) fsize : (rlim_t) (64u << 20);
			setrlimit(RLIMIT_FSIZE, &rl);
			signal(SIGXFSZ, SIG_IGN);
			signal(SIGPIPE, SIG_DFL);
#ifndef NO_ASLIMIT
			rl.rlim_cur = rl.rlim_max = 2ul << 30;
			setrlimit(RLIMIT_AS, &rl);
#endif
			std::vector<char *> av;
			for (auto &a : args) av.push_back(strdup(a.c_str()));
			av.push_back(NULL);
			if (fill >= 0) { paint(fill); memfill = fill; }
			exit(go(args.size(), av.data()));
		}
		setpgid(pid, pid);
		close(pfd[1]);
		std::string out;
		double t0 = now();
		bool timed = false;
		char buf[65536];
		for (;;) {
			double left = timeout - (now() - t0);
			if (left <= 0) { timed = true; break; }
			pollfd pf = { pfd[0], POLLIN, 0 };
			int r = poll(&pf, 1, (int) left + 1);
			if (r < 0) { if (errno == EINTR) continue; die("poll"); }
			if (r == 0) continue;
			ssize_t k = read(pfd[0], buf, sizeof buf);
			if (k <= 0) break;
			if (out.size() < (32u << 20)) out.append(buf, k);
			else { timed = true; break; }
		}
		if (timed) kill(-pid, SIGKILL);
		close(pfd[0]);
		int st = 0;
		rusage ru;
		while (wait4(pid, &st, 0, &ru) < 0 && errno == EINTR) ;
		kill(-pid, SIGKILL);
		std::string body, files;
		uint32_t nf = 0;
		harvest(".", inputs, files, nf, "");
		put32(body, timed ? 0x10000 : 0);
		put32(body, WIFEXITED(st) ? WEXITSTATUS(st) : 0x1000 + WTERMSIG(st));
		puts_(body, out);
		put32(body, nf);
		body += files;
		if (inject) {
			std::string o;
			for (uint32_t i = 0; i < ops->n && i < 4096; i++)
				o += std::string(1, (char) ops->op[i].kind) + (ops->op[i].fault ? "!" : " ") + ops->op[i].name + "\n";
			puts_(body, o);
		}
		uint32_t bl = body.size();
		wr(&bl, 4);
		wr(body.data(), bl);
	}
}
