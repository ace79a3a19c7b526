// sim_* replacements for every libc entry point keyd uses (or is likely to use).
#include "sim.h"
#include <algorithm>
#include <cerrno>
#include <cstdarg>
#include <cstdlib>
#include <dirent.h>
#include <fcntl.h>
#include <grp.h>
#include <pthread.h>
#include <signal.h>
#include <sys/file.h>
#include <sys/inotify.h>
#include <sys/ioctl.h>
#include <sys/socket.h>
#include <sys/stat.h>
#include <sys/time.h>
#include <sys/uio.h>
#include <sys/un.h>
#include <termios.h>
#include <linux/input.h>
#include <linux/uinput.h>

#define P (S->cur->p)
#define X extern "C" __attribute__((visibility("default")))

int sim_fork_capture(ForkFrame *f);
void sim_fork_resumed();
[[noreturn]] void sim_child_exec(Proc *p, const std::string &cmd);

static int seterr(int e)
{
	errno = e;
	return -1;
}
static void chk(const void *p, size_t n, const char *what)
{
	if (region_poisoned(p, n)) {
		record_crash(std::string("memory error: invalid buffer passed to ") + what);
		S->proc_exit(134, "crash");
	}
}

// ---------------------------------------------------------------- memory
X void *sim_malloc(size_t n) { return P->heap.alloc(n, false); }
X void *sim_calloc(size_t a, size_t b) { return P->heap.alloc(a * b, true); }
X void sim_free(void *p) { P->heap.free_(p); }
X void *sim_realloc(void *p, size_t n)
{
	if (!p) return P->heap.alloc(n, false);
	auto it = P->heap.chunks.find((char *)p);
	if (it == P->heap.chunks.end() || it->second.freed) {
		record_crash("realloc of invalid pointer");
		S->proc_exit(134, "crash");
	}
	void *q = P->heap.alloc(n, false);
	memcpy(q, p, std::min(n, it->second.size));
	P->heap.free_(p);
	return q;
}
X void *sim_reallocarray(void *p, size_t a, size_t b) { return sim_realloc(p, a * b); }
X char *sim_strdup(const char *s)
{
	size_t n = strlen(s) + 1;
	char *r = (char *)sim_malloc(n);
	memcpy(r, s, n);
	return r;
}
X char *sim_strndup(const char *s, size_t m)
{
	size_t n = strnlen(s, m);
	char *r = (char *)sim_malloc(n + 1);
	memcpy(r, s, n);
	r[n] = 0;
	return r;
}
X char *sim_strtok(char *s, const char *d) { return strtok_r(s, d, &P->strtok_save); }

// ---------------------------------------------------------------- time
X int sim_clock_gettime(clockid_t c, struct timespec *ts)
{
	S->tick();
	chk(ts, sizeof *ts, "clock_gettime");
	ns t = S->mono();
	if (c == CLOCK_REALTIME || c == CLOCK_REALTIME_COARSE) {
		t += 1700000000LL * SEC + S->real_skew;
		if (S->real_skew) S->stat["skewed_realtime_read"]++;
	} else {
		P->last_clock = t;
		S->rec(L_CLOCK, (int)(t / MS % 1000000000), (int)(t / MS / 1000000000));
	}
	ts->tv_sec = t / SEC;
	ts->tv_nsec = t % SEC;
	return 0;
}
X time_t sim_time(time_t *o)
{
	S->tick();
	time_t t = (S->mono() + S->real_skew) / SEC + 1700000000;
	if (o) *o = t;
	return t;
}
X int sim_gettimeofday(struct timeval *tv, void *)
{
	S->tick();
	ns t = S->mono() + S->real_skew + 1700000000LL * SEC;
	tv->tv_sec = t / SEC;
	tv->tv_usec = t % SEC / 1000;
	return 0;
}
static void dosleep(ns d)
{
	S->tick();
	S->rec(L_SLEEP, (int)(d / US));
	S->block([] { return false; }, S->now + d);
}
X int sim_usleep(useconds_t us) { dosleep((ns)us * US); return 0; }
X unsigned sim_sleep(unsigned s) { dosleep((ns)s * SEC); return 0; }
X int sim_nanosleep(const struct timespec *a, struct timespec *) { dosleep(a->tv_sec * SEC + a->tv_nsec); return 0; }
X int sim_clock_nanosleep(clockid_t, int fl, const struct timespec *a, struct timespec *)
{
	ns d = a->tv_sec * SEC + a->tv_nsec;
	if (fl & TIMER_ABSTIME) d = std::max<ns>(0, d - S->mono());
	dosleep(d);
	return 0;
}

// ---------------------------------------------------------------- files
X int sim_open(const char *path, int flags, ...)
{
	S->tick();
	int e = S->fault("open");
	if (e) return seterr(e);
	Proc *p = P;
	std::string ps = path;
	bool cx = flags & O_CLOEXEC;
	auto o = std::make_shared<Ofd>();
	o->flags = flags;
	o->path = ps;
	if ((int)p->fds.size() >= S->prm.nofile) return seterr(EMFILE);
	if (ps == "/dev/null") {
		o->kind = O_NULL;
	} else if (ps == "/dev/uinput") {
		o->kind = O_UINPUT;
	} else if (ps == "/dev/hidg0") {
		o->kind = O_HIDG;
	} else if (ps.compare(0, 16, "/dev/input/event") == 0) {
		Device *d = S->bynode(atoi(path + 16));
		if (d && d->slow_open) {
			ns w = d->slow_open;
			S->stat["slow_open"]++;
			S->block([] { return false; }, S->now + w);
			d = S->bynode(atoi(path + 16));
		}
		if (!d) return seterr(ENOENT);
		if (d->f_open) {
			S->stat["dev_open_fail"]++;
			S->rec(L_DEVOPEN, d->id, -1, d->f_open);
			return seterr(d->f_open);
		}
		o->kind = O_EVDEV;
		o->dev = d;
		o->cl = std::make_shared<EvClient>();
		o->cl->dev = d;
		o->cl->proc = p->idx;
		o->cl->node = d->node;
		d->clients.push_back(o->cl);
		d->opens++;
		o->id = S->next_ofd++;
		int fd = S->newfd(p, o, cx);
		S->rec(L_DEVOPEN, d->id, fd, 0);
		return fd;
	} else {
		auto it = S->fs.find(ps);
		if (it == S->fs.end()) {
			if (!(flags & O_CREAT)) return seterr(ENOENT);
			auto n = std::make_shared<Node>();
			S->fs[ps] = n;
			it = S->fs.find(ps);
		}
		if (it->second->open_errno) {
			S->stat["file_open_fail"]++;
			return seterr(it->second->open_errno);
		}
		if (it->second->isdir && (flags & O_ACCMODE) != O_RDONLY) return seterr(EISDIR);
		if (it->second->is_socket) return seterr(ENXIO);
		o->kind = O_REG;
		o->node = it->second;
		if (flags & O_TRUNC) o->node->data.clear();
		S->rec(L_FSREAD, 0, 0, 0, 0, ps);
	}
	o->id = S->next_ofd++;
	return S->newfd(p, o, cx);
}
X int sim_creat(const char *p, mode_t m) { return sim_open(p, O_CREAT | O_WRONLY | O_TRUNC, m); }

X int sim_close(int fd)
{
	S->tick();
	Proc *p = P;
	if (!p->fds.count(fd)) return seterr(EBADF);
	S->closefd(p, fd);
	return 0;
}
X int sim_dup2(int a, int b)
{
	S->tick();
	Proc *p = P;
	auto it = p->fds.find(a);
	if (it == p->fds.end()) return seterr(EBADF);
	auto o = it->second.o;
	if (a == b) return b;
	if (p->fds.count(b)) S->closefd(p, b);
	o->refs++;
	p->fds[b] = {o, false};
	return b;
}
X int sim_dup3(int a, int b, int fl)
{
	int r = sim_dup2(a, b);
	if (r >= 0 && (fl & O_CLOEXEC)) P->fds[b].cloexec = true;
	return r;
}
X int sim_dup(int a)
{
	S->tick();
	auto it = P->fds.find(a);
	if (it == P->fds.end()) return seterr(EBADF);
	auto o = it->second.o;
	return S->newfd(P, o, false);
}
X int sim_fcntl(int fd, int cmd, ...)
{
	S->tick();
	va_list ap;
	va_start(ap, cmd);
	long arg = va_arg(ap, long);
	va_end(ap);
	auto it = P->fds.find(fd);
	if (it == P->fds.end()) return seterr(EBADF);
	switch (cmd) {
	case F_GETFD: return it->second.cloexec ? FD_CLOEXEC : 0;
	case F_SETFD: it->second.cloexec = arg & FD_CLOEXEC; return 0;
	case F_GETFL: return it->second.o->flags;
	case F_SETFL: it->second.o->flags = (it->second.o->flags & O_ACCMODE) | arg; return 0;
	case F_DUPFD: { auto o = it->second.o; return S->newfd(P, o, false, arg); }
	case F_DUPFD_CLOEXEC: { auto o = it->second.o; return S->newfd(P, o, true, arg); }
	}
	return 0;
}
X int sim_access(const char *path, int)
{
	S->tick();
	auto it = S->fs.find(path);
	if (it == S->fs.end()) return seterr(ENOENT);
	return 0;
}
X int sim_unlink(const char *path)
{
	S->tick();
	auto it = S->fs.find(path);
	if (it == S->fs.end()) return seterr(ENOENT);
	S->fs.erase(it);
	return 0;
}
X int sim_rename(const char *a, const char *b)
{
	S->tick();
	auto it = S->fs.find(a);
	if (it == S->fs.end()) return seterr(ENOENT);
	S->fs[b] = it->second;
	S->fs.erase(a);
	return 0;
}
X int sim_chmod(const char *path, mode_t m)
{
	S->tick();
	auto it = S->fs.find(path);
	if (it == S->fs.end()) return seterr(ENOENT);
	it->second->mode = m;
	return 0;
}
X int sim_fchmod(int, mode_t) { S->tick(); return 0; }
X int sim_chown(const char *, uid_t, gid_t) { S->tick(); return 0; }
X mode_t sim_umask(mode_t) { return 022; }
static void fillstat(struct stat *st, Node *n)
{
	memset(st, 0, sizeof *st);
	st->st_mode = n->isdir ? S_IFDIR | 0755 : n->is_socket ? S_IFSOCK | 0660 : S_IFREG | 0644;
	st->st_size = n->data.size();
}
X int sim_stat(const char *path, struct stat *st)
{
	S->tick();
	auto it = S->fs.find(path);
	if (it == S->fs.end()) return seterr(ENOENT);
	fillstat(st, it->second.get());
	return 0;
}
X int sim_lstat(const char *path, struct stat *st) { return sim_stat(path, st); }
X int sim_fstat(int fd, struct stat *st)
{
	S->tick();
	Ofd *o = S->get(fd);
	if (!o) return seterr(EBADF);
	memset(st, 0, sizeof *st);
	if (o->kind == O_STDOUT)
		st->st_mode = P->stdout_pipe ? S_IFIFO | 0600 : S_IFCHR | 0600;
	else if (o->kind == O_REG)
		fillstat(st, o->node.get());
	else
		st->st_mode = S_IFCHR;
	return 0;
}
X int sim_flock(int fd, int op)
{
	S->tick();
	Ofd *o = S->get(fd);
	if (!o) return seterr(EBADF);
	int e = S->fault("flock");
	if (e) return seterr(e);
	if (op & LOCK_UN) {
		if (o->locked) { o->node->lock_owner_ofd = 0; o->locked = false; }
		S->kick();
		return 0;
	}
	auto n = o->node;
	if (n->lock_owner_ofd && n->lock_owner_ofd != o->id) {
		if (op & LOCK_NB) return seterr(EWOULDBLOCK);
		S->block([n] { return n->lock_owner_ofd == 0; }, -1);
	}
	n->lock_owner_ofd = o->id;
	o->locked = true;
	return 0;
}

struct SimDir { std::vector<DirEnt> ents; size_t pos = 0; struct dirent de; };
X DIR *sim_opendir(const char *path)
{
	S->tick();
	std::string ps = path;
	while (ps.size() > 1 && ps.back() == '/') ps.pop_back();
	int e = S->fault("opendir");
	if (!e && ps != "/dev/input") {
		auto it = S->fs.find(ps);
		if (it == S->fs.end()) e = ENOENT;
		else if (it->second->open_errno) e = it->second->open_errno;
		else if (!it->second->isdir) e = ENOTDIR;
	}
	S->rec(L_OPENDIR, e, 0, 0, 0, ps);
	if (e) { errno = e; return nullptr; }
	SimDir *d = new SimDir;
	d->ents.push_back({".", DT_DIR});
	d->ents.push_back({"..", DT_DIR});
	if (ps == "/dev/input") {
		d->ents.push_back({"by-id", DT_DIR});
		d->ents.push_back({"mice", DT_CHR});
		for (Device *v : S->order)
			if (v->present) {
				d->ents.push_back({fmt("event%d", v->node), DT_CHR});
				if (!v->rel.empty()) d->ents.push_back({fmt("mouse%d", v->node), DT_CHR});
			}
	} else {
		for (auto &x : S->fs)
			if (x.first.size() > ps.size() + 1 && x.first.compare(0, ps.size() + 1, ps + "/") == 0 &&
			    x.first.find('/', ps.size() + 1) == std::string::npos)
				d->ents.push_back({x.first.substr(ps.size() + 1), (uint8_t)(x.second->isdir ? DT_DIR : x.second->dtype)});
	}
	auto o = std::make_shared<Ofd>();
	o->kind = O_NULL;
	o->path = "dir:" + ps;
	o->id = S->next_ofd++;
	int fd = S->newfd(P, o, true);
	if (fd < 0) { delete d; return nullptr; }
	d->pos = 0;
	d->de.d_ino = fd;
	return (DIR *)d;
}
X struct dirent *sim_readdir(DIR *dh)
{
	S->tick();
	SimDir *d = (SimDir *)dh;
	if (d->pos >= d->ents.size()) return nullptr;
	auto &e = d->ents[d->pos++];
	d->de.d_type = e.type;
	snprintf(d->de.d_name, sizeof d->de.d_name, "%s", e.name.c_str());
	return &d->de;
}
X int sim_closedir(DIR *dh)
{
	S->tick();
	SimDir *d = (SimDir *)dh;
	S->closefd(P, (int)d->de.d_ino);
	delete d;
	return 0;
}

// ---------------------------------------------------------------- stdio
struct SimFile { uint32_t magic; int fd; bool eof, err; std::string buf; size_t pos; bool own; };
static bool is_sim(FILE *f) { return f != stdout && f != stderr && f != stdin; }

static ssize_t out_write(Proc *p, int which, const char *b, size_t n)
{
	if (p->stdout_closed && which == 1) {
		if (!p->sigign[SIGPIPE] && !p->sigh[SIGPIPE]) S->proc_exit(128 + SIGPIPE, "signal");
		errno = EPIPE;
		return -1;
	}
	if (which == 1 && S->short_wr && n > 1 && p->role != "daemon" && S->rng.chance(S->short_wr)) { n = S->rng.range(1, n); S->stat["short_write"]++; }
	std::string &o = which == 1 ? p->out : p->errout;
	o.append(b, n);
	if (o.size() > p->outcap * 2) o.erase(0, o.size() - p->outcap);
	S->rec(which == 1 ? L_STDOUT : L_STDERR, 0, 0, 0, 0, std::string(b, n));
	return n;
}
// stdio of the client processes is buffered like glibc's
static void out_flush(Proc *p, size_t n)
{
	while (n) {
		ssize_t k = out_write(p, 1, p->outbuf.data(), n);
		if (k < 0) { p->outbuf.erase(0, n); return; }
		p->outbuf.erase(0, k);
		n -= k;
	}
}
void sim_stdio_exit(Proc *p) { if (!p->outbuf.empty()) out_flush(p, p->outbuf.size()); }
static ssize_t emit(FILE *f, const char *b, size_t n)
{
	Proc *p = P;
	int fd = f == stderr ? 2 : 1;
	if (fd == 1 && p->role != "daemon" && p->outmode != _IONBF) {
		S->tick();
		p->outbuf.append(b, n);
		if (p->outmode == _IOLBF) { auto k = p->outbuf.rfind('\n'); if (k != std::string::npos) out_flush(p, k + 1); }
		if (p->outbuf.size() >= 4096) out_flush(p, p->outbuf.size() / 4096 * 4096);
		return n;
	}
	S->tick();
	auto it = p->fds.find(fd);
	if (it == p->fds.end()) { errno = EBADF; return -1; }
	if (it->second.o->kind == O_NULL) return n;
	if (it->second.o->kind != O_STDOUT) return n;
	return out_write(p, (int)it->second.o->pos, b, n);
}
X int sim_vfprintf(FILE *f, const char *fm, va_list ap)
{
	char *s = nullptr;
	int n = vasprintf(&s, fm, ap);
	if (n < 0) return n;
	std::string t(s, n);
	free(s);
	return emit(f, t.data(), t.size());
}
X int sim_fprintf(FILE *f, const char *fm, ...)
{
	va_list ap; va_start(ap, fm);
	int r = sim_vfprintf(f, fm, ap);
	va_end(ap);
	return r;
}
X int sim_vprintf(const char *fm, va_list ap) { return sim_vfprintf(stdout, fm, ap); }
X int sim_printf(const char *fm, ...)
{
	va_list ap; va_start(ap, fm);
	int r = sim_vfprintf(stdout, fm, ap);
	va_end(ap);
	return r;
}
X int sim_puts(const char *s) { std::string t = std::string(s) + "\n"; return emit(stdout, t.data(), t.size()); }
X int sim_fputs(const char *s, FILE *f) { return emit(f, s, strlen(s)); }
X int sim_fputc(int c, FILE *f) { char b = c; emit(f, &b, 1); return c; }
X int sim_putchar(int c) { return sim_fputc(c, stdout); }
X size_t sim_fwrite(const void *b, size_t a, size_t n, FILE *f) { return emit(f, (const char *)b, a * n) < 0 ? 0 : n; }
X void sim_perror(const char *s)
{
	std::string t = fmt("%s: %s\n", s, strerror(errno));
	emit(stderr, t.data(), t.size());
}
X int sim_fflush(FILE *f) { if ((!f || f == stdout) && !P->outbuf.empty()) { S->tick(); out_flush(P, P->outbuf.size()); } return 0; }
X int sim_setvbuf(FILE *f, char *, int m, size_t) { if (f == stdout) P->outmode = m; return 0; }
X void sim_setlinebuf(FILE *f) { if (f == stdout) P->outmode = _IOLBF; }
X void sim_setbuf(FILE *f, char *b) { if (f == stdout && !b) P->outmode = _IONBF; }
X int sim_fileno(FILE *f) { return f == stdin ? 0 : f == stdout ? 1 : f == stderr ? 2 : ((SimFile *)f)->fd; }
X ssize_t sim_read(int fd, void *buf, size_t n);
X FILE *sim_fopen(const char *path, const char *mode)
{
	int fl = O_RDONLY;
	if (mode[0] == 'w') fl = O_WRONLY | O_CREAT | O_TRUNC;
	if (strchr(mode, 'e')) fl |= O_CLOEXEC;
	int fd = sim_open(path, fl, 0644);
	if (fd < 0) return nullptr;
	return (FILE *)new SimFile{0x51f1e, fd, false, false, "", 0, true};
}
static int sf_get(SimFile *f)
{
	if (f->pos >= f->buf.size()) {
		if (f->eof || f->err) return -1;
		char b[4096];
		ssize_t n = sim_read(f->fd, b, sizeof b);
		if (n < 0) { f->err = true; return -1; }
		if (n == 0) { f->eof = true; return -1; }
		f->buf.assign(b, n);
		f->pos = 0;
	}
	return (unsigned char)f->buf[f->pos++];
}
X char *sim_fgets(char *s, int n, FILE *fh)
{
	SimFile *f = (SimFile *)fh;
	chk(s, n, "fgets");
	int i = 0;
	while (i < n - 1) {
		int c = sf_get(f);
		if (c < 0) {
			if (f->err || i == 0) return nullptr;
			break;
		}
		s[i++] = c;
		if (c == '\n') break;
	}
	s[i] = 0;
	return s;
}
X size_t sim_fread(void *b, size_t a, size_t n, FILE *fh)
{
	SimFile *f = (SimFile *)fh;
	size_t i = 0;
	for (; i < a * n; i++) {
		int c = sf_get(f);
		if (c < 0) break;
		((char *)b)[i] = c;
	}
	return a ? i / a : 0;
}
X int sim_fgetc(FILE *f) { return sf_get((SimFile *)f); }
X ssize_t sim_getline(char **lp, size_t *np, FILE *fh)
{
	SimFile *f = (SimFile *)fh;
	std::string s;
	int c;
	while ((c = sf_get(f)) >= 0) { s += (char)c; if (c == '\n') break; }
	if (s.empty()) return -1;
	if (!*lp || *np < s.size() + 1) { *lp = (char *)sim_realloc(*lp, s.size() + 1); *np = s.size() + 1; }
	memcpy(*lp, s.c_str(), s.size() + 1);
	return s.size();
}
X int sim_feof(FILE *f) { return is_sim(f) ? ((SimFile *)f)->eof : 0; }
X int sim_ferror(FILE *f) { return is_sim(f) ? ((SimFile *)f)->err : 0; }
X void sim_clearerr(FILE *f) { if (is_sim(f)) { ((SimFile *)f)->eof = ((SimFile *)f)->err = false; } }
X int sim_fclose(FILE *fh)
{
	if (!is_sim(fh)) return 0;
	SimFile *f = (SimFile *)fh;
	sim_close(f->fd);
	delete f;
	return 0;
}

// ---------------------------------------------------------------- read / write
static ssize_t evdev_read(Ofd *o, char *b, size_t n)
{
	Device *d = o->dev;
	EvClient *c = o->cl.get();
	if (n < sizeof(struct input_event)) return seterr(EINVAL);
	if (c->dead) {
		S->rec(L_READERR, d->id, ENODEV);
		return seterr(ENODEV);
	}
	int e = S->fault("evread");
	if (e) { S->rec(L_READERR, d->id, e); return seterr(e); }
	if (!c->ready()) {
		if (o->flags & O_NONBLOCK) { S->rec(L_READERR, d->id, EAGAIN); return seterr(EAGAIN); }
		S->block([c] { return c->dead || c->ready(); }, -1);
		if (c->dead) { S->rec(L_READERR, d->id, ENODEV); return seterr(ENODEV); }
	}
	size_t k = 0;
	while (k + sizeof(struct input_event) <= n && c->packet_head != c->tail) {
		InputEv v = c->buf[c->tail++];
		c->tail &= 63;
		struct input_event ie;
		memset(&ie, 0, sizeof ie);
		ie.time.tv_sec = S->mono() / SEC;
		ie.time.tv_usec = S->mono() % SEC / 1000;
		ie.type = v.type; ie.code = v.code; ie.value = v.value;
		memcpy(b + k, &ie, sizeof ie);
		k += sizeof ie;
		S->rec(L_READ, d->id, v.type, v.code, v.value);
	}
	return k;
}

static bool ep_ready(Endpoint *e) { return !e->rx.empty() || e->sk_err || !e->peer || e->peer->closed || e->peer->shut_wr || e->closed; }

static ssize_t sock_read(Ofd *o, char *b, size_t n, int fl)
{
	Endpoint *e = o->ep;
	if (!e) return seterr(ENOTCONN);
	size_t done = 0;
	ns dl = o->so_rcv > 0 ? S->now + o->so_rcv : -1;
	bool nb = (o->flags & O_NONBLOCK) || (fl & MSG_DONTWAIT);
	while (1) {
		if (fl & MSG_PEEK) {
			size_t k = 0;
			for (auto &s : e->rx) for (size_t i = s.off; i < s.data.size() && k < n; i++) b[k++] = s.data[i];
			if (k) return k;
		} else if (!e->rx.empty()) {
			size_t want = n - done;
			if (S->short_rd && S->rng.chance(S->short_rd)) { want = S->rng.range(1, std::min<size_t>(want, 900)); S->stat["short_read"]++; }
			size_t k = S->ep_read(e, b + done, want);
			if (e->server || true) S->rec(L_SREAD, e->conn, e->server, 0, 0, std::string(b + done, k));
			done += k;
		}
		if (done == n || (done && !(fl & MSG_WAITALL))) return done;
		if (e->sk_err) {
			if (done) return done;
			int er = e->sk_err;
			e->sk_err = 0;
			S->stat["sock_reset"]++;
			return seterr(er);
		}
		if (!e->peer || e->peer->closed || e->peer->shut_wr) return done;
		if (nb) return done ? (ssize_t)done : seterr(EAGAIN);
		P->interrupted = false;
		if (!S->block([e] { return ep_ready(e); }, dl)) {
			if (P->interrupted) return done ? (ssize_t)done : seterr(EINTR);
			S->stat["recv_timeout"]++;
			return done ? (ssize_t)done : seterr(EAGAIN);
		}
	}
}
static ssize_t sock_write(Ofd *o, const char *b, size_t n, int fl)
{
	Endpoint *e = o->ep;
	Proc *p = P;
	if (!e) return seterr(ENOTCONN);
	int inj = e->server ? S->fault("sockwrite") : 0;
	if ((e->broken || inj) && inj != ECONNRESET) inj = EPIPE;
	if (inj) e->broken = true;
	if (inj) { S->rec(L_SWERR, e->conn, inj); return seterr(inj); }
	std::string canon;
	if (!e->server && n == 4112) { // a request: bytes beyond the payload are stack garbage, make them reproducible
		canon.assign(b, n);
		size_t sz;
		memcpy(&sz, b + 4104, sizeof sz);
		for (size_t i = 8 + std::min<size_t>(sz, 4096); i < 4104; i++) canon[i] = 'Y';
		b = canon.data();
	}
	size_t done = 0;
	ns dl = o->so_snd > 0 ? S->now + o->so_snd : -1;
	while (1) {
		int err;
		size_t k = S->ep_write(e, b + done, n - done, err);
		if (k) S->rec(L_SWRITE, e->conn, e->server, 0, 0, std::string(b + done, k));
		done += k;
		if (done == n) return done;
		if (err && err != EAGAIN) {
			if (done) return done;
			S->stat["sock_" + std::string(err == EPIPE ? "epipe" : "reset")]++;
			S->rec(L_SWERR, e->conn, err);
			if (err == EPIPE && !(fl & MSG_NOSIGNAL) && !p->sigign[SIGPIPE] && !p->sigh[SIGPIPE]) S->proc_exit(128 + SIGPIPE, "signal");
			return seterr(err);
		}
		if ((o->flags & O_NONBLOCK) || (fl & MSG_DONTWAIT)) return done ? (ssize_t)done : seterr(EAGAIN);
		S->stat["send_backpressure"]++;
		size_t want = 1;
		(void)want;
		size_t need = std::min(n - done, e->sndbuf / 2 > 64 ? e->sndbuf / 2 - 64 : (size_t)64);
		size_t cost = ((need + 255) & ~(size_t)255) + 768;
		p->interrupted = false;
		if (!S->block([e, cost] { return e->sk_err || e->closed || e->peer->closed || e->wmem == 0 || e->wmem + cost <= e->sndbuf; }, dl)) {
			if (p->interrupted) return done ? (ssize_t)done : seterr(EINTR);
			if (done) return done;
			S->stat["send_timeout"]++;
			S->rec(L_SWERR, e->conn, EAGAIN);
			return seterr(EAGAIN);
		}
	}
}

X ssize_t sim_read(int fd, void *buf, size_t n)
{
	S->tick();
	Ofd *o = S->get(fd);
	if (!o) return seterr(EBADF);
	chk(buf, n, "read");
	char *b = (char *)buf;
	switch (o->kind) {
	case O_NULL: return 0;
	case O_EVDEV: return evdev_read(o, b, n);
	case O_CONN: return sock_read(o, b, n, 0);
	case O_INOTIFY: {
		size_t k = 0;
		if (o->inq.empty()) {
			if (o->flags & O_NONBLOCK) return seterr(EAGAIN);
			S->block([o] { return !o->inq.empty(); }, -1);
		}
		while (!o->inq.empty()) {
			const std::string &nm = o->inq.front();
			size_t ln = (nm.size() + 1 + 15) & ~(size_t)15;
			if (k + sizeof(struct inotify_event) + ln > n) break;
			struct inotify_event ie;
			memset(&ie, 0, sizeof ie);
			ie.wd = 1; ie.mask = IN_CREATE; ie.len = ln;
			memcpy(b + k, &ie, sizeof ie);
			memset(b + k + sizeof ie, 0, ln);
			memcpy(b + k + sizeof ie, nm.data(), nm.size());
			k += sizeof ie + ln;
			o->inq.pop_front();
		}
		if (k == 0) return seterr(EINVAL);
		return k;
	}
	case O_REG: {
		Node *nd = o->node.get();
		if (nd->isdir) return seterr(EISDIR);
		if (nd->eio_at >= 0 && (long)o->pos >= nd->eio_at && o->pos < nd->data.size()) {
			S->stat["file_read_eio"]++;
			return seterr(EIO);
		}
		size_t k = nd->data.size() > o->pos ? std::min(n, nd->data.size() - o->pos) : 0;
		if (nd->eio_at >= 0 && (long)(o->pos + k) > nd->eio_at) k = nd->eio_at - o->pos;
		memcpy(b, nd->data.data() + o->pos, k);
		o->pos += k;
		return k;
	}
	case O_STDIN: {
		Proc *p = P;
		if (p->tty) {
			auto avail = [p] { size_t nl = p->tty_in.rfind('\n'); return p->tty_lflag & ICANON ? (nl == std::string::npos ? 0 : nl + 1) : p->tty_in.size(); };
			if (!avail()) {
				if (o->flags & O_NONBLOCK) return seterr(EAGAIN);
				S->block([avail] { return avail() > 0; }, -1);
				if (!avail()) return seterr(EINTR);
			}
			size_t k = std::min(n, avail());
			memcpy(b, p->tty_in.data(), k);
			p->tty_in.erase(0, k);
			return k;
		}
		if (p->stdin_pos >= p->stdin_data.size()) {
			if (p->stdin_err) return seterr(p->stdin_err);
			return 0;
		}
		size_t k = std::min(n, p->stdin_data.size() - p->stdin_pos);
		if (!p->stdin_frag.empty()) { k = std::min(k, p->stdin_frag[0]); if (p->stdin_frag.size() > 1) p->stdin_frag.erase(p->stdin_frag.begin()); }
		memcpy(b, p->stdin_data.data() + p->stdin_pos, k);
		p->stdin_pos += k;
		return k;
	}
	default:
		return seterr(EINVAL);
	}
}

static ssize_t uinput_write(Ofd *o, const char *b, size_t n)
{
	if (!o->created) {
		if (n != sizeof(struct uinput_user_dev)) return seterr(EINVAL);
		struct uinput_user_dev u;
		memcpy(&u, b, sizeof u);
		o->uname = std::string(u.name, strnlen(u.name, sizeof u.name));
		o->uvendor = u.id.vendor;
		o->uproduct = u.id.product;
		return n;
	}
	size_t k = 0;
	while (k + sizeof(struct input_event) <= n) {
		struct input_event ie;
		memcpy(&ie, b + k, sizeof ie);
		S->input(o->dev, ie.type, ie.code, ie.value);
		k += sizeof ie;
	}
	return k;
}

X ssize_t sim_write(int fd, const void *buf, size_t n)
{
	S->tick();
	Ofd *o = S->get(fd);
	if (!o) return seterr(EBADF);
	chk(buf, n, "write");
	const char *b = (const char *)buf;
	switch (o->kind) {
	case O_NULL: return n;
	case O_STDOUT: return out_write(P, (int)o->pos, b, n);
	case O_CONN: return sock_write(o, b, n, 0);
	case O_UINPUT: return uinput_write(o, b, n);
	case O_EVDEV: {
		Device *d = o->dev;
		size_t k = 0;
		if (o->cl->dead) {
			S->rec(L_LEDW, d->id, -1, -1, ENODEV);
			return seterr(ENODEV);
		}
		while (k + sizeof(struct input_event) <= n) {
			struct input_event ie;
			memcpy(&ie, b + k, sizeof ie);
			if (d->f_led) {
				S->stat["led_write_fail"]++;
				S->rec(L_LEDW, d->id, ie.code, ie.value, d->f_led);
				return seterr(d->f_led);
			}
			if (ie.type == EV_LED) S->rec(L_LEDW, d->id, ie.code, ie.value, 0);
			if (ie.type == EV_LED || ie.type == EV_SYN) {
				if (d->leds.count(ie.code) || ie.type == EV_SYN) S->input(d, ie.type, ie.code, ie.value);
			}
			k += sizeof ie;
		}
		return k;
	}
	case O_HIDG: {
		std::string r(b, n);
		int e = S->fault("hidwrite");
		if (!e && S->hid_depth >= S->hid_max) e = EAGAIN;
		if (e) {
			S->stat["hid_eagain"]++;
			if (e == EAGAIN && !(o->flags & O_NONBLOCK)) {
				S->block([] { return S->hid_depth < S->hid_max; }, -1);
			} else
				return seterr(e);
		}
		S->hid_depth++;
		S->rec(L_HID, 0, 0, 0, 0, r);
		S->hidreports.push_back(r);
		return n;
	}
	case O_REG:
		o->node->data.append(b, n);
		return n;
	default:
		return seterr(EINVAL);
	}
}
X ssize_t sim_recv(int fd, void *b, size_t n, int fl)
{
	S->tick();
	Ofd *o = S->get(fd);
	if (!o) return seterr(EBADF);
	if (o->kind != O_CONN) return seterr(ENOTSOCK);
	chk(b, n, "recv");
	return sock_read(o, (char *)b, n, fl);
}
X ssize_t sim_send(int fd, const void *b, size_t n, int fl)
{
	S->tick();
	Ofd *o = S->get(fd);
	if (!o) return seterr(EBADF);
	if (o->kind != O_CONN) return seterr(ENOTSOCK);
	chk(b, n, "send");
	return sock_write(o, (const char *)b, n, fl);
}
X ssize_t sim_recvfrom(int fd, void *b, size_t n, int fl, void *, void *) { return sim_recv(fd, b, n, fl); }
X ssize_t sim_sendto(int fd, const void *b, size_t n, int fl, const void *, socklen_t) { return sim_send(fd, b, n, fl); }
X ssize_t sim_writev(int fd, const struct iovec *v, int c)
{
	std::string s;
	for (int i = 0; i < c; i++) s.append((char *)v[i].iov_base, v[i].iov_len);
	return sim_write(fd, s.data(), s.size());
}
X ssize_t sim_readv(int fd, const struct iovec *v, int c)
{
	ssize_t tot = 0;
	for (int i = 0; i < c; i++) {
		ssize_t n = sim_read(fd, v[i].iov_base, v[i].iov_len);
		if (n < 0) return tot ? tot : n;
		tot += n;
		if ((size_t)n < v[i].iov_len) break;
	}
	return tot;
}
X int sim_vdprintf(int fd, const char *fm, va_list ap)
{
	char *s = nullptr;
	int n = vasprintf(&s, fm, ap);
	if (n < 0) return n;
	std::string t(s, n);
	free(s);
	size_t k = 0;
	while (k < t.size()) {
		ssize_t w = sim_write(fd, t.data() + k, t.size() - k);
		if (w < 0) return -1;
		k += w;
	}
	return n;
}
X int sim_dprintf(int fd, const char *fm, ...)
{
	va_list ap; va_start(ap, fm);
	int r = sim_vdprintf(fd, fm, ap);
	va_end(ap);
	return r;
}

// ---------------------------------------------------------------- ioctl
static void bitcopy(const std::set<int> &s, unsigned char *b, size_t n)
{
	memset(b, 0, n);
	for (int c : s)
		if ((size_t)c / 8 < n) b[c / 8] |= 1 << (c % 8);
}
X int sim_ioctl(int fd, unsigned long req, ...)
{
	S->tick();
	va_list ap; va_start(ap, req);
	void *arg = va_arg(ap, void *);
	va_end(ap);
	Ofd *o = S->get(fd);
	if (!o) return seterr(EBADF);
	unsigned type = _IOC_TYPE(req), nr = _IOC_NR(req), sz = _IOC_SIZE(req);
	if (o->kind == O_UINPUT) {
		int e = S->fault("uinput_ioctl");
		if (e) return seterr(e);
		switch (req) {
		case UI_SET_EVBIT: o->evbits.insert((int)(long)arg); return 0;
		case UI_SET_KEYBIT: o->keybits.insert((int)(long)arg); return 0;
		case UI_SET_RELBIT: o->relbits.insert((int)(long)arg); return 0;
		case UI_SET_ABSBIT: o->absbits.insert((int)(long)arg); return 0;
		case UI_SET_LEDBIT: o->ledbits.insert((int)(long)arg); return 0;
		case UI_DEV_CREATE: {
			int id = 1000 + S->nvirt++;
			auto d = std::make_unique<Device>();
			d->id = id;
			d->is_virtual = true;
			d->owner = P->idx;
			d->name = o->uname; d->vendor = o->uvendor; d->product = o->uproduct;
			if (o->evbits.count(EV_KEY)) d->keys = o->keybits;
			if (o->evbits.count(EV_REL)) d->rel = o->relbits;
			if (o->evbits.count(EV_ABS)) d->abs = o->absbits;
			if (o->evbits.count(EV_LED)) d->leds = o->ledbits;
			d->rep = o->evbits.count(EV_REP);
			d->vkind = o->relbits.empty() ? 0 : 1;
			o->dev = d.get();
			o->created = true;
			S->rec(L_VCREATE, id, d->vkind);
			Device *dp = d.get();
			S->devs[id] = std::move(d);
			S->plug(dp);
			return 0;
		}
		case UI_DEV_DESTROY:
			if (o->created) { S->unplug(o->dev); o->created = false; }
			return 0;
		}
		return seterr(EINVAL);
	}
	if (o->kind != O_EVDEV) return seterr(ENOTTY);
	Device *d = o->dev;
	if (o->cl->dead) return seterr(ENODEV);
	if (type != 'E') return seterr(EINVAL);
	if (req == EVIOCGRAB) {
		int ret = 0;
		if (arg) {
			if (d->f_grab && d->f_grab_n) {
				if (d->f_grab_n > 0) d->f_grab_n--;
				S->stat["grab_fail"]++;
				ret = d->f_grab;
			} else if (d->grab && d->grab != o->cl.get()) ret = EBUSY;
			else if (d->grab == o->cl.get()) ret = EBUSY;
			else d->grab = o->cl.get();
			S->rec(L_GRAB, d->id, 1, ret);
		} else {
			if (d->grab != o->cl.get()) ret = EINVAL;
			else d->grab = nullptr;
			S->rec(L_GRAB, d->id, 0, ret);
		}
		return ret ? seterr(ret) : 0;
	}
	if (req == EVIOCGID) {
		if (d->f_id) { S->stat["dev_query_fail"]++; return seterr(d->f_id); }
		struct input_id id = {3, (uint16_t)d->vendor, (uint16_t)d->product, 1};
		memcpy(arg, &id, sizeof id);
		return 0;
	}
	if (_IOC_DIR(req) == _IOC_READ) {
		chk(arg, sz, "ioctl");
		unsigned char *b = (unsigned char *)arg;
		if (nr == 0x06) { // name
			if (d->f_name) { S->stat["dev_query_fail"]++; return seterr(d->f_name); }
			size_t n = std::min<size_t>(sz, d->name.size() + 1);
			memcpy(b, d->name.c_str(), n);
			return n;
		}
		if (nr == 0x18) { // key state
			if (d->f_keyq) return seterr(d->f_keyq);
			EvClient *c = o->cl.get();
			// flush queued key events, they are superseded by the state returned
			std::vector<InputEv> keep;
			for (unsigned i = c->tail; i != c->head; i = (i + 1) & 63)
				if (c->buf[i].type != EV_KEY) keep.push_back(c->buf[i]);
			std::vector<InputEv> k2;
			int num = 0;
			for (auto &e : keep) {
				if (e.type == EV_SYN && e.code == SYN_REPORT) {
					if (num == 0) continue;
					num = 0;
				} else
					num++;
				k2.push_back(e);
			}
			c->head = c->tail = c->packet_head = 0;
			for (auto &e : k2) {
				c->buf[c->head++] = e;
				if (e.type == EV_SYN && e.code == SYN_REPORT) c->packet_head = c->head;
			}
			bitcopy(d->down, b, sz);
			std::string ks;
			for (int x : d->down) ks += fmt("%d ", x);
			if (!ks.empty() && !S->q.empty()) P->spin = 0; // (finding F23: waits for the user)
			S->rec(L_KEYQ, d->id, 0, 0, 0, ks);
			// asked over and over while the user holds a key: let the time pass at a coarser grain
			if (ks.empty()) P->heldq = 0;
			else if (++P->heldq > 200 && !S->q.empty() && P->forks.empty()) S->block([] { return false; }, S->now + 200 * US);
			return sz;
		}
		if (nr == 0x19) {
			std::set<int> l;
			for (auto &x : d->ledst) if (x.second) l.insert(x.first);
			bitcopy(l, b, sz);
			return sz;
		}
		if (nr >= 0x20 && nr < 0x40) {
			if (d->f_bits) { S->stat["dev_query_fail"]++; return seterr(d->f_bits); }
			int ev = nr - 0x20;
			static const std::set<int> none;
			std::set<int> evs;
			if (ev == 0) {
				evs.insert(EV_SYN);
				if (!d->keys.empty()) evs.insert(EV_KEY);
				if (!d->rel.empty()) evs.insert(EV_REL);
				if (!d->abs.empty()) evs.insert(EV_ABS);
				if (!d->leds.empty()) evs.insert(EV_LED);
				bitcopy(evs, b, sz);
				return sz;
			}
			bitcopy(ev == EV_KEY ? d->keys : ev == EV_REL ? d->rel : ev == EV_ABS ? d->abs : ev == EV_LED ? d->leds : none, b, sz);
			return sz;
		}
		if (nr >= 0x40 && nr < 0x80) {
			if (d->f_abs) { S->stat["dev_query_fail"]++; return seterr(d->f_abs); }
			struct input_absinfo ai;
			memset(&ai, 0, sizeof ai);
			int a = nr - 0x40;
			if (d->abs.empty()) return seterr(EINVAL);
			if (a < 2 && d->abs.count(a)) { ai.minimum = d->absmin[a]; ai.maximum = d->absmax[a]; }
			memcpy(arg, &ai, std::min<size_t>(sz, sizeof ai));
			return 0;
		}
	}
	return seterr(EINVAL);
}

// ---------------------------------------------------------------- poll
static short revents_of(Proc *p, const struct pollfd &f)
{
	if (f.fd < 0) return 0;
	auto it = p->fds.find(f.fd);
	if (it == p->fds.end()) return POLLNVAL;
	Ofd *o = it->second.o.get();
	short r = 0;
	switch (o->kind) {
	case O_EVDEV:
		if (o->cl->dead) r = POLLERR | POLLHUP;
		else if (o->cl->ready()) r = POLLIN | POLLRDNORM;
		break;
	case O_INOTIFY:
		if (!o->inq.empty()) r = POLLIN;
		break;
	case O_LISTEN:
		if (!o->backlog.empty()) r = POLLIN;
		break;
	case O_CONN: {
		Endpoint *e = o->ep;
		if (!e) { r = POLLHUP; break; }
		if (!e->rx.empty() || e->peer->closed || e->peer->shut_wr) r |= POLLIN;
		if (e->peer->closed) r |= POLLHUP;
		if (e->sk_err) r |= POLLERR;
		if (e->wmem < e->sndbuf / 2) r |= POLLOUT;
		break;
	}
	case O_STDOUT:
		r = POLLOUT;
		if (p->stdout_closed && o->pos == 1) r |= POLLERR;
		break;
	case O_HIDG:
		if (S->hid_depth < S->hid_max) r = POLLOUT;
		break;
	default:
		r = POLLIN | POLLOUT;
		break;
	}
	return r & (f.events | POLLERR | POLLHUP | POLLNVAL);
}
static int do_poll(struct pollfd *f, nfds_t n, ns timeout)
{
	S->tick();
	Proc *p = P;
	chk(f, n * sizeof *f, "poll");
	if (!p->forks.empty()) {
		record_crash("a forked child runs on as a second daemon");
		S->proc_exit(1, "crash");
	}
	// (looking at one client connection is not a wait of the main loop)
	bool aside = false;
	if (n == 1 && f[0].fd >= 0) { auto it = p->fds.find(f[0].fd); aside = it != p->fds.end() && (it->second.o->kind == O_CONN || it->second.o->kind == O_HIDG); }
	if (!aside) S->rec(L_POLLIN, timeout < 0 ? -1 : (int)((timeout + MS - 1) / MS));
	auto any = [p, f, n, aside] {
		for (nfds_t i = 0; i < n; i++)
			if (revents_of(p, f[i])) return true;
		return p->uspin > 0 && !aside;
	};
	ns dl = timeout < 0 ? -1 : S->now + timeout;
	ns t0 = S->now;
	p->interrupted = false;
	p->blocked_since = S->now;
	S->block(any, dl);
	p->blocked_since = -1;
	(void)t0;
	if (p->interrupted) return seterr(EINTR);
	int c = 0;
	for (nfds_t i = 0; i < n; i++) {
		f[i].revents = revents_of(p, f[i]);
		if (!f[i].revents && p->uspin > 0 && f[i].fd >= 0 && (f[i].events & POLLIN)) {
			auto it = p->fds.find(f[i].fd);
			if (it->second.o->kind == O_EVDEV) f[i].revents = POLLIN; // spurious readiness
		}
		if (f[i].revents) c++;
	}
	if (p->uspin > 0 && !aside) { p->uspin = 0; S->stat["spurious_wakeup"]++; }
	if (!aside) S->rec(L_POLLOUT, c);
	return c;
}
X int sim_poll(struct pollfd *f, nfds_t n, int ms) { if (P->tty && (P->tty_lflag & ECHO)) P->tty_echo++; return do_poll(f, n, ms < 0 ? -1 : (ns)ms * MS); }
X int sim_ppoll(struct pollfd *f, nfds_t n, const struct timespec *ts, const sigset_t *) { return do_poll(f, n, ts ? ts->tv_sec * SEC + ts->tv_nsec : -1); }

// ---------------------------------------------------------------- sockets
X int sim_socket(int, int type, int)
{
	S->tick();
	int e = S->fault("socket");
	if (e) return seterr(e);
	auto o = std::make_shared<Ofd>();
	o->kind = O_UNBOUND;
	o->id = S->next_ofd++;
	if (type & SOCK_NONBLOCK) o->flags |= O_NONBLOCK;
	return S->newfd(P, o, type & SOCK_CLOEXEC);
}
X int sim_bind(int fd, const struct sockaddr *a, socklen_t)
{
	S->tick();
	auto it = P->fds.find(fd);
	if (it == P->fds.end()) return seterr(EBADF);
	int e = S->fault("bind");
	if (e) return seterr(e);
	auto o = it->second.o;
	std::string path = ((struct sockaddr_un *)a)->sun_path;
	if (S->fs.count(path)) return seterr(EADDRINUSE);
	auto n = std::make_shared<Node>();
	n->is_socket = true;
	S->fs[path] = n;
	o->bound = path;
	o->kind = O_LISTEN;
	S->bound[path] = o;
	return 0;
}
X int sim_listen(int fd, int bl)
{
	S->tick();
	Ofd *o = S->get(fd);
	if (!o) return seterr(EBADF);
	int e = S->fault("listen");
	if (e) return seterr(e);
	o->listening = true;
	o->backlog_max = bl;
	S->kick();
	return 0;
}
X int sim_accept4(int fd, struct sockaddr *, socklen_t *, int fl)
{
	S->tick();
	Ofd *o = S->get(fd);
	if (!o) return seterr(EBADF);
	int e = S->fault("accept");
	if (e) return seterr(e);
	if (o->backlog.empty()) {
		if (o->flags & O_NONBLOCK) return seterr(EAGAIN);
		S->block([o] { return !o->backlog.empty(); }, -1);
	}
	if ((int)P->fds.size() >= S->prm.nofile) return seterr(EMFILE);
	Endpoint *ep = o->backlog.front();
	o->backlog.pop_front();
	auto c = std::make_shared<Ofd>();
	c->kind = O_CONN;
	c->ep = ep;
	c->id = S->next_ofd++;
	if (fl & SOCK_NONBLOCK) c->flags |= O_NONBLOCK;
	int r = S->newfd(P, c, fl & SOCK_CLOEXEC);
	S->rec(L_ACCEPT, ep->conn, r);
	return r;
}
X int sim_accept(int fd, struct sockaddr *a, socklen_t *l) { return sim_accept4(fd, a, l, 0); }
X int sim_connect(int fd, const struct sockaddr *a, socklen_t)
{
	S->tick();
	Ofd *o = S->get(fd);
	if (!o) return seterr(EBADF);
	std::string path = ((struct sockaddr_un *)a)->sun_path;
	if (path != "/var/run/keyd.socket") return seterr(ENOENT);
	int err;
	Endpoint *e = S->client_connect(err);
	while (!e && err == EAGAIN) {
		S->block([] { return false; }, S->now + 5 * MS);
		e = S->client_connect(err);
	}
	if (!e) return seterr(err);
	o->kind = O_CONN;
	o->ep = e;
	return 0;
}
X int sim_setsockopt(int fd, int level, int opt, const void *v, socklen_t len)
{
	S->tick();
	Ofd *o = S->get(fd);
	if (!o) return seterr(EBADF);
	if (level != SOL_SOCKET) return seterr(ENOPROTOOPT);
	if (len < sizeof(int)) return seterr(EINVAL);
	if (opt == SO_SNDTIMEO || opt == SO_RCVTIMEO) {
		const struct timeval *tv = (const struct timeval *)v;
		if (len < sizeof *tv) return seterr(EINVAL);
		if (tv->tv_usec < 0 || tv->tv_usec >= 1000000) return seterr(EDOM);
		ns t = tv->tv_sec * SEC + tv->tv_usec * US;
		(opt == SO_SNDTIMEO ? o->so_snd : o->so_rcv) = t ? t : -1;
	} else if (opt == SO_SNDBUF && o->ep) {
		o->ep->sndbuf = *(const int *)v * 2;
	}
	return 0;
}
X int sim_getsockopt(int fd, int, int, void *v, socklen_t *l)
{
	S->tick();
	if (!S->get(fd)) return seterr(EBADF);
	memset(v, 0, *l);
	return 0;
}
X int sim_shutdown(int fd, int)
{
	S->tick();
	Ofd *o = S->get(fd);
	if (!o) return seterr(EBADF);
	if (o->ep) { o->ep->shut_wr = true; S->kick(); }
	return 0;
}

// ---------------------------------------------------------------- inotify
X int sim_inotify_init1(int fl)
{
	S->tick();
	int e = S->fault("inotify_init");
	if (e) return seterr(e);
	auto o = std::make_shared<Ofd>();
	o->kind = O_INOTIFY;
	o->id = S->next_ofd++;
	if (fl & IN_NONBLOCK) o->flags |= O_NONBLOCK;
	S->inotifies.push_back(o);
	return S->newfd(P, o, fl & IN_CLOEXEC);
}
X int sim_inotify_init() { return sim_inotify_init1(0); }
X int sim_inotify_add_watch(int fd, const char *, uint32_t mask)
{
	S->tick();
	Ofd *o = S->get(fd);
	if (!o) return seterr(EBADF);
	int e = S->fault("inotify_add");
	if (e) return seterr(e);
	if (mask & IN_CREATE) o->watch = true;
	return 1;
}
X int sim_inotify_rm_watch(int, int) { S->tick(); return 0; }

// ---------------------------------------------------------------- processes
X __attribute__((noinline)) int sim_fork()
{
	S->tick();
	int e = S->fault("fork");
	if (e) {
		S->rec(L_FORK, -1);
		return seterr(e);
	}
	ForkFrame *volatile f = new ForkFrame;
	volatile int phase = 0;
	f->childpid = S->next_pid++;
	f->pid = P->pid;
	getcontext(&f->ctx);
	if (phase == 0) {
		phase = 1;
		sim_fork_capture((ForkFrame *)f);
		P->forks.push_back((ForkFrame *)f);
		S->rec(L_FORK, f->childpid);
		return 0;
	}
	sim_fork_resumed();
	int pid = f->childpid;
	delete f;
	return pid;
}
X int sim_vfork() { return sim_fork(); }
X int sim_execve(const char *path, char *const argv[], char *const *)
{
	S->tick();
	int e = S->fault("exec");
	if (e) { S->rec(L_NOTE, e, 0, 0, 0, "exec failed"); return seterr(e); }
	if (P->forks.empty()) {
		record_crash("exec replaced the daemon itself");
		S->proc_exit(1, "crash");
	}
	std::string c = path;
	if (argv[0] && argv[1] && argv[2] && !strcmp(argv[1], "-c")) c = argv[2];
	else for (int i = 1; argv[i]; i++) c += std::string(" ") + argv[i];
	sim_child_exec(P, c);
}
X int sim_execv(const char *path, char *const argv[]) { return sim_execve(path, argv, nullptr); }
X int sim_execvp(const char *path, char *const argv[]) { return sim_execve(path, argv, nullptr); }
X int sim_execl(const char *path, const char *a0, ...)
{
	std::vector<char *> v;
	v.push_back((char *)a0);
	va_list ap; va_start(ap, a0);
	while (char *s = va_arg(ap, char *)) v.push_back(s);
	va_end(ap);
	v.push_back(nullptr);
	return sim_execve(path, v.data(), nullptr);
}
X int sim_waitpid(int pid, int *st, int fl)
{
	S->tick();
	Proc *p = P;
	auto have = [p] { return p->nchildren_zombie > 0; };
	auto running = [p] {
		if (p->nchildren_pending) return true;
		for (auto &k : S->kids) if (k.alive) return true;
		return false;
	};
	if (!have()) {
		if (fl & 1) return running() ? 0 : seterr(ECHILD);
		bool direct = p->nchildren_pending > 0;
		for (size_t i = 0; i < S->log.size(); i++)
			if (S->log[i].kind == L_EXEC && S->log[i].b == 1)
				for (auto &k : S->kids) if (k.pid == S->log[i].a && k.alive) direct = true;
		if (!direct) return seterr(ECHILD);
		S->block(have, -1);
		if (!have()) return seterr(EINTR);
	}
	p->nchildren_zombie--;
	if (st) *st = 0;
	S->rec(L_WAIT);
	return pid > 0 ? pid : 999;
}
X int sim_wait(int *st) { return sim_waitpid(-1, st, 0); }
X int sim_getpid() { return P->forks.empty() ? P->pid : P->forks.back()->childpid; }
X void sim_exit(int c) { S->tick(); S->proc_exit(c, "exit"); }
X void sim__exit(int c) { S->tick(); S->proc_exit(c, "_exit"); }
X void sim_abort()
{
	record_crash("abort()");
	S->proc_exit(134, "crash");
}
X void sim_assert_fail(const char *e, const char *f, unsigned l, const char *fn)
{
	const char *b = strrchr(f, '/');
	(void)l;
	record_crash(fmt("assertion failed: %s (%s, %s)", e, b ? b + 1 : f, fn));
	S->proc_exit(134, "crash");
}
X int sim_atexit(void (*f)()) { P->atexits.push_back(f); return 0; }
typedef void (*sighandler)(int);
X sighandler sim_signal(int s, sighandler h)
{
	Proc *p = P;
	sighandler o = p->sigign[s] ? SIG_IGN : p->sigh[s] ? p->sigh[s] : SIG_DFL;
	p->sigign[s] = h == SIG_IGN;
	p->sigh[s] = h == SIG_IGN || h == SIG_DFL ? nullptr : h;
	return o;
}
X int sim_sigaction(int s, const struct sigaction *a, struct sigaction *o)
{
	if (o) memset(o, 0, sizeof *o);
	if (a) sim_signal(s, a->sa_handler);
	return 0;
}
X int sim_sigprocmask(int, const sigset_t *, sigset_t *) { return 0; }
X int sim_kill(int, int) { return 0; }
X int sim_raise(int) { return 0; }
X int sim_nice(int n)
{
	S->tick();
	int e = S->fault("nice");
	if (e) return seterr(e);
	return n;
}
X int sim_setpriority(int, int, int) { return 0; }
X struct group *sim_getgrnam(const char *)
{
	static struct group g = {(char *)"keyd", (char *)"x", 990, nullptr};
	return &g;
}
X int sim_setgid(gid_t) { S->tick(); return 0; }
X int sim_setuid(uid_t) { S->tick(); return 0; }
X int sim_setsid() { S->tick(); return 1; }
X uid_t sim_getuid() { return 0; }
X uid_t sim_geteuid() { return 0; }
X int sim_isatty(int fd)
{
	Ofd *o = S->get(fd);
	return o && P->tty && (o->kind == O_STDIN || o->kind == O_STDOUT);
}
X int sim_tcgetattr(int fd, struct termios *t)
{
	S->tick();
	if (!sim_isatty(fd)) return seterr(ENOTTY);
	chk(t, sizeof *t, "tcgetattr");
	memset(t, 0, sizeof *t);
	t->c_lflag = P->tty_lflag;
	return 0;
}
X int sim_tcsetattr(int fd, int, const struct termios *t)
{
	S->tick();
	if (!sim_isatty(fd)) return seterr(ENOTTY);
	P->tty_lflag = t->c_lflag;
	S->rec(L_NOTE, 0, t->c_lflag, 0, 0, "terminal");
	return 0;
}
X char *sim_getenv(const char *n)
{
	static char lvl[2][2] = {"1", "2"};
	if (!strcmp(n, "KEYD_DEBUG") && S->prm.debug > 0 && S->prm.debug <= 2 && P->role == "daemon") return lvl[S->prm.debug - 1];
	return nullptr;
}
X int sim_setenv(const char *, const char *, int) { return 0; }
X int sim_mkdir(const char *, mode_t) { return 0; }
X int sim_system(const char *) { record_crash("system() called"); return -1; }

// ---------------------------------------------------------------- threads
X int sim_pthread_create(pthread_t *t, const pthread_attr_t *, void *(*fn)(void *), void *arg)
{
	S->tick();
	Task *k = S->spawn(P, nullptr);
	k->fn = [fn, arg, k] { k->ret = fn(arg); };
	*t = (pthread_t)k;
	S->stat["threads"]++;
	return 0;
}
X int sim_pthread_join(pthread_t t, void **r)
{
	S->tick();
	Task *k = (Task *)t;
	S->block([k] { return k->done; }, -1);
	if (r) *r = k->ret;
	return 0;
}
X int sim_pthread_detach(pthread_t) { return 0; }
X pthread_t sim_pthread_self() { return (pthread_t)S->cur; }
X int sim_pthread_mutex_init(pthread_mutex_t *m, const pthread_mutexattr_t *) { memset(m, 0, sizeof *m); return 0; }
X int sim_pthread_mutex_lock(pthread_mutex_t *m)
{
	int *l = (int *)m;
	if (*l) {
		S->stat["mutex_contended"]++;
		S->block([l] { return *l == 0; }, -1);
	}
	*l = 1;
	return 0;
}
X int sim_pthread_mutex_unlock(pthread_mutex_t *m)
{
	*(int *)m = 0;
	S->kick();
	return 0;
}
X int sim_pthread_mutex_destroy(pthread_mutex_t *) { return 0; }
X void sim_openlog(const char *, int, int) {}
X void sim_syslog(int, const char *, ...) {}
// every call of the usb-gadget backend's vkbd_send_key (see build.py)
X void sim_gadget_key(int code, int state) { S->tick(); S->rec(L_VKEY, code, state); }

// ---------------------------------------------------------------- other ways to say the same
static std::string atpath(int dir, const char *path)
{
	std::string ps = path;
	if (ps.empty() || ps[0] == '/' || dir == AT_FDCWD) return ps;
	Ofd *o = S->get(dir);
	return o ? o->path + "/" + ps : ps;
}
X int sim_openat(int dir, const char *path, int flags, ...) { return sim_open(atpath(dir, path).c_str(), flags, 0644); }
X int sim_fstatat(int dir, const char *path, struct stat *st, int) { return sim_stat(atpath(dir, path).c_str(), st); }
X int sim_faccessat(int dir, const char *path, int m, int) { return sim_access(atpath(dir, path).c_str(), m); }
X int sim_unlinkat(int dir, const char *path, int) { return sim_unlink(atpath(dir, path).c_str()); }
X int sim_remove(const char *path) { return sim_unlink(path); }
X off_t sim_lseek(int fd, off_t off, int wh)
{
	S->tick();
	Ofd *o = S->get(fd);
	if (!o) return seterr(EBADF);
	if (o->kind != O_REG) return seterr(ESPIPE);
	off_t base = wh == SEEK_SET ? 0 : wh == SEEK_CUR ? (off_t)o->pos : (off_t)o->node->data.size();
	if (base + off < 0) return seterr(EINVAL);
	return o->pos = base + off;
}
X ssize_t sim_pread(int fd, void *b, size_t n, off_t off)
{
	Ofd *o = S->get(fd);
	if (!o) return seterr(EBADF);
	if (o->kind != O_REG) return seterr(ESPIPE);
	size_t save = o->pos;
	o->pos = off;
	ssize_t r = sim_read(fd, b, n);
	o->pos = save;
	return r;
}
X int sim_vasprintf(char **out, const char *fm, va_list ap)
{
	va_list b;
	va_copy(b, ap);
	int n = vsnprintf(nullptr, 0, fm, b);
	va_end(b);
	if (n < 0 || !(*out = (char *)sim_malloc(n + 1))) return -1;
	return vsnprintf(*out, n + 1, fm, ap);
}
X int sim_asprintf(char **out, const char *fm, ...)
{
	va_list ap; va_start(ap, fm);
	int r = sim_vasprintf(out, fm, ap);
	va_end(ap);
	return r;
}
X int sim_getc(FILE *f) { return sim_fgetc(f); }
X int sim_putc(int c, FILE *f) { return sim_fputc(c, f); }
X int sim_select(int n, fd_set *r, fd_set *w, fd_set *e, struct timeval *tv)
{
	std::vector<struct pollfd> v;
	for (int i = 0; i < n; i++) {
		short ev = (r && FD_ISSET(i, r) ? POLLIN : 0) | (w && FD_ISSET(i, w) ? POLLOUT : 0) | (e && FD_ISSET(i, e) ? POLLPRI : 0);
		if (ev) v.push_back({i, ev, 0});
	}
	int rc = do_poll(v.data(), v.size(), tv ? tv->tv_sec * SEC + tv->tv_usec * 1000 : -1);
	if (rc < 0) return rc;
	if (r) FD_ZERO(r);
	if (w) FD_ZERO(w);
	if (e) FD_ZERO(e);
	rc = 0;
	for (auto &p : v) {
		if (r && (p.events & POLLIN) && (p.revents & (POLLIN | POLLHUP | POLLERR))) { FD_SET(p.fd, r); rc++; }
		if (w && (p.events & POLLOUT) && (p.revents & (POLLOUT | POLLERR))) { FD_SET(p.fd, w); rc++; }
	}
	return rc;
}
X ssize_t sim_sendmsg(int fd, const struct msghdr *m, int)
{
	return sim_writev(fd, m->msg_iov, m->msg_iovlen);
}
X ssize_t sim_recvmsg(int fd, struct msghdr *m, int)
{
	return sim_readv(fd, m->msg_iov, m->msg_iovlen);
}
