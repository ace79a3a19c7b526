// The simulated kernel: tasks, processes, devices, sockets, files.
#include "sim.h"
#include <algorithm>
#include <cerrno>
#include <cstdarg>
#include <cstdlib>
#include <sys/mman.h>
#include <linux/input.h>
#include <sanitizer/asan_interface.h>
#include <sanitizer/common_interface_defs.h>

Sim *S = nullptr;
std::vector<Instance> instances;
std::map<std::string, long> g_stat;

const char *log_names[] = {"pollin", "pollout", "clock", "read", "readerr", "out", "outdup", "raw", "grab", "devopen",
	"devclose", "ledw", "accept", "sread", "swrite", "swerr", "sclose", "exec", "fork", "sig", "exit", "sleep", "start", "vcreate",
	"vdestroy", "note", "act", "stdout", "stderr", "inject", "drop", "hid", "vkey", "fsread", "wait", "opendir", "clisend", "cliclose", "keyq"};

std::string fmt(const char *f, ...)
{
	char b[2048];
	va_list ap;
	va_start(ap, f);
	vsnprintf(b, sizeof b, f, ap);
	va_end(ap);
	return b;
}

uint64_t fnv(uint64_t h, const void *p, size_t n)
{
	const uint8_t *b = (const uint8_t *)p;
	for (size_t i = 0; i < n; i++)
		h = (h ^ b[i]) * 1099511628211ull;
	return h;
}

// copies that bypass ASAN's interceptors (poisoned red zones are copied along)
static void rawcopy(void *d, const void *s, size_t n)
{
	asm volatile("rep movsb" : "+D"(d), "+S"(s), "+c"(n) : : "memory");
}
static void rawzero(void *d, size_t n)
{
	asm volatile("rep stosb" : "+D"(d), "+c"(n) : "a"(0) : "memory");
}
static std::string rawstr(const char *p, size_t n)
{
	std::string s(n, 0);
	rawcopy(&s[0], p, n);
	return s;
}
bool region_poisoned(const void *p, size_t n)
{
	return n && __asan_region_is_poisoned((void *)p, n) != nullptr;
}

static size_t shadow_scale, shadow_off;
static std::string shadow_get(char *p, size_t n)
{
	char *a = (char *)(((uintptr_t)p >> shadow_scale) + shadow_off);
	return rawstr(a, n >> shadow_scale);
}
static void shadow_set(char *p, const std::string &s)
{
	char *a = (char *)(((uintptr_t)p >> shadow_scale) + shadow_off);
	rawcopy(a, s.data(), s.size());
}

void Instance::restore()
{
	rawcopy(d0, pristine.data(), d1 - d0);
	rawzero(b0, b1 - b0);
}

// ---------------------------------------------------------------- heap
static std::vector<Heap> heap_pool;
void Heap::init()
{
	if (base)
		return;
	if (!heap_pool.empty()) {
		*this = heap_pool.back();
		heap_pool.pop_back();
		return;
	}
	cap = 1ull << 30;
	base = (char *)mmap(nullptr, cap, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
	used = 0;
}
void Heap::reset()
{
	if (!base)
		return;
	__asan_unpoison_memory_region(base, used + 4096);
	if (used > (64u << 20))
		madvise(base, used, MADV_DONTNEED);
	used = live = nlive = peak = freed_bytes = 0;
	chunks.clear();
	freed.clear();
}
void *Heap::alloc(size_t n, bool zero)
{
	size_t rz = 64;
	size_t sz = (n + 15) & ~(size_t)15;
	if (sz == 0) sz = 16;
	char *p = nullptr;
	if (freed_bytes > (64u << 20)) { // recycle the oldest freed block of the same size
		for (size_t i = 0; i < freed.size() && i < 8; i++) {
			auto it = chunks.find(freed[i]);
			if (((it->second.size + 15) & ~(size_t)15) == sz) {
				p = freed[i];
				freed_bytes -= it->second.size;
				freed.erase(freed.begin() + i);
				break;
			}
		}
	}
	if (!p) {
		if (used + sz + 2 * rz > cap)
			return nullptr;
		p = base + used + rz;
		__asan_poison_memory_region(base + used, rz);
		used += rz + sz;
		__asan_poison_memory_region(base + used, rz);
	}
	__asan_unpoison_memory_region(p, n);
	if (n < sz)
		__asan_poison_memory_region(p + ((n + 7) & ~(size_t)7), sz - ((n + 7) & ~(size_t)7));
	if (zero)
		rawzero(p, n);
	else
		memset(p, 0xbe, n);
	chunks[p] = {n, false, 0};
	live += n; nlive++;
	if (live > peak) peak = live;
	return p;
}
void Heap::free_(void *q)
{
	if (!q)
		return;
	auto it = chunks.find((char *)q);
	if (it == chunks.end()) {
		record_crash("free() of a pointer that was never allocated");
		return;
	}
	if (it->second.freed) {
		record_crash("double free");
		return;
	}
	it->second.freed = true;
	live -= it->second.size; nlive--;
	freed.push_back((char *)q);
	freed_bytes += it->second.size;
	__asan_poison_memory_region(q, (it->second.size + 15) & ~(size_t)15);
}

// ---------------------------------------------------------------- tasks
static std::vector<char *> stack_pool;
static const size_t STACK = 1 << 20;
static const void *sched_bottom;
static size_t sched_size;

static char *get_stack()
{
	if (!stack_pool.empty()) {
		char *s = stack_pool.back();
		stack_pool.pop_back();
		rawzero(s, STACK);
		return s;
	}
	char *m = (char *)mmap(nullptr, STACK + 65536, PROT_NONE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
	mprotect(m + 65536, STACK, PROT_READ | PROT_WRITE);
	return m + 65536;
}

static ForkFrame *g_restore = nullptr;

static void task_main()
{
	Task *t = S->cur;
	__sanitizer_finish_switch_fiber(t->fake, &sched_bottom, &sched_size);
	t->fn();
	t->done = true;
	S->kick();
	S->yield_();
	abort();
}

Task *Sim::spawn(Proc *p, std::function<void()> fn)
{
	tasks.emplace_back(new Task);
	Task *t = tasks.back().get();
	t->stack = get_stack();
	t->stacksz = STACK;
	t->p = p;
	t->fn = fn;
	__asan_unpoison_memory_region(t->stack, STACK);
	getcontext(&t->ctx);
	t->ctx.uc_stack.ss_sp = t->stack;
	t->ctx.uc_stack.ss_size = STACK;
	t->ctx.uc_link = nullptr;
	makecontext(&t->ctx, task_main, 0);
	p->tasks.push_back(t);
	schedule_resume(t, rng.range(prm.wake_lo, prm.wake_hi));
	return t;
}

void Sim::schedule_resume(Task *t, ns d)
{
	uint64_t g = ++t->gen;
	after(d, [this, t, g] {
		if (t->gen == g)
			resume(t);
	});
}

void Sim::resume(Task *t)
{
	if (t->dead || t->done || !t->p->alive)
		return;
	if (now < t->p->stall_until) {
		ns d = t->p->stall_until - now;
		schedule_resume(t, d);
		return;
	}
	Task *prev = cur;
	cur = t;
	void *fs_ = nullptr;
	__sanitizer_start_switch_fiber(&fs_, t->stack, t->stacksz);
	swapcontext(&sched, &t->ctx);
	__sanitizer_finish_switch_fiber(fs_, nullptr, nullptr);
	while (g_restore) {
		ForkFrame *f = g_restore;
		g_restore = nullptr;
		Proc *p = t->p;
		// bring the parent's memory back
		__asan_unpoison_memory_region(t->stack, t->stacksz);
		rawcopy(f->sp, f->stack.data(), f->stack.size());
		shadow_set(f->sp, f->shadow);
		rawcopy(p->inst->d0, f->data.data(), f->data.size());
		rawcopy(p->inst->b0, f->bss.data(), f->bss.size());
		Heap &h = p->heap;
		__asan_unpoison_memory_region(h.base, h.used);
		h.used = f->heap_used; h.chunks = f->chunks; h.freed = f->freed; h.live = f->live; h.nlive = f->nlive; h.freed_bytes = f->freed_bytes;
		__asan_poison_memory_region(h.base, h.used);
		for (auto &b : f->blocks) {
			__asan_unpoison_memory_region(b.p, b.bytes.size());
			rawcopy(b.p, b.bytes.data(), b.bytes.size());
		}
		p->atexits = f->atexits;
		__sanitizer_start_switch_fiber(&fs_, t->stack, t->stacksz);
		swapcontext(&sched, &f->ctx);
		__sanitizer_finish_switch_fiber(fs_, nullptr, nullptr);
	}
	cur = prev;
}

void Sim::yield_()
{
	Task *t = cur;
	void *fake = nullptr;
	__sanitizer_start_switch_fiber(&fake, sched_bottom, sched_size);
	swapcontext(&t->ctx, &sched);
	__sanitizer_finish_switch_fiber(fake, &sched_bottom, &sched_size);
}

void sim_fork_resumed()
{
	__sanitizer_finish_switch_fiber(nullptr, &sched_bottom, &sched_size);
}

// fork support -----------------------------------------------------
int sim_fork_capture(ForkFrame *f)
{
	Task *t = S->cur;
	Proc *p = t->p;
	char *sp = (char *)f->ctx.uc_mcontext.gregs[15 /* REG_RSP */] - 256;
	sp = (char *)((uintptr_t)sp & ~(uintptr_t)15);
	f->sp = sp;
	size_t n = t->stack + t->stacksz - sp;
	f->stack = rawstr(sp, n);
	f->shadow = shadow_get(sp, n);
	f->data = rawstr(p->inst->d0, p->inst->d1 - p->inst->d0);
	f->bss = rawstr(p->inst->b0, p->inst->b1 - p->inst->b0);
	Heap &h = p->heap;
	f->heap_used = h.used; f->chunks = h.chunks; f->freed = h.freed; f->live = h.live; f->nlive = h.nlive; f->freed_bytes = h.freed_bytes;
	for (auto &c : h.chunks)
		if (!c.second.freed)
			f->blocks.push_back({c.first, rawstr(c.first, c.second.size)});
	f->atexits = p->atexits;
	f->fds = p->fds;
	for (auto &x : p->fds)
		x.second.o->refs++;
	return 0;
}

[[noreturn]] static void child_done(Proc *p, bool zombie)
{
	ForkFrame *f = p->forks.back();
	p->forks.pop_back();
	// close the child's descriptors, restore the parent's table
	std::vector<int> v;
	for (auto &x : p->fds) v.push_back(x.first);
	for (int fd : v) S->closefd(p, fd);
	p->fds = f->fds;
	if (zombie && p->forks.empty()) {
		// (the child may not have run yet when the parent goes on)
		ns lag = S->rng.chance(40) ? 0 : (ns)S->rng.range(20, 2000) * US;
		if (!lag) p->nchildren_zombie++;
		else {
			p->nchildren_pending++;
			S->after(lag, [p] { if (!p->alive) return; p->nchildren_pending--; p->nchildren_zombie++; S->kick(); });
		}
	}
	g_restore = f;
	S->yield_();
	abort();
}
[[noreturn]] void sim_child_exec(Proc *p, const std::string &cmd)
{
	CmdChild c;
	c.pid = p->forks.back()->childpid;
	c.cmd = cmd;
	c.alive = true;
	for (auto &x : p->fds)
		if (!x.second.cloexec) {
			c.fds[x.first] = x.second;
			x.second.o->refs++;
		}
	for (int i = 0; i < 3; i++) {
		auto it = p->fds.find(i);
		c.std_targets += it == p->fds.end() ? "-" : it->second.o->kind == O_NULL ? "n" : "x";
	}
	std::string extra;
	for (auto &x : c.fds)
		if (x.first > 2)
			extra += fmt(" fd%d=%s", x.first, x.second.o->kind == O_REG ? x.second.o->path.c_str() :
				     x.second.o->kind == O_EVDEV ? "evdev" : x.second.o->kind == O_UINPUT ? "uinput" :
				     x.second.o->kind == O_LISTEN ? "listensock" : x.second.o->kind == O_CONN ? "conn" :
				     x.second.o->kind == O_NULL ? "null" : "other");
	S->rec(L_EXEC, c.pid, p->forks.size(), 0, 0, cmd + "|" + c.std_targets + "|" + extra);
	bool direct = p->forks.size() == 1; // direct child of the daemon
	size_t idx = S->kids.size();
	S->kids.push_back(c);
	Proc *pp = p;
	if (S->prm.cmd_ms >= 0)
		S->after((ns)S->prm.cmd_ms * MS, [idx, pp, direct] {
			CmdChild &k = S->kids[idx];
			k.alive = false;
			for (auto &x : k.fds) S->unref(x.second.o, nullptr);
			k.fds.clear();
			if (direct && pp->alive)
				pp->nchildren_zombie++;
			S->kick();
		});
	child_done(p, false);
}

// ---------------------------------------------------------------- scheduler
Sim::Sim()
{
	if (!shadow_off)
		__asan_get_shadow_mapping(&shadow_scale, &shadow_off);
}
Sim::~Sim()
{
	for (auto &t : tasks) {
		__asan_unpoison_memory_region(t->stack, t->stacksz);
		stack_pool.push_back(t->stack);
	}
	for (auto &p : procs) {
		p->heap.reset();
		if (p->heap.base)
			heap_pool.push_back(p->heap);
		for (char *a : p->argvp) ::free(a);
		for (auto f : p->forks) delete f;
	}
}

void Sim::at(ns t, std::function<void()> fn)
{
	if (t < now) t = now;
	q.push_back({t, ++seq, std::move(fn)});
	std::push_heap(q.begin(), q.end(), EvCmp());
}

void Sim::run(ns until)
{
	while (!q.empty() && !stop) {
		if (q.front().t > until)
			break;
		std::pop_heap(q.begin(), q.end(), EvCmp());
		Event e = std::move(q.back());
		q.pop_back();
		if (e.t > now) now = e.t;
		if (++nsteps > maxsteps) {
			runaway = true;
			break;
		}
		e.fn();
	}
	if (now < until && !stop && !runaway)
		now = until;
}

LogRec &Sim::rec(int kind, int a, int b, int c, int d, const std::string &s)
{
	LogRec r;
	r.t = now; r.kind = kind; r.proc = cur && cur->p ? cur->p->idx : -1;
	r.a = a; r.b = b; r.c = c; r.d = d; r.s = s;
	if (kind != L_STDERR && !(kind == L_STDOUT && r.proc >= 0 && procs[r.proc]->role == "daemon")) {
		int64_t h[7] = {now, kind, r.proc, a, b, c, d};
		hash = fnv(hash, h, sizeof h);
		hash = fnv(hash, s.data(), s.size());
	}
	log.push_back(std::move(r));
	if (on_log) on_log(log.back());
	return log.back();
}

void Sim::deliver_signals()
{
	Proc *p = cur->p;
	while (!p->sigpend.empty()) {
		int sig = p->sigpend.front();
		p->sigpend.pop_front();
		if (p->sigign[sig])
			continue;
		rec(L_SIG, sig, p->idx);
		if (p->sigh[sig])
			p->sigh[sig](sig);
		else
			proc_exit(128 + sig, "signal");
	}
}

// every system call passes here
void Sim::tick(int)
{
	Task *t = cur;
	Proc *p = t->p;
	p->nsys++;
	if (++p->spin > maxspin && p->forks.empty()) {
		runaway = stop = true;
		rec(L_NOTE, 0, 0, 0, 0, "spins");
		yield_();
	}
	if (p->sig_at_sys && p->nsys == p->sig_at_sys && p->alive) {
		stat["signal_at_syscall"]++;
		p->sigpend.push_back(p->sig_nr);
	}
	if (p->forks.empty() && p->kill_at_sys && p->nsys == p->kill_at_sys && p->alive) {
		stat["kill9_at_syscall"]++;
		terminate(p, 137, "kill");
		yield_();
	}
	ns cost = rng.range(prm.cost_lo, prm.cost_hi);
	if (prm.slow_pm && rng.permille(prm.slow_pm)) {
		cost += rng.range(100, prm.slow_us) * US;
		stat["preempt"]++;
		p->stalled_total += cost;
	}
	if (!p->forks.empty()) { // a forked child runs to its exec/exit without interleaving
		return;
	}
	if (now + cost >= p->stall_until && (q.empty() || q.front().t > now + cost)) {
		now += cost;
	} else {
		schedule_resume(t, cost);
		yield_();
	}
	if (!p->sigpend.empty())
		deliver_signals();
}

bool Sim::block(std::function<bool()> pred, ns deadline)
{
	Task *t = cur;
	if (pred())
		return true;
	if (!t->p->forks.empty()) {
		record_crash("forked child blocks in a system call");
		proc_exit(1, "crash");
	}
	if (deadline >= 0 && deadline <= now)
		return false;
	t->p->spin = 0;
	t->pred = pred;
	t->waiting = true;
	t->woken = false;
	uint64_t g = ++t->gen;
	if (deadline >= 0) {
		ns slack = rng.range(prm.wake_lo, prm.wake_hi);
		at(deadline + slack, [this, t, g] {
			if (t->gen == g && t->waiting) {
				t->waiting = false;
				t->gen++;
				resume(t);
			}
		});
	}
	while (1) {
		yield_();
		t->waiting = false;
		if (!t->p->sigpend.empty()) {
			deliver_signals();
			t->p->interrupted = true;
			t->pred = nullptr;
			return false;
		}
		break;
	}
	bool r = t->pred ? t->pred() : false;
	t->pred = nullptr;
	return r;
}

void Sim::kick()
{
	for (size_t i = 0; i < tasks.size(); i++) {
		Task *t = tasks[i].get();
		if (!t->waiting || t->dead || t->done || !t->p->alive)
			continue;
		if (!t->p->sigpend.empty() || (t->pred && t->pred())) {
			t->waiting = false;
			schedule_resume(t, rng.range(prm.wake_lo, prm.wake_hi));
		}
	}
}

// ---------------------------------------------------------------- processes
Proc *Sim::start(int inst, const std::string &role, const std::vector<std::string> &argv)
{
	procs.emplace_back(new Proc);
	Proc *p = procs.back().get();
	p->idx = procs.size() - 1;
	p->pid = next_pid++;
	p->inst = &instances[inst];
	p->inst->restore();
	p->role = role;
	p->argv = argv;
	for (auto &a : argv) p->argvp.push_back(strdup(a.c_str()));
	p->argvp.push_back(nullptr);
	memset(p->sigh, 0, sizeof p->sigh);
	memset(p->sigign, 0, sizeof p->sigign);
	p->alive = true;
	p->heap.init();
	p->heap.reset();
	for (int i = 0; i < 3; i++) {
		auto o = std::make_shared<Ofd>();
		o->id = next_ofd++;
		o->kind = i == 0 ? O_STDIN : O_STDOUT;
		o->pos = i;
		if (!i) p->tty_ofd = o;
		newfd(p, o, false, i);
	}
	std::string av;
	for (auto &a : argv) av += a + " ";
	Task *saved = cur;
	cur = nullptr;
	rec(L_START, p->idx, inst, 0, 0, role + ": " + av);
	cur = saved;
	spawn(p, [p] {
		int argc = p->argv.size();
		int r = p->inst->main_(argc, p->argvp.data());
		S->proc_exit(r, "return");
	});
	return p;
}

void Sim::terminate(Proc *p, int code, const std::string &why)
{
	if (!p->alive)
		return;
	p->alive = false;
	p->exited = true;
	p->exit_code = code & 0xff;
	p->exit_reason = why;
	// a dying forked child is cleaned up with the process
	while (!p->forks.empty()) {
		ForkFrame *f = p->forks.back();
		p->forks.pop_back();
		for (auto &x : f->fds) unref(x.second.o, p);
		delete f;
	}
	std::vector<int> v;
	for (auto &x : p->fds) v.push_back(x.first);
	for (int fd : v) closefd(p, fd);
	for (Task *t : p->tasks) { t->dead = true; t->waiting = false; t->gen++; }
	rec(L_EXIT, p->exit_code, p->idx, 0, 0, why);
	if (on_exit) on_exit(p);
	kick();
}

void sim_stdio_exit(Proc *p);
void Sim::proc_exit(int code, const std::string &why)
{
	Proc *p = cur->p;
	if ((why == "exit" || why == "return" ) && !p->in_atexit) {
		p->in_atexit = true;
		while (!p->atexits.empty()) {
			auto f = p->atexits.back();
			p->atexits.pop_back();
			f();
		}
		p->in_atexit = false;
		if (p->forks.empty()) sim_stdio_exit(p);
	}
	if (!p->forks.empty() && why != "crash")
		child_done(p, true);
	terminate(p, code, why);
	yield_();
	abort();
}

void Sim::kill(Proc *p, int sig)
{
	if (!p->alive)
		return;
	if (sig == 9) {
		Task *c = cur;
		terminate(p, 137, "kill");
		cur = c;
		return;
	}
	p->sigpend.push_back(sig);
	kick();
}

Proc *Sim::find(const std::string &role)
{
	for (size_t i = procs.size(); i-- > 0;)
		if (procs[i]->role == role && procs[i]->alive)
			return procs[i].get();
	return nullptr;
}

void record_crash(const std::string &what)
{
	if (!S->crash.set) {
		S->crash.set = true;
		S->crash.what = what;
		S->crash.proc = S->cur ? S->cur->p->idx : -1;
	}
	S->rec(L_NOTE, 0, 0, 0, 0, "crash: " + what);
}

int Sim::fault(const char *call)
{
	for (auto &f : faults) {
		if (f.call != call)
			continue;
		if (cur && !f.role.empty() && cur->p->role != f.role)
			continue;
		f.seen++;
		if (f.seen >= f.nth && f.fired < f.count) {
			f.fired++;
			stat[std::string("fault_") + call]++;
			return f.err;
		}
	}
	return 0;
}

// ---------------------------------------------------------------- descriptors
int Sim::newfd(Proc *p, std::shared_ptr<Ofd> o, bool cloexec, int min)
{
	int fd = min;
	while (p->fds.count(fd)) fd++;
	if (fd >= prm.nofile) {
		errno = EMFILE;
		return -1;
	}
	o->refs++;
	p->fds[fd] = {o, cloexec};
	return fd;
}

Ofd *Sim::get(int fd)
{
	auto it = cur->p->fds.find(fd);
	if (it == cur->p->fds.end())
		return nullptr;
	return it->second.o.get();
}

void Sim::closefd(Proc *p, int fd)
{
	auto it = p->fds.find(fd);
	auto o = it->second.o;
	p->fds.erase(it);
	unref(o, p);
}

void Sim::unref(std::shared_ptr<Ofd> o, Proc *)
{
	if (--o->refs > 0)
		return;
	release(o.get());
}

void Sim::release(Ofd *o)
{
	switch (o->kind) {
	case O_EVDEV: {
		Device *d = o->dev;
		if (d->grab == o->cl.get()) {
			d->grab = nullptr;
			rec(L_GRAB, d->id, 0, 0, 1);
		}
		if (o->cl->dead)
			d->stale.erase(std::remove(d->stale.begin(), d->stale.end(), o->cl), d->stale.end());
		else {
			d->clients.erase(std::remove(d->clients.begin(), d->clients.end(), o->cl), d->clients.end());
			d->opens--;
		}
		rec(L_DEVCLOSE, d->id);
		break;
	}
	case O_UINPUT:
		if (o->created) {
			rec(L_VDESTROY, o->dev->id, o->dev->vkind);
			unplug(o->dev);
		}
		break;
	case O_REG:
		if (o->locked) {
			o->node->lock_owner_ofd = 0;
			o->locked = false;
		}
		break;
	case O_CONN:
		if (o->ep)
			ep_close(o->ep);
		break;
	case O_LISTEN:
		o->listening = false;
		for (auto e : o->backlog) {
			// connections never accepted are reset
			if (e->peer && !e->peer->closed) {
				e->peer->sk_err = ECONNRESET;
			}
			ep_close(e);
		}
		o->backlog.clear();
		break;
	default:
		break;
	}
	kick();
}

// ---------------------------------------------------------------- input core
static bool supported(Device *d, int type, int code)
{
	switch (type) {
	case EV_KEY: return d->keys.count(code);
	case EV_REL: return d->rel.count(code);
	case EV_ABS: return d->abs.count(code);
	case EV_LED: return d->leds.count(code);
	case EV_MSC: return !d->is_virtual;
	case EV_SYN: return true;
	}
	return false;
}

static void cl_push(Device *d, EvClient *c, const InputEv &e)
{
	const unsigned N = 64;
	if (!c->ready()) c->pushed = S->now;
	c->buf[c->head++] = e;
	c->head &= N - 1;
	if (c->head == c->tail) {
		// overrun: keep only the newest event, preceded by SYN_DROPPED
		c->tail = (c->head - 2) & (N - 1);
		c->buf[c->tail] = {EV_SYN, SYN_DROPPED, 0};
		c->packet_head = c->tail;
		S->rec(L_DROP, d->id);
		S->stat["syn_dropped"]++;
	}
	if (e.type == EV_SYN && e.code == SYN_REPORT)
		c->packet_head = c->head;
}

void Sim::pass(Device *d)
{
	if (d->vals.empty())
		return;
	std::vector<InputEv> v;
	v.swap(d->vals);
	for (auto &c : d->clients) {
		if (d->grab && d->grab != c.get())
			continue;
		for (auto &e : v) cl_push(d, c.get(), e);
	}
	if (d->is_virtual) // what the desktop gets to see: complete packets only
		for (auto &e : v)
			if (e.type == EV_KEY || e.type == EV_REL || e.type == EV_ABS)
			{
				LogRec &l = rec(L_OUT, d->vkind, e.type, e.code, e.value);
				if (e.type != EV_KEY || e.value != 2) l.proc = d->owner; // (not: autorepeat by the kernel)
			}
	if (!d->is_virtual && !d->grab)
		for (auto &e : v)
			if (e.type == EV_KEY || e.type == EV_REL || e.type == EV_ABS)
				rec(L_RAW, d->id, e.type, e.code, e.value);
	kick();
}

static void arm_repeat(Device *d, int code, ns delay)
{
	uint64_t g = d->repgen;
	S->after(delay, [d, g, code] {
		if (d->repgen != g || !d->present || !d->down.count(code))
			return;
		S->stat["key_repeat"]++;
		d->vals.push_back({EV_KEY, (uint16_t)code, 2});
		d->vals.push_back({EV_SYN, 0, 1});
		S->pass(d);
		arm_repeat(d, code, 33 * MS);
	});
}

void Sim::input(Device *d, int type, int code, int value)
{
	if (!d->present)
		return;
	int vk = d->vkind;
	if (type == EV_SYN) {
		if (code != SYN_REPORT) { // only a report flushes the packet
			if (code == SYN_CONFIG || code == SYN_MT_REPORT) d->vals.push_back({EV_SYN, (uint16_t)code, value});
			return;
		}
		if (d->vals.empty())
			return;
		d->vals.push_back({EV_SYN, (uint16_t)code, value});
		pass(d);
		return;
	}
	bool ok = supported(d, type, code);
	if (ok)
		switch (type) {
		case EV_KEY:
			if (value == 2)
				break;
			if ((d->down.count(code) != 0) == (value != 0)) {
				ok = false;
				break;
			}
			if (value) {
				d->down.insert(code);
				d->repgen++;
				if (d->rep)
					arm_repeat(d, code, 250 * MS);
			} else {
				d->down.erase(code);
				d->repgen++;
			}
			break;
		case EV_REL:
			ok = value != 0;
			break;
		case EV_ABS: {
			// the input core starts every axis at 0 and filters repeated values
			int &cur = d->absst[code];
			if (cur == value)
				ok = false;
			else
				cur = value;
			break;
		}
		case EV_LED: {
			int cur_ = d->ledst.count(code) ? d->ledst[code] : 0;
			if ((cur_ != 0) == (value != 0))
				ok = false;
			else
				d->ledst[code] = value != 0;
			break;
		}
		}
	if (vk >= 0 && type != EV_LED) {
		if (!ok)
			rec(L_OUTDUP, vk, type, code, value);
	} else if (type != EV_MSC && ok)
		rec(L_INJECT, d->id, type, code, value);
	if (!ok)
		return;
	d->vals.push_back({(uint16_t)type, (uint16_t)code, value});
	if (d->vals.size() >= 62) {
		d->vals.push_back({EV_SYN, 0, 1});
		pass(d);
	}
}

void Sim::led_from_desktop(Device *d, int code, int value)
{
	input(d, EV_LED, code, value);
	input(d, EV_SYN, 0, 0);
}

Device *Sim::bynode(int n)
{
	for (Device *d : order)
		if (d->node == n && d->present)
			return d;
	return nullptr;
}

Device *Sim::vdev(int kind)
{
	for (size_t i = order.size(); i-- > 0;)
		if (order[i]->vkind == kind && order[i]->present)
			return order[i];
	return nullptr;
}

void Sim::inotify_event(const std::string &name)
{
	for (auto &w : inotifies)
		if (auto o = w.lock())
			if (o->refs > 0 && o->watch)
				o->inq.push_back(name);
}

void Sim::plug(Device *d)
{
	if (d->present)
		return;
	// lowest minor not in use (a removed device keeps its minor while open)
	int n = 0;
	for (;; n++) {
		bool used = false;
		for (Device *x : order)
			if (x != d && x->node == n && x->present)
				used = true;
		for (auto &x : devs)
			for (auto &c : x.second->stale)
				if (c->node == n)
					used = true;
		if (!used)
			break;
	}
	if (d->node < 0 || d->ever)
		d->node = n;
	d->present = true;
	d->ever = true;
	d->down.clear();
	d->ledst.clear();
	d->absst.clear();
	d->vals.clear();
	order.erase(std::remove(order.begin(), order.end(), d), order.end());
	order.push_back(d);
	// the other handlers of the device have nodes of their own
	bool before = (d->node ^ (int)prm.jseed) & 1;
	std::string other = d->keys.count(0x120) ? "js" : d->rel.empty() && d->abs.empty() ? "" : "mouse";
	if (!other.empty() && before) inotify_event(fmt("%s%d", other.c_str(), d->node));
	inotify_event(fmt("event%d", d->node));
	if (!other.empty() && !before) inotify_event(fmt("%s%d", other.c_str(), d->node));
	kick();
}

void Sim::unplug(Device *d)
{
	if (!d->present)
		return;
	// the input core releases pressed keys before the handlers are disconnected
	std::vector<int> k(d->down.begin(), d->down.end());
	for (int c : k) {
		d->down.erase(c);
		if (d->vkind < 0)
			rec(L_INJECT, d->id, EV_KEY, c, 0);
		d->vals.push_back({EV_KEY, (uint16_t)c, 0});
	}
	if (!k.empty()) {
		d->vals.push_back({EV_SYN, 0, 1});
		pass(d);
	}
	d->present = false;
	for (auto &c : d->clients) {
		c->dead = true;
		d->stale.push_back(c);
	}
	d->clients.clear();
	d->grab = nullptr;
	d->opens = 0;
	d->repgen++;
	kick();
}

// ---------------------------------------------------------------- unix sockets
Endpoint *Sim::client_connect(int &err)
{
	auto it = fs.find("/var/run/keyd.socket");
	if (it == fs.end() || !it->second->is_socket) {
		err = ENOENT;
		return nullptr;
	}
	auto bit = bound.find("/var/run/keyd.socket");
	if (bit == bound.end() || !bit->second->listening) {
		err = ECONNREFUSED;
		return nullptr;
	}
	Ofd *l = bit->second.get();
	if ((int)l->backlog.size() > l->backlog_max) {
		err = EAGAIN;
		return nullptr;
	}
	eps.emplace_back(new Endpoint);
	Endpoint *c = eps.back().get();
	eps.emplace_back(new Endpoint);
	Endpoint *s = eps.back().get();
	c->peer = s;
	s->peer = c;
	c->conn = s->conn = next_conn++;
	s->server = true;
	s->sndbuf = prm.sndbuf;
	l->backlog.push_back(s);
	kick();
	err = 0;
	return c;
}

size_t Sim::ep_write(Endpoint *e, const char *b, size_t n, int &err)
{
	err = 0;
	if (e->sk_err) {
		err = e->sk_err;
		e->sk_err = 0;
		return 0;
	}
	if (e->closed || e->shut_wr || !e->peer || e->peer->closed) {
		err = EPIPE;
		return 0;
	}
	size_t done = 0;
	while (done < n) {
		size_t maxskb = e->sndbuf / 2 > 64 ? e->sndbuf / 2 - 64 : 64;
		size_t k = std::min(n - done, maxskb);
		size_t cost = ((k + 255) & ~(size_t)255) + 768;
		if (e->wmem && e->wmem + cost > e->sndbuf)
			break;
		Endpoint::Skb s;
		s.data.assign(b + done, k);
		s.cost = cost;
		e->wmem += cost;
		e->peer->rx.push_back(std::move(s));
		done += k;
	}
	if (done) {
		if (e->peer->on_readable) {
			Endpoint *p = e->peer;
			after(rng.range(prm.wake_lo, prm.wake_hi), [p] { if (!p->closed && p->on_readable) p->on_readable(); });
		}
		kick();
	} else if (n)
		err = EAGAIN;
	return done;
}

size_t Sim::ep_read(Endpoint *e, char *b, size_t n)
{
	size_t done = 0;
	while (done < n && !e->rx.empty()) {
		auto &s = e->rx.front();
		size_t k = std::min(n - done, s.data.size() - s.off);
		if (b) memcpy(b + done, s.data.data() + s.off, k);
		s.off += k;
		done += k;
		if (s.off == s.data.size()) {
			if (e->peer) e->peer->wmem -= std::min(e->peer->wmem, s.cost);
			e->rx.pop_front();
		}
	}
	if (done)
		kick();
	return done;
}

void Sim::ep_close(Endpoint *e)
{
	if (e->closed)
		return;
	e->closed = true;
	if (e->server)
		rec(L_SCLOSE, e->conn);
	Endpoint *p = e->peer;
	if (p && !p->closed) {
		if (!e->rx.empty())
			p->sk_err = ECONNRESET;
		if (p->on_close) {
			after(rng.range(prm.wake_lo, prm.wake_hi), [p] { if (p->on_close) p->on_close(); });
		}
	}
	e->rx.clear();
	kick();
}
