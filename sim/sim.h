// Deterministic simulation of the world keyd lives in.
#pragma once
#include <cstdint>
#include <cstdio>
#include <cstring>
#include <deque>
#include <functional>
#include <map>
#include <memory>
#include <queue>
#include <set>
#include <string>
#include <vector>
#include <ucontext.h>
#include <poll.h>

typedef int64_t ns;
constexpr ns US = 1000, MS = 1000000, SEC = 1000000000LL;

struct Rng {
	uint64_t s;
	explicit Rng(uint64_t seed = 1) : s(seed * 0x9E3779B97F4A7C15ull + 0x1234567) { next(); next(); }
	uint64_t next()
	{
		uint64_t z = (s += 0x9E3779B97F4A7C15ull);
		z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9ull;
		z = (z ^ (z >> 27)) * 0x94D049BB133111EBull;
		return z ^ (z >> 31);
	}
	int64_t range(int64_t lo, int64_t hi) { return hi <= lo ? lo : lo + (int64_t)(next() % (uint64_t)(hi - lo + 1)); }
	bool chance(int pct) { return (int)(next() % 100) < pct; }
	bool permille(int p) { return (int)(next() % 1000) < p; }
	template <class T> const T &pick(const std::vector<T> &v) { return v[next() % v.size()]; }
};

// ---------------------------------------------------------------- log
enum LogKind : uint8_t {
	L_POLLIN,   // a=timeout arg
	L_POLLOUT,  // a=ret
	L_CLOCK,    // value in ms in a (monotonic)
	L_READ,     // a=dev b=type c=code d=value        event read by process
	L_READERR,  // a=dev b=errno
	L_OUT,      // a=vdev(0 kbd,1 ptr) b=type c=code d=value  event accepted by the kernel from uinput
	L_OUTDUP,   // same, dropped by kernel (duplicate or unsupported)
	L_RAW,      // a=dev ... event of a physical device that reached the desktop directly
	L_GRAB,     // a=dev b=on c=ret
	L_DEVOPEN,  // a=dev b=fd c=errno
	L_DEVCLOSE, // a=dev
	L_LEDW,     // a=dev b=code c=value d=errno
	L_ACCEPT,   // a=conn
	L_SREAD,    // a=conn s=data   (server side read)
	L_SWRITE,   // a=conn s=data   (server side write, accepted bytes)
	L_SWERR,    // a=conn b=errno
	L_SCLOSE,   // a=conn
	L_EXEC,     // s=command a=pid
	L_FORK,     // a=ret
	L_SIG,      // a=signal b=process: it is delivered
	L_EXIT,     // a=code b=process s=reason
	L_SLEEP,    // a=us
	L_START,    // s=argv
	L_VCREATE,  // a=vdev kind
	L_VDESTROY,
	L_NOTE,     // s=text
	L_ACT,      // plan action performed: a=index
	L_STDOUT,   // s=text
	L_STDERR,
	L_INJECT,   // a=dev b=type c=code d=value  event generated by hardware and accepted by the kernel
	L_DROP,     // a=dev  client buffer overflow
	L_HID,      // s=report
	L_VKEY,     // a=keyd code b=state: key event handed to the usb-gadget backend
	L_FSREAD,   // s=path  file opened for read, a=errno
	L_WAIT,     // reaped
	L_OPENDIR,  // s=path a=errno
	L_CLISEND,  // a=client s=data  scripted client data queued
	L_CLICLOSE, // a=client
	L_KEYQ,     // a=dev s=keys down (key state queried)
};
extern const char *log_names[];

struct LogRec {
	ns t;
	uint8_t kind;
	int8_t proc;
	int a = 0, b = 0, c = 0, d = 0;
	std::string s;
};

// ---------------------------------------------------------------- kernel objects
struct Proc;
struct Task;

struct InputEv { uint16_t type, code; int32_t value; };

struct Device;
struct EvClient;

enum OfdKind { O_NULL, O_EVDEV, O_UINPUT, O_INOTIFY, O_LISTEN, O_CONN, O_REG, O_STDIN, O_STDOUT, O_HIDG, O_UNBOUND };

struct Endpoint {
	// one direction pair; 'rx' is what can be read from this endpoint
	struct Skb { std::string data; size_t off = 0; size_t cost; };
	std::deque<Skb> rx;
	Endpoint *peer = nullptr;
	bool closed = false;     // this end closed
	bool shut_wr = false;
	int sk_err = 0;          // pending error (ECONNRESET)
	size_t wmem = 0;         // bytes we queued at the peer not yet consumed
	size_t sndbuf = 212992;
	int conn = -1;
	ns sndtimeo = -1, rcvtimeo = -1;
	bool server = false;     // daemon side
	bool broken = false;     // an injected write error ended the connection
	std::function<void()> on_readable; // for scripted clients
	std::function<void()> on_close;
	size_t rxbytes() const { size_t n = 0; for (auto &k : rx) n += k.data.size() - k.off; return n; }
};

struct Node {                // file system node
	std::string data;
	bool isdir = false;
	int open_errno = 0;
	long eio_at = -1;
	int lock_owner_ofd = 0;  // flock
	bool is_socket = false;
	uint8_t dtype = 8;
	int listen_id = -1;
	int mode = 0644;
};

struct Ofd {
	int id;
	OfdKind kind = O_NULL;
	int refs = 0;
	int flags = 0;
	Device *dev = nullptr;   // evdev / uinput
	std::shared_ptr<EvClient> cl;
	// uinput setup
	std::set<int> keybits, relbits, absbits, ledbits, evbits;
	std::string uname; int uvendor = 0, uproduct = 0;
	bool created = false;
	// inotify
	std::deque<std::string> inq; bool watch = false;
	// sockets
	std::deque<Endpoint *> backlog; bool listening = false; std::string bound; int backlog_max = 0;
	Endpoint *ep = nullptr;
	ns so_snd = -1, so_rcv = -1;
	// regular
	std::shared_ptr<Node> node; size_t pos = 0; std::string path;
	bool locked = false;
	// hidg
};

struct Fd { std::shared_ptr<Ofd> o; bool cloexec = false; };

struct Device {
	int id = 0;              // plan id; virtual: 1000 kbd, 1001 ptr (+2 per later incarnation)
	int node = -1;
	std::string name;
	int vendor = 0, product = 0;
	std::set<int> keys, rel, abs, leds;
	bool rep = false;
	int absmin[2] = {0, 0}, absmax[2] = {1024, 1024};
	bool present = false;    // node exists and device alive
	bool ever = false;
	bool is_virtual = false;
	int vkind = -1;
	int owner = -1;          // process which created the virtual device
	std::set<int> down;      // kernel key state
	std::map<int, int> ledst;
	std::map<int, int> absst;
	std::vector<InputEv> vals; // current packet
	std::vector<std::shared_ptr<EvClient>> clients;
	std::vector<std::shared_ptr<EvClient>> stale; // descriptors of an earlier incarnation
	EvClient *grab = nullptr;
	int opens = 0;
	uint64_t repgen = 0; int repkey = -1;
	// faults
	int f_open = 0, f_bits = 0, f_name = 0, f_id = 0, f_abs = 0; // errno or 0
	int f_grab = 0, f_grab_n = 0; // errno, number of failing attempts (-1 forever)
	int f_led = 0;           // errno
	int f_keyq = 0;
	ns slow_open = 0;
};

struct EvClient {
	Device *dev;
	InputEv buf[64];
	unsigned head = 0, tail = 0, packet_head = 0;
	int proc = -1;
	ns pushed = 0;
	bool dead = false;       // the device was removed (it may have come back since)
	int node = -1;
	bool ready() const { return packet_head != tail; }
};

struct DirEnt { std::string name; uint8_t type; };

struct Chunk { size_t size; bool freed; uint64_t site; };

struct Heap {
	char *base = nullptr;
	size_t cap = 0, used = 0, live = 0, nlive = 0, peak = 0;
	std::map<char *, Chunk> chunks;
	std::deque<char *> freed;
	size_t freed_bytes = 0;
	void init();
	void reset();
	void *alloc(size_t n, bool zero);
	void free_(void *p);
};

struct Instance {            // one linked copy of keyd
	int (*main_)(int, char **);
	char *d0, *d1, *b0, *b1;
	std::string pristine;
	void restore();
};

struct ForkFrame {
	ucontext_t ctx;
	std::string stack; char *sp; std::string shadow;
	std::string data, bss;
	struct Blk { char *p; std::string bytes; };
	std::vector<Blk> blocks;
	size_t heap_used; std::map<char *, Chunk> chunks; std::deque<char *> freed; size_t live, nlive, freed_bytes;
	std::map<int, Fd> fds;
	int pid;                 // parent's pid
	int childpid;
	std::vector<void (*)()> atexits;
	std::string outbuf;
};

struct Proc {
	int idx = -1;
	int pid = 0;
	Instance *inst = nullptr;
	std::string role;        // daemon, daemon2, cli, monitor
	std::vector<std::string> argv;
	std::vector<char *> argvp;
	std::map<int, Fd> fds;
	std::vector<Task *> tasks;
	bool alive = false, exited = false;
	int exit_code = 0;
	std::string exit_reason; // exit, kill, assert, ...
	std::vector<void (*)()> atexits;
	void (*sigh[65])(int);
	bool sigign[65];
	std::deque<int> sigpend;
	Heap heap;
	std::deque<ForkFrame *> forks;
	int nchildren_zombie = 0, nchildren_pending = 0;
	std::string outbuf;
	int outmode = 0;                 // _IOFBF
	std::string out, errout; // captured output (bounded for daemons)
	size_t outcap = 1 << 16;
	bool stdout_closed = false; // reader of our stdout is gone
	bool stdout_pipe = true;
	std::string stdin_data; size_t stdin_pos = 0; int stdin_err = 0; std::vector<size_t> stdin_frag;
	ns stall_until = 0;
	ns blocked_since = -1;   // in poll
	ns stalled_total = 0;
	uint64_t nsys = 0;
	uint64_t spin = 0; // system calls since it last waited for anything
	uint64_t kill_at_sys = 0, sig_at_sys = 0; int sig_nr = 0;
	// its terminal, if it has one
	bool tty = false; unsigned tty_lflag = 0, tty_echo = 0; std::shared_ptr<Ofd> tty_ofd; std::string tty_in;
	bool in_atexit = false;
	char *strtok_save = nullptr;
	std::vector<FILE *> files;
	ns last_clock = -1;
	bool interrupted = false;
	int uspin = 0;
	int heldq = 0; // key state queries in a row which found keys held
};

struct Task {
	ucontext_t ctx;
	char *stack = nullptr; size_t stacksz = 0;
	Proc *p = nullptr;
	std::function<void()> fn;
	void *ret = nullptr;
	bool started = false, done = false, dead = false;
	std::function<bool()> pred;
	bool waiting = false, woken = false;
	uint64_t gen = 0;
	void *fake = nullptr;
	bool sigwake = false;
};

// ---------------------------------------------------------------- faults on system calls
struct SysFault { std::string call; int nth; int count; int err; int seen = 0; int fired = 0; std::string role; };

struct CmdChild { int pid; std::string cmd; std::map<int, Fd> fds; bool alive; std::string std_targets; };

struct Params {
	uint64_t jseed = 1;
	ns uptime = 100000 * MS;
	int cost_lo = 1000, cost_hi = 4000; // ns per syscall
	int wake_lo = 5000, wake_hi = 60000; // wake latency ns
	int debug = 0;                       // KEYD_DEBUG of the daemon
	int slow_pm = 0;                     // permille of syscalls hit by preemption
	int slow_us = 1500;
	int sndbuf = 212992;
	int kstall_pm = 0;
	int cmd_ms = 50;                     // life time of shell children
	int nofile = 1024;
	bool sudden_virtual_echo = false;
};

struct Event { ns t; uint64_t seq; std::function<void()> fn; };
struct EvCmp { bool operator()(const Event &a, const Event &b) const { return a.t > b.t || (a.t == b.t && a.seq > b.seq); } };

struct CrashInfo { bool set = false; std::string what; int proc = -1; };

struct Sim {
	Params prm;
	ns now = 0;               // since run start; monotonic = uptime + now
	ns real_skew = 0;
	uint64_t seq = 0;
	std::vector<Event> q;     // heap
	Rng rng{1};
	std::vector<LogRec> log;
	uint64_t hash = 1469598103934665603ull;
	bool hashlog = true;
	std::map<std::string, std::shared_ptr<Node>> fs;
	std::map<int, std::unique_ptr<Device>> devs;
	std::vector<Device *> order;     // registration order (readdir)
	std::vector<std::unique_ptr<Proc>> procs;
	std::vector<std::unique_ptr<Task>> tasks;
	std::vector<std::unique_ptr<Endpoint>> eps;
	std::vector<std::weak_ptr<Ofd>> inotifies;
	std::vector<CmdChild> kids;
	std::vector<SysFault> faults;
	std::map<std::string, long> stat;   // fault/probe counters of this run
	std::map<std::string, std::shared_ptr<Ofd>> bound; // path -> listening socket
	std::vector<std::string> viol;   // kernel level violations (harness noted)
	int next_pid = 1000, next_ofd = 1, next_conn = 1, nvirt = 0;
	Task *cur = nullptr;
	ucontext_t sched;
	CrashInfo crash;
	uint64_t nsteps = 0, maxsteps = 3000000, maxspin = 1500000;
	bool stop = false, runaway = false;
	std::function<void(Proc *)> on_exit;
	std::function<void(const LogRec &)> on_log;
	std::vector<std::string> hidreports;
	int hid_state = 0; ns hid_busy_until = 0; int hid_poll_us = 0; int hid_depth = 0; int hid_max = 4;
	int short_rd = 0, short_wr = 0;        // percentage of short socket reads / stdout writes

	Sim();
	~Sim();
	void at(ns t, std::function<void()> fn);
	void after(ns d, std::function<void()> fn) { at(now + d, fn); }
	void run(ns until);
	LogRec &rec(int kind, int a = 0, int b = 0, int c = 0, int d = 0, const std::string &s = "");
	ns mono() const { return prm.uptime + now; }
	// tasks
	Task *spawn(Proc *p, std::function<void()> fn);
	void resume(Task *t);
	void yield_();                     // switch to scheduler
	void tick(int kind = 0);           // cost of a system call
	bool block(std::function<bool()> pred, ns deadline); // true when pred holds
	void kick();
	void schedule_resume(Task *t, ns d);
	void deliver_signals();
	// processes
	Proc *start(int inst, const std::string &role, const std::vector<std::string> &argv);
	void terminate(Proc *p, int code, const std::string &why); // kernel side cleanup
	[[noreturn]] void proc_exit(int code, const std::string &why);
	void kill(Proc *p, int sig);
	Proc *find(const std::string &role);
	// fds
	int newfd(Proc *p, std::shared_ptr<Ofd> o, bool cloexec, int min = 0);
	Ofd *get(int fd);
	void closefd(Proc *p, int fd);
	void unref(std::shared_ptr<Ofd> o, Proc *p);
	void release(Ofd *o);
	// devices
	void plug(Device *d);
	void unplug(Device *d);
	void input(Device *d, int type, int code, int value); // hardware event
	void pass(Device *d);
	void led_from_desktop(Device *d, int code, int value);
	Device *vdev(int kind);            // current virtual device
	Device *bynode(int n);
	void inotify_event(const std::string &name);
	// sockets
	Endpoint *client_connect(int &err);
	size_t ep_write(Endpoint *e, const char *b, size_t n, int &err); // returns bytes queued
	size_t ep_read(Endpoint *e, char *b, size_t n);
	void ep_close(Endpoint *e);
	int fault(const char *call);       // errno to inject or 0
	void violation(const std::string &s) { viol.push_back(s); }
	int live_fds(Proc *p) { return (int)p->fds.size(); }
};
extern Sim *S;
extern std::vector<Instance> instances;
extern std::map<std::string, long> g_stat;

void init_instances();
void reset_stacks();
std::string fmt(const char *f, ...) __attribute__((format(printf, 1, 2)));
uint64_t fnv(uint64_t h, const void *p, size_t n);
bool region_poisoned(const void *p, size_t n);
void record_crash(const std::string &what);
