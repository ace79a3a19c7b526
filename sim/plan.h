// A plan is a complete description of one simulated run. It is also the replay file format.
#pragma once
#include "sim.h"

struct Op {
	int64_t us = 0;
	std::string op;
	std::vector<std::string> a;
	int i(size_t k, int def = 0) const { return k < a.size() ? atoi(a[k].c_str()) : def; }
	const std::string &s(size_t k) const { static const std::string e; return k < a.size() ? a[k] : e; }
};

struct DevSpec {
	int id = 0;
	std::string caps = "kbd"; // kbd mouse touchpad combo media power js mkbd
	int vendor = 0x1234, product = 0x5678;
	std::string name = "Dev";
	std::map<std::string, int> f;
	bool present = true;
};

struct Plan {
	std::string prop;
	std::string label;                        // generator scenario
	uint64_t seed = 0;
	std::map<std::string, long> par;
	std::vector<std::pair<std::string, std::string>> files;
	std::map<std::string, std::map<std::string, long>> ffault; // path -> field -> value
	std::vector<DevSpec> devs;
	std::vector<Op> ops;
	int64_t end = 1000000;
	long p(const std::string &k, long def = 0) const { auto it = par.find(k); return it == par.end() ? def : it->second; }
	void add(int64_t us, const std::string &op, const std::vector<std::string> &a = {}) { Op o; o.us = us; o.op = op; o.a = a; ops.push_back(o); }
	void file(const std::string &path, const std::string &txt);
	void sort();
	std::string str() const;
	static bool parse(const std::string &txt, Plan &p, std::string &err);
};

std::string pct(const std::string &s);
std::string unpct(const std::string &s);
std::vector<std::string> split(const std::string &s, char c);
template <class... T> std::vector<std::string> A(T... t);
inline std::string tos(const std::string &s) { return s; }
inline std::string tos(const char *s) { return s; }
inline std::string tos(long v) { return std::to_string(v); }
inline std::string tos(int v) { return std::to_string(v); }
inline std::string tos(unsigned v) { return std::to_string(v); }
inline std::string tos(size_t v) { return std::to_string(v); }
template <class... T> std::vector<std::string> A(T... t) { return std::vector<std::string>{tos(t)...}; }

// the protocol message of keyd
struct IpcMsg { int type; uint32_t timeout; char data[4096]; size_t sz; };
enum { IPC_SUCCESS, IPC_FAIL, IPC_BIND, IPC_INPUT, IPC_MACRO, IPC_RELOAD, IPC_LISTEN };

struct Client {                 // scripted client
	int id;
	Endpoint *ep = nullptr;
	int conn = -1;
	bool reading = true, refused = false, eof = false, closed = false, reset = false;
	int err = 0;
	std::string rx;
	std::vector<std::pair<ns, std::string>> chunks;
	std::string pend;           // bytes that did not fit the socket buffer yet
	bool shut = false;
	ns eof_at = -1, conn_at = -1;
};

struct Result {
	uint64_t hash = 0;
	std::vector<LogRec> log;
	std::map<int, Client> clients;
	bool crashed = false, runaway = false;
	std::string crash;
	int crash_proc = -1;
	std::map<std::string, long> stat;
	uint64_t steps = 0;
	ns end = 0;
	struct PR { std::string role; bool alive; int code; std::string reason, out, errout; int zombies; size_t live, nlive, peak; std::vector<std::string> fds; ns stalled; int inst; };
	std::vector<PR> procs;
	struct { bool used = false; unsigned lflag = 0; int flags = 0; size_t left = 0; unsigned echo = 0; } tty; // the monitor's terminal at the end
	struct KS { std::string cmd; bool alive; };
	std::vector<KS> kids;
	std::map<int, std::string> devid;      // dev -> vvvv:pppp:uid (independently computed)
	std::map<int, int> devcap;             // 1 kbd 2 mouse 4 abs
	std::vector<std::string> kviol;
	std::map<int, std::set<int>> vdown;    // keys down on the virtual devices at the end (by kind)
	std::map<int, std::set<int>> pdown;    // physical keys down at the end
	std::map<int, int> grabbed;            // dev -> 1 if grabbed at the end
	std::map<int, bool> present;
	std::vector<std::string> hid;
	struct Probe { ns t; std::vector<std::string> fds; size_t live, nlive; int zombies; std::map<int, int> grabbed; std::set<int> present; };
	std::vector<Probe> probes;             // 'probe' ops
	std::map<int, int> unread;             // events waiting in a descriptor of the daemon
	std::set<int> opened;                  // devices the daemon has open
	std::map<std::string, std::set<int>> popened; // the same for other processes
	struct DI { std::string id, name; int caps; bool virt; };
	std::map<int, DI> devinfo;             // every device, the virtual ones included
	bool blocked = false;                  // daemon still blocked outside poll at the end
	ns uptime = 0;
};

void device_from_spec(const DevSpec &sp, Device *d);
std::string device_id(const Device *d);
int device_caps(const Device *d);
Result execute(const Plan &p);
std::string dump_log(const Result &r, size_t from = 0);
