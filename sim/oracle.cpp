// Judges a recorded run: which violations of the plan's property does the history contain?
#include <termios.h>
#include <fcntl.h>
#include <sstream>
#include "oracle.h"
#include <algorithm>

namespace {
using M::Finding;
struct J {
	const Plan &p;
	const Result &r;
	Verdict v;
	std::vector<Finding> all;
	std::set<int> daemons;              // process indices which ran as a daemon
	std::vector<std::pair<ns, ns>> stalls;
	bool sockfault = false, anyfault = false;

	J(const Plan &a, const Result &b) : p(a), r(b) {}
	void bad(const std::string &tag, const std::string &w, ns t) { all.push_back({tag, w, t}); }

	ns stalled(ns a, ns b)
	{
		ns s = 0;
		for (auto &x : stalls) s += std::max<ns>(0, std::min(b, x.second) - std::max(a, x.first));
		return s;
	}
	bool is(const char *q) const { return p.prop == q; }

	static const std::set<int> &modkeys() { static const std::set<int> m = {29, 42, 56, 100, 125}; return m; }
	static std::set<int> keys_of_mods(int m)
	{
		std::set<int> k;
		if (m & M::MOD_ALT) k.insert(56);
		if (m & M::MOD_SUPER) k.insert(125);
		if (m & M::MOD_SHIFT) k.insert(42);
		if (m & M::MOD_CTRL) k.insert(29);
		if (m & M::MOD_ALTGR) k.insert(100);
		return k;
	}
	static std::string list(const std::set<int> &s) { std::string t; for (int x : s) t += fmt(" %d", x); return t; }

	const Result::PR *daemon() const
	{
		const Result::PR *d = nullptr;
		for (auto &x : r.procs) if (x.role == "daemon") d = &x;
		return d;
	}

	// --- any run
	void general()
	{
		if (r.crashed) bad("", "crash: " + r.crash, r.end);
		if (r.runaway) {
			std::string who = "daemon";
			for (auto &l : r.log) if (l.kind == L_NOTE && l.s == "spins" && l.proc >= 0 && l.proc < (int)r.procs.size()) who = r.procs[l.proc].role;
			bad("", "the " + who + " spins without making progress", r.end);
		}
		ns last = 0;
		for (auto &l : r.log) if (l.kind == L_POLLIN || l.kind == L_POLLOUT || l.kind == L_START) last = l.t;
		if (r.blocked && !r.runaway && !r.crashed && r.end - last > 3000 * MS) bad("", "the daemon is blocked outside its main loop at the end of the run", r.end);
		auto d = daemon();
		if (d && d->alive && !r.blocked && !r.crashed && !r.runaway) {
			if (!p.p("gadget")) for (auto &x : r.unread) if (x.second) { bad("", fmt("device %d has unread events although the daemon is idle", x.first), r.end); break; }
			v.n["idle_end"]++;
		}
	}
	// a device keyd is able to use must be open
	void opened()
	{
		auto d = daemon();
		if (!d || !d->alive || r.blocked || r.crashed) return;
		std::set<int> faulty, broken;
		for (auto &s : p.devs) if (!s.f.empty()) faulty.insert(s.id);
		for (auto &o : p.ops) if (o.op == "devfault" || (o.op == "fault" && (o.s(0) == "open" || o.s(0) == "evread"))) { if (o.op == "fault") return; faulty.insert(o.i(0)); }
		for (auto &l : r.log) if (l.kind == L_READERR && l.b != EAGAIN && l.b != ENODEV) return;
		int np = 0;
		for (auto &x : r.present) np += x.second;
		if (np > 50) return;
		for (auto &x : r.present) {
			if (!x.second || faulty.count(x.first)) continue;
			auto c = r.devcap.find(x.first);
			if (c == r.devcap.end() || !c->second) continue;
			v.n["open_checked"]++;
			if (!r.opened.count(x.first)) { bad("", fmt("device %d is present but the daemon does not read it", x.first), r.end); return; }
		}
	}

	// --- C01
	void stuck()
	{
		auto d = daemon();
		if (!d || !d->alive || r.crashed) return;
		for (auto &x : r.pdown) if (!x.second.empty()) return;
		std::set<int> down;
		for (auto &k : r.vdown) for (int c : k.second) down.insert(c);
		std::set<int> ok = modkeys();
		if (v.fl.in_sync && !v.fl.gaveup) { if (v.fl.pending) return; ok = keys_of_mods(v.fl.latched); }
		else if (p.p("nomodel")) { }
		v.n["stuck_checked"]++;
		for (int c : down) if (!ok.count(c)) { bad("C01", "keys remain pressed although every physical key is up:" + list(down), r.end); return; }
	}
	// the same at the quiet points in between
	void stuck_between()
	{
		if (v.fl.quiet.empty() || r.crashed) return;
		std::map<int, std::set<int>> phys, ph0;
		std::set<std::pair<int, int>> down;
		size_t q = 0;
		int dp = -1;
		ns last = 0;
		for (auto &l : r.log) {
			if (l.kind == L_START && l.s.compare(0, 7, "daemon:") == 0) { dp = l.a; down.clear(); }
			if (l.kind == L_RAW && l.b == 1 && l.a < 1000) { if (l.d) phys[l.a].insert(l.c); else phys[l.a].erase(l.c); last = l.t; }
			if (l.kind == L_ACT && p.ops[l.a].op == "unplug") { phys.erase(p.ops[l.a].i(0)); last = l.t; }
			if (l.kind == L_SREAD && l.b) last = l.t;
			if (l.kind == L_OUT && l.b == 1 && l.proc == dp) { if (l.d) down.insert({l.a, l.c}); else down.erase({l.a, l.c}); }
			if (l.kind != L_NOTE || l.s != "marker quiet") continue;
			if (q >= v.fl.quiet.size()) return;
			auto &k = v.fl.quiet[q++];
			if (l.t - last < 2000 * MS || stalled(last, l.t)) continue;
			bool any = false;
			for (auto &x : phys) any |= !x.second.empty();
			if (any || (k.sync && k.pending)) continue;
			std::set<int> ok = k.sync ? keys_of_mods(k.latched) : modkeys(), d;
			bool badkey = false;
			for (auto &x : down) { d.insert(x.second); badkey |= !ok.count(x.second); }
			v.n["stuck_checked"]++;
			if (badkey) { bad("C01", "keys remain pressed although every physical key is up:" + list(d), l.t); return; }
		}
	}
	// after a reload everything is released
	void reload_released()
	{
		std::set<std::pair<int, int>> down;
		bool flag = false, started = false;
		int dp = -1;
		for (auto &l : r.log) {
			if (l.kind == L_START && l.s.compare(0, 7, "daemon:") == 0) { dp = l.a; down.clear(); flag = false; started = false; }
			if (l.proc != dp) continue;
			if (l.kind == L_OUT && l.b == 1) { if (l.d) down.insert({l.a, l.c}); else down.erase({l.a, l.c}); }
			if (l.kind == L_OPENDIR && l.a == 0 && started && l.s.compare(0, 9, "/etc/keyd") == 0) flag = true;
			if ((l.kind == L_READ && l.b == 1) || (l.kind == L_SREAD && l.b)) flag = false;
			if (l.kind == L_POLLIN) {
				started = true;
				if (!flag) continue;
				flag = false;
				v.n["reload_checked"]++;
				if (!down.empty()) {
					std::set<int> k;
					for (auto &x : down) k.insert(x.second);
					bad(is("C17") ? "C17" : "C01", "keys remain pressed after a reload:" + list(k), l.t);
					return;
				}
			}
		}
	}

	// --- C11
	void grabs()
	{
		// configs in force over time
		auto &loads = v.fl.loads;
		std::set<int> faulty, broken;
		for (auto &s : p.devs) for (auto &x : s.f) if (x.first != "slow_open_ms") faulty.insert(s.id);
		for (auto &o : p.ops) if (o.op == "devfault") faulty.insert(o.i(0));
		// a key which is down when the device is grabbed would stay down for everybody else
		std::map<std::pair<int, int>, std::string> down;
		for (auto &l : r.log) {
			if (l.kind == L_KEYQ) down[{l.proc, l.a}] = l.s;
			if (l.kind == L_DEVOPEN) down.erase({l.proc, l.a});
			if (l.kind == L_GRAB && l.a < 1000 && l.b && l.c == 0) {
				auto it = down.find({l.proc, l.a});
				if (it == down.end()) { bad("C11", fmt("device %d is grabbed without making sure that no key is held on it", l.a), l.t); return; }
				if (!it->second.empty()) { bad("C11", fmt("device %d is grabbed while a key is held on it", l.a), l.t); return; }
				v.n["grabs_with_no_key_down"]++;
			}
		}
		for (auto &l : r.log) if (l.kind == L_GRAB && l.a >= 1000 && l.b && l.c == 0) { bad("C11", "keyd grabbed its own virtual device", l.t); return; }
		auto check = [&](ns t, const std::map<int, int> &grabbed, const std::set<int> &present) {
			std::vector<M::CfgP> cfgs;
			std::vector<size_t> idx;
			for (size_t i = 0; i < r.log.size() && r.log[i].t <= t; i++) idx.push_back(i);
			for (auto &x : loads) if (r.log[x.first].t <= t) cfgs = x.second;
			for (int d : present) {
				auto c = r.devcap.find(d);
				auto id = r.devid.find(d);
				if (c == r.devcap.end() || id == r.devid.end()) continue;
				int fl = (c->second & 1 ? 4 : 0) | (c->second & 6 ? 2 : 0);
				int rank = 0;
				for (auto &g : cfgs) rank = std::max(rank, g->match(id->second, fl));
				bool want = c->second && rank > 0 && !(rank == 1 && fl == 2);
				if (id->second.compare(0, 4, "0fac") == 0) want = false;
				auto it = grabbed.find(d);
				bool is = it != grabbed.end() && it->second;
				v.n["grab_checked"]++;
				if (is && !want) { bad("C11", fmt("device %d is grabbed although no config matches it", d), t); return; }
				if (!is && want && !faulty.count(d)) { bad("C11", fmt("device %d is not grabbed although a config matches it", d), t); return; }
			}
		};
		for (auto &b : r.probes) check(b.t, b.grabbed, b.present);
		auto d = daemon();
		if (d && d->alive && !r.blocked) {
			std::set<int> pr;
			for (auto &x : r.present) if (x.second) pr.insert(x.first);
			check(r.end, r.grabbed, pr);
		}
	}

	// --- C12
	void resources()
	{
		auto &b = r.probes;
		std::set<int> stay; // listeners which stay connected
		for (auto &o : p.ops) { if (o.op == "req" && o.i(1) == IPC_LISTEN) stay.insert(o.i(0)); }
		for (auto &o : p.ops) if (o.op == "cclose") stay.erase(o.i(0));
		for (auto &x : b) {
			int nul = 0, ino = 0, lis = 0, ui = 0, file = 0, dead = 0, conn = 0;
			std::map<std::string, int> ev;
			for (auto &f : x.fds) {
				if (f == "null") nul++;
				else if (f == "inotify") ino++;
				else if (f == "listen") lis++;
				else if (f == "uinput") ui++;
				else if (f.compare(0, 5, "file:") == 0) file++;
				else if (f.compare(0, 4, "conn") == 0) { conn++; if (f.find("dead") != std::string::npos) dead++; }
				else if (f.compare(0, 5, "evdev") == 0) {
					if (f.find("gone") != std::string::npos) { bad("C12", "the daemon keeps a descriptor of a removed device: " + f, x.t); return; }
					if (ev[f]++) { bad("C12", "a device is held open twice: " + f, x.t); return; }
				}
			}
			v.n["probe"]++;
			if (dead > 32 || conn - dead > (int)stay.size()) { bad("C12", fmt("%d connections are held open without a client", conn), x.t); return; }
			if (x.zombies) { bad("C12", fmt("%d zombies", x.zombies), x.t); return; }
			if (&x == &b[0]) continue;
			auto base = [](const Result::Probe &q) { int n = 0; for (auto &f : q.fds) if (f.compare(0, 4, "conn")) n++; return n; };
			if (&x != &b[1] && base(x) > base(b[1]) + 1) { bad("C12", fmt("the number of open descriptors grows: %d after the first repetition, %d now", base(b[1]), base(x)), x.t); return; }
		}
		if (b.size() >= 4) {
			long first = b[1].nlive, last = b.back().nlive, k = (long)b.size() - 2;
			if (last - first >= (k + 1) / 2 + 1) bad("C12", fmt("the number of live allocations grows: %ld after the first repetition, %ld after %ld more", first, last, k), r.end);
			long fb = b[1].live, lb = b.back().live;
			if (lb > fb + 4096 && lb - fb > k * 64) bad("C12", fmt("memory in use grows: %ld bytes after the first repetition, %ld after %ld more", fb, lb, k), r.end);
			int bb = 0, eb = 0;
			for (auto &f : b[1].fds) if (f.compare(0, 4, "conn")) bb++;
			for (auto &f : b.back().fds) if (f.compare(0, 4, "conn")) eb++;
			if (eb > bb) bad("C12", fmt("the number of open descriptors grows: %d after the first repetition, %d at the end", bb, eb), r.end);
			v.n["growth_checked"]++;
		}
	}
	// --- C12, C20: what a command inherits
	void exec_env(const char *tag)
	{
		for (auto &l : r.log) {
			if (l.kind != L_EXEC) continue;
			auto f = split(l.s, '|');
			if (f.size() < 3) continue;
			// the command itself may contain |
			std::string extra, std = f[f.size() - 2];
			for (auto &x : split(f.back(), ' ')) if (!x.empty() && (x.size() < 5 || x.compare(x.size() - 5, 5, "=null"))) extra += " " + x; // (what it opened itself to use as its streams)
			v.n["exec_checked"]++;
			if (std != "nnn" && is("C20")) { bad(tag, "the standard streams of a command are not /dev/null: " + std, l.t); return; }
			if (!extra.empty() && !is("C20")) { bad(tag, "a command inherits descriptors: " + extra, l.t); return; }
		}
	}
	void zombies(const char *tag)
	{
		for (auto &b : r.probes) if (b.zombies) { bad(tag, fmt("%d zombies", b.zombies), b.t); return; }
		auto d = daemon();
		if (d && d->zombies) bad(tag, fmt("%d zombies", d->zombies), r.end);
	}

	// --- the main loop is not held up (C14, C16, C20)
	void latency()
	{
		ns out = -1, sleep = 0, since = 0;
		long heldq = 0, ipc = 0, grabs = 0, slow = 0;
		int dp = -1;
		ns maxopen = 0;
		for (auto &s : p.devs) { auto it = s.f.find("slow_open_ms"); if (it != s.f.end()) maxopen += it->second * MS; }
		for (auto &l : r.log) {
			if (l.kind == L_START && l.s.compare(0, 7, "daemon:") == 0) { dp = l.a; out = -1; }
			if (l.proc != dp) continue;
			switch (l.kind) {
			case L_POLLOUT: out = since = l.t; heldq = 0; sleep = 0; ipc = grabs = slow = 0; break;
			case L_KEYQ: if (!l.s.empty()) { out = -1; heldq++; } break; // waits for the user to let go of a key before grabbing (known finding F23)
			case L_SLEEP: sleep += (ns)l.a * US; slow++; break;
			case L_ACCEPT: case L_SWERR: ipc++; break;
			case L_GRAB: case L_DEVOPEN: case L_FORK: grabs++; break;
			case L_OUT: case L_FSREAD: case L_SREAD: slow++; break;
			case L_POLLIN:
				if (heldq > 1 && l.t - since > 200 * MS) v.known.push_back(fmt("F23 the main loop waited %.0f ms for a key of device to be released before grabbing it", (l.t - since) / 1e6));
				heldq = 0;
				if (out < 0) break;
				v.n["latency_checked"]++;
				if (l.t - out > 60 * MS + sleep + slow * MS + ipc * 120 * MS + grabs * 20 * MS + maxopen + stalled(out, l.t)) {
					bad("", fmt("the main loop was held up for %.1f ms", (l.t - out) / 1e6), l.t);
					return;
				}
				break;
			}
		}
	}

	// --- C14
	void survives()
	{
		auto d = daemon();
		if (!d) return;
		// an exit without the panic sequence is reported by follow()
		if (!d->alive || r.crashed || r.blocked || r.runaway) return;
		ns t = -1;
		for (auto &l : r.log) if (l.kind == L_NOTE && l.s == "marker final") t = l.t;
		if (t < 0) return;
		int fc = (int)p.p("final_client");
		auto c = r.clients.find(fc);
		if (c == r.clients.end()) return;
		IpcMsg m;
		v.n["final_checked"]++;
		if (c->second.rx.size() != sizeof m) { bad("C14", fmt("the final reload request got %zu bytes in reply", c->second.rx.size()), r.end); return; }
		memcpy(&m, c->second.rx.data(), sizeof m);
		if (m.type != IPC_SUCCESS) { bad("C14", "the final reload was not successful: " + std::string(m.data, strnlen(m.data, 100)), r.end); return; }
		int n = 0, other = 0;
		ns reload = c->second.eof_at;
		for (auto &l : r.log) if (l.kind == L_OUT && l.t > reload) { if (l.a == 0 && l.b == 1 && l.c == 60) n++; else other++; }
		// devices which really are there and were served
		int want = 0;
		for (auto &o : p.ops) if (o.op == "key" && o.us * US > reload && o.i(2) == 1 && o.i(1) == 59) want++;
		// (typed while the reload was still being served: either is fine)
		for (auto &o : p.ops) if (o.op == "key" && o.us * US > t && o.us * US <= reload && o.i(1) == 59) return;
		if (n != 2 * want || other) bad("C14", fmt("after all of it %d of %d key events were remapped (%d unexpected events)", n, 2 * want, other), r.end);
	}

	// --- C15
	void replies()
	{
		auto d = daemon();
		if (!d || !d->alive || r.crashed || sockfault) return;
		std::map<int, size_t> got, wrote;
		std::map<int, ns> acc, fs, ls, cc;
		std::map<int, size_t> sent;
		std::set<int> lst;
		for (auto &o : p.ops) if (o.op == "req" && o.i(1) == IPC_LISTEN) lst.insert(o.i(0));
		for (auto &l : r.log) {
			if (l.kind == L_ACCEPT && l.b >= 0) acc[l.a] = l.t;
			if (l.kind == L_SREAD && l.b) got[l.a] += l.s.size();
			if (l.kind == L_SWRITE && l.b) wrote[l.a] += l.s.size();
			if (l.kind == L_CLISEND) { if (!sent.count(l.a)) fs[l.a] = l.t; ls[l.a] = l.t; sent[l.a] += l.b; }
			if (l.kind == L_CLICLOSE) cc[l.a] = l.t;
		}
		for (auto &o : p.ops) if (o.op == "cshut" || o.op == "recvoff") cc[o.i(0)] = o.us * US;
		for (auto &c : r.clients) {
			auto &k = c.second;
			if (k.conn < 0 || cc.count(c.first) || lst.count(c.first)) continue;
			if (sent[c.first] < sizeof(IpcMsg)) {
				if (!k.rx.empty()) { bad("C15", fmt("client %d got a reply to an incomplete request", c.first), r.end); return; }
				continue;
			}
			if (!acc.count(k.conn)) { bad("C15", fmt("client %d is never served", c.first), r.end); return; }
			if (ls[c.first] - acc[k.conn] > 40 * MS) continue; // was too slow
			v.n["reply_checked"]++;
			if (got[k.conn] < sizeof(IpcMsg)) {
				if (k.rx.empty() && stalled(0, r.end)) continue;
				bad("C15", fmt("the complete request of client %d is not answered", c.first), r.end);
				return;
			}
			if (k.rx.size() != sizeof(IpcMsg)) { bad("C15", fmt("client %d received %zu bytes instead of one reply", c.first, k.rx.size()), r.end); return; }
			if (!k.eof) { bad("C15", fmt("the connection of client %d is left open after the reply", c.first), r.end); return; }
		}
	}

	// --- C16
	void listeners()
	{
		auto d = daemon();
		if (!d || !d->alive || r.crashed) return;
		std::set<int> slow, lst, closed;
		for (auto &o : p.ops) {
			if (o.op == "recvoff") slow.insert(o.i(0));
			if (o.op == "cclose" || o.op == "cshut") closed.insert(o.i(0));
			if (o.op == "send") slow.insert(o.i(0));
			if (o.op == "req" && o.i(1) == IPC_LISTEN && o.a.size() <= 4) lst.insert(o.i(0));
		}
		std::map<int, std::string> wr;
		for (auto &l : r.log) if (l.kind == L_SWRITE && l.b) wr[l.a] += l.s;
		for (auto &c : r.clients) {
			auto &k = c.second;
			if (k.conn < 0 || !lst.count(c.first) || closed.count(c.first)) continue;
			if (slow.count(c.first)) continue;
			v.n["listener_checked"]++;
			auto &w = wr[k.conn];
			if (k.rx != w) { bad("C16", fmt("listener %d received something else than what was written", c.first), r.end); return; }
			if (k.rx.find("Max listeners") != std::string::npos) {
				v.n["listeners_refused"]++;
				if (!k.eof && !k.closed && r.end - k.chunks.back().first > 300 * MS && stalled(k.chunks.back().first, r.end) == 0) { bad("C16", fmt("listener %d was refused but its connection is left open", c.first), r.end); return; }
				continue;
			}
			if (k.eof && !sockfault) { bad("C16", fmt("listener %d was disconnected although it reads everything at once", c.first), k.eof_at); return; }
			if (k.rx.find('\n') == std::string::npos && !k.rx.empty()) { bad("C16", "torn line", r.end); return; }
		}
	}

	// --- C18
	void restarts()
	{
		std::map<int, std::string> role;
		std::set<int> live, serving;
		std::map<int, ns> since;
		bool still = false;
		ns restart = -1;
		int client = -1, served = 0;
		int dp = -1;
		std::map<int, int> exitcode;
		std::set<int> second;
		for (auto &l : r.log) {
			if (l.kind == L_START) {
				auto c = l.s.find(':');
				role[l.a] = l.s.substr(0, c);
				live.insert(l.a);
				since[l.a] = l.t;
				if (!serving.empty()) second.insert(l.a);
				if (role[l.a] == "daemon") dp = l.a;
			}
			if (l.kind == L_EXIT) {
				live.erase(l.b);
				bool was = serving.erase(l.b);
				if (second.count(l.b) && !was && l.a == 0) { bad("C18", "the start of a second instance did not fail", l.t); return; }
				if (restart >= 0 && l.b == dp) { bad("C18", "the new daemon does not stay up: " + l.s, l.t); return; }
			}
			if (l.kind == L_POLLIN && live.count(l.proc) && l.proc >= 0 && role.count(l.proc)) {
				serving.insert(l.proc);
				if (serving.size() > 1) { bad("C18", "two daemons run at the same time", l.t); return; }
			}
			if (l.kind == L_NOTE && l.s == "marker restart") {
				restart = l.t;
				v.n["restart_checked"]++;
				for (int x : live) if (second.count(x) && l.t - since[x] > 10 * MS) { bad("C18", "a second instance neither fails nor serves", l.t); return; }
			}
			if (l.kind == L_NOTE && l.s.compare(0, 13, "marker serve ") == 0) { client = atoi(l.s.c_str() + 13); served = 0; still = false; if (restart < 0) client = -1; }
			if (l.kind == L_NOTE && l.s.compare(0, 19, "marker still serve ") == 0 && restart < 0) { client = atoi(l.s.c_str() + 19); served = 0; still = true; }
			if (l.kind == L_OUT && client >= 0 && l.a == 0 && l.b == 1 && l.c == 188) served |= l.d ? 1 : 2;
			if (l.kind == L_NOTE && l.s == "marker served" && client >= 0) {
				auto c = r.clients.find(client);
				IpcMsg m;
				if (c == r.clients.end()) { client = -1; continue; }
				bool ok = c->second.rx.size() == sizeof m;
				if (ok) memcpy(&m, c->second.rx.data(), sizeof m);
				if (!ok || m.type != IPC_SUCCESS) { bad("C18", fmt("the %s daemon does not answer (client %d, %zu bytes)", still ? "running" : "restarted", client, c->second.rx.size()), l.t); return; }
				if (served != 3) { bad("C18", fmt("the %s daemon does not remap the keyboard", still ? "running" : "restarted"), l.t); return; }
				v.n["serve_checked"]++;
				client = -1;
				if (!still) restart = -1;
			}
		}
	}

	// --- C23
	static int usage(int code, int &mod)
	{
		// the keyboard usages of the HID tables as Linux maps them to key codes
		static const unsigned char k[256] = {
			  0,  0,  0,  0, 30, 48, 46, 32, 18, 33, 34, 35, 23, 36, 37, 38, 50, 49, 24, 25, 16, 19, 31, 20, 22, 47, 17, 45, 21, 44,  2,  3,
			  4,  5,  6,  7,  8,  9, 10, 11, 28,  1, 14, 15, 57, 12, 13, 26, 27, 43, 43, 39, 40, 41, 51, 52, 53, 58, 59, 60, 61, 62, 63, 64,
			 65, 66, 67, 68, 87, 88, 99, 70,119,110,102,104,111,107,109,106,105,108,103, 69, 98, 55, 74, 78, 96, 79, 80, 81, 75, 76, 77, 71,
			 72, 73, 82, 83, 86,127,116,117,183,184,185,186,187,188,189,190,191,192,193,194,134,138,  0,132,  0,129,131,137,133,135,136,113,
			115,114,  0,  0,  0,121,  0, 89, 93,124, 92, 94,  0,  0,  0,  0,122,123, 90, 91, 85,
		};
		static const int m[8] = {29, 42, 56, 125, 97, 54, 100, 126};
		static int u[256];
		if (!u[30]) for (int i = 255; i > 0; i--) if (k[i]) u[k[i]] = i;
		mod = 0;
		for (int i = 0; i < 8; i++) if (m[i] == code) mod = 1 << i;
		return u[code];
	}
	void gadget()
	{
		struct St { int mods; std::set<int> u; std::set<int> codes; };
		std::vector<St> pend;
		size_t head = 0;
		St cur{0, {}, {}};
		std::string last(8, 0);
		std::map<int, int> held;
		long budget = 0;
		static const std::set<int> odd = {0x76, 0x78, 0x8c, 0xb6, 0xb7, 0xd7}; // usages outside that table
		for (auto &o : p.ops) {
			if (o.op == "fault" && o.s(0) == "hidwrite" && o.i(3) != EAGAIN) budget += o.i(2);
			if (o.op == "start") v.n["gadget_start"]++;
		}
		auto ok = [&](const std::string &rep, const St &s) {
			if ((unsigned char)rep[0] != s.mods) return false;
			size_t n = 0;
			for (int i = 2; i < 8; i++) {
				int x = (unsigned char)rep[i];
				if (!x || odd.count(x)) continue;
				if (!s.u.count(x)) return false;
				n++;
			}
			size_t slots = 0;
			for (int i = 2; i < 8; i++) if (rep[i]) slots++;
			return n == s.u.size() || slots == 6;
		};
		ns lastkey = -SEC;
		std::map<size_t, long> at{{0, 0}};
		auto close = [&](const std::string &last) {
			for (auto it = at.begin(); it != at.end(); ++it) {
				if (it->first >= pend.size()) continue;
				long c = it->second + !ok(last, pend[it->first]);
				auto n = at.find(it->first + 1);
				if (c <= budget && (n == at.end() || n->second > c)) at[it->first + 1] = c;
			}
		};
		auto show = [](const std::string &rep) { std::string t; for (unsigned char ch : rep) t += fmt("%02x ", ch); return t; };
		auto keys = [](const St &s) { std::string t = fmt("modifiers %02x, keys", s.mods); for (int x : s.codes) t += fmt(" %d", x); return t; };
		for (auto &l : r.log) {
			if (l.kind == L_VKEY) {
				lastkey = l.t;
				int mod, u = usage(l.a & 255, mod);
				if (mod) cur.mods = l.b ? cur.mods | mod : cur.mods & ~mod;
				else if (u) { if (l.b) cur.u.insert(u); else cur.u.erase(u); }
				if (l.b) cur.codes.insert(l.a); else cur.codes.erase(l.a);
				if (pend.size() - head > 4096) { bad("C23", "no report reaches the host", l.t); return; }
				pend.push_back(cur);
				v.n["gadget_keys"]++;
			}
			if (l.kind != L_HID) continue;
			auto &rep = l.s;
			if (rep.size() != 8) { bad("C23", fmt("a report of %zu bytes", rep.size()), l.t); return; }
			if (rep[1]) { bad("C23", "the reserved byte of a report is set: " + show(rep), l.t); return; }
			for (int i = 2; i < 8; i++) for (int j = 2; j < i; j++) if (rep[i] && rep[i] == rep[j]) { bad("C23", "a key appears twice in a report: " + show(rep), l.t); return; }
			v.n["gadget_reports"]++;
			// which of the states can this report be? (position -> reports lost to injected failures so far)
			std::map<size_t, long> nx;
			close(last);
			for (auto &x : at) {
				auto put = [&](size_t h) { auto it = nx.find(h); if (it == nx.end() || it->second > x.second) nx[h] = x.second; };
				if (x.first < pend.size() && ok(rep, pend[x.first])) put(x.first + 1);
				if (rep == last) put(x.first);
			}
			if (nx.empty()) {
				head = at.begin()->first;
				bad("C23", "the host is told " + show(rep) + "while the keys held are " + (head < pend.size() ? keys(pend[head]) : keys(cur)), l.t);
				return;
			}
			at = nx;
			head = at.begin()->first;
			last = rep;
		}
		close(last);
		if (r.blocked || r.crashed) return;
		v.n["gadget_final"]++;
		if (r.end - lastkey > 100 * MS && !at.count(pend.size())) bad("C23", fmt("%zu states were not reported: the host's last report is ", pend.size() - head) + show(last) + "while the keys held are " + keys(cur), r.end);
	}

	// --- C24
	void cli()
	{
		struct Inv { const Op *op; int proc = -1; ns start = 0, exit = -1; int code = 0; std::string why; std::string out; std::vector<int> conns; std::map<int, std::string> sent; bool killed = false; ns closed = -1; };
		std::vector<Inv> inv;
		std::map<std::string, size_t> byrole;
		for (auto &o : p.ops) if (o.op == "cli") { Inv i; i.op = &o; byrole[o.s(0)] = inv.size(); inv.push_back(i); }
		std::map<int, size_t> byproc;
		std::map<int, std::string> wr;          // conn -> what the daemon wrote
		std::map<int, ns> gone, acc;            // conn -> the daemon closed it
		std::map<int, std::set<int>> sconn;     // daemon proc -> conns it accepted
		std::set<int> dprocs;
		std::vector<ns> dexit;
		for (auto &l : r.log) {
			if (l.kind == L_EXIT && dprocs.count(l.b)) dexit.push_back(l.t);
			if (l.kind == L_START) {
				auto role = l.s.substr(0, l.s.find(':'));
				if (role.compare(0, 6, "daemon") == 0) dprocs.insert(l.a);
				auto it = byrole.find(role);
				if (it != byrole.end()) { byproc[l.a] = it->second; inv[it->second].proc = l.a; inv[it->second].start = l.t; }
			}
			if (l.kind == L_ACT) {
				auto &o = p.ops[l.a];
				if (o.op == "kill9" || o.op == "kill9sys" || o.op == "sig") { auto it = byrole.find(o.s(0)); if (it != byrole.end()) inv[it->second].killed = true; }
				if (o.op == "stdoutclose") { auto it = byrole.find(o.s(0)); if (it != byrole.end()) inv[it->second].closed = l.t; }
			}
			if (l.kind == L_SWRITE && l.b) wr[l.a] += l.s;
			if (l.kind == L_ACCEPT && l.b >= 0) { sconn[l.proc].insert(l.a); acc[l.a] = l.t; }
			if (l.kind == L_SCLOSE && dprocs.count(l.proc)) gone.insert({l.a, l.t});
			if (l.kind == L_EXIT && dprocs.count(l.b)) for (int c : sconn[l.b]) gone.insert({c, l.t});
			auto it = byproc.find(l.kind == L_EXIT ? l.b : l.proc);
			if (it == byproc.end()) continue;
			Inv &v = inv[it->second];
			if (l.kind == L_EXIT) { v.exit = l.t; v.code = l.a; v.why = l.s; }
			if (l.kind == L_STDOUT) v.out += l.s;
			if (l.kind == L_SWRITE && !l.b) { if (!v.sent.count(l.a)) v.conns.push_back(l.a); v.sent[l.a] += l.s; }
		}
		for (auto &v : inv) {
			if (v.proc < 0 || v.killed) continue;
			auto &o = *v.op;
			std::vector<std::string> av(o.a.begin() + std::min<size_t>(2, o.a.size()), o.a.end());
			if (av.empty()) continue;
			this->v.n["cli_checked"]++;
			std::string name = "keyd " + av[0] + " (" + o.s(0) + ")";
			auto fail = [&](const std::string &w) { bad("C24", name + " " + w, v.exit >= 0 ? v.exit : r.end); };
			if (av[0] == "listen") {
				std::string w = v.conns.empty() ? "" : wr[v.conns[0]];
				int c = v.conns.empty() ? -1 : v.conns[0];
				bool server_gone = c >= 0 && gone.count(c) && r.end - gone[c] > 300 * MS;
				if (c >= 0 && acc.count(c) && !sockfault) {
					auto &q = v.sent[c];
					bool whole = q.size() == sizeof(IpcMsg), ended = false;
					for (ns t : dexit) if (t >= v.start) ended = true;
					if (whole) {
						IpcMsg m;
						memcpy(&m, q.data(), sizeof m);
						if (m.type != IPC_LISTEN || m.timeout || m.sz) return fail("sent a request which differs from what the user asked for: type " + std::to_string(m.type));
					} else if (!ended && v.closed < 0 && r.end - acc[c] > 1000 * MS) return fail(fmt("sent %zu bytes instead of a request", q.size()));
				}
				bool refused = v.conns.empty();
				if (w.compare(0, v.out.size(), v.out)) return fail("prints something else than the daemon sent");
				if (v.closed < 0 && v.out != w && (v.exit >= 0 || r.end - v.start > 300 * MS) && !(v.exit < 0 && r.end - lastwrite(c) < 300 * MS)) return fail(fmt("printed %zu of the %zu bytes the daemon sent", v.out.size(), w.size()));
				if (v.exit < 0 && (server_gone || (v.closed >= 0 && r.end - std::max(v.closed, v.start) > 300 * MS)) && !(server_gone == false && refused)) return fail("does not end when the other side closes");
				bool dropped = false; // (the daemon went before it accepted the connection)
				if (c >= 0 && !acc.count(c)) for (ns t : dexit) if (t >= v.start && t <= v.exit) dropped = true;
				if (v.exit >= 0 && v.closed < 0 && c >= 0 && !dropped && !(gone.count(c) && gone[c] <= v.exit)) return fail("ended although both ends are open");
				if (v.exit < 0 && refused && r.end - v.start > 1000 * MS && !anydaemon(v.start)) return fail("neither connects nor fails");
				this->v.n["cli_listen"]++;
				continue;
			}
			// the requests this invocation has to make
			struct Rq { int type; unsigned timeout; std::string data; };
			std::vector<Rq> want;
			bool toolong = false, overlong = false, edge = false;
			if (av[0] == "bind") for (size_t i = 1; i < av.size(); i++) {
				edge |= av[i].size() == sizeof(IpcMsg::data); // (may be sent and refused, or refused at once)
				if (av[i].size() > sizeof(IpcMsg::data)) overlong = true; // (no request can hold it)
				else if (!overlong) want.push_back({IPC_BIND, 0, av[i]});
			}
			else if (av[0] == "reload") want.push_back({IPC_RELOAD, 0, ""});
			else if (av[0] == "do" || av[0] == "input") {
				Rq q{av[0] == "do" ? IPC_MACRO : IPC_INPUT, 0, ""};
				size_t k = 1;
				if (av.size() > 2 && av[1] == "-t") { q.timeout = (unsigned)atoi(av[2].c_str()); k = 3; }
				if (av.size() > k) { for (size_t i = k; i < av.size(); i++) q.data += (i > k ? " " : "") + av[i]; }
				else { q.data = o.s(1); if (p.p("cli_stdin_err")) toolong = true; }
				if (q.data.size() >= 4096) toolong = true;
				want.push_back(q);
			} else continue;
			bool ok = !overlong;
			std::string out;
			size_t n = 0;
			if (edge) {
				if (v.why.find("signal") != std::string::npos || v.why == "crash") return fail("died: " + v.why);
				if (v.exit >= 0 && !v.code) return fail("exits successfully although a binding is too long");
				continue;
			}
			if (toolong) { ok = false; if (!v.conns.empty() && !(want[0].data.size() == 4096)) return fail("sent a request although its input is unusable"); if (want[0].data.size() == 4096) continue; }
			else for (; n < want.size(); n++) {
				if (n >= v.conns.size()) { ok = false; break; }
				int c = v.conns[n];
				auto &s = v.sent[c];
				if (s.size() > sizeof(IpcMsg)) return fail("sent more than a request");
				IpcMsg m;
				if (s.size() == sizeof m) {
					memcpy(&m, s.data(), sizeof m);
					if (m.type != want[n].type || m.timeout != want[n].timeout || m.sz != want[n].data.size() || std::string(m.data, std::min<size_t>(m.sz, sizeof m.data)) != want[n].data)
						return fail("sent a request which differs from what the user asked for: type " + std::to_string(m.type) + " size " + std::to_string(m.sz));
				}
				auto &rep = wr[c];
				if (s.size() < sizeof m || rep.size() < sizeof m) { ok = false; break; }
				memcpy(&m, rep.data(), sizeof m);
				if (m.sz) out += std::string(m.data, std::min<size_t>(m.sz, sizeof m.data)) + "\n";
				if (m.type == IPC_FAIL) ok = false;
			}
			bool reached = n == want.size() && !toolong && !overlong;
			if (!overlong && v.conns.size() > want.size()) return fail("made more requests than asked for");
			if (reached && av[0] == "bind" && ok) out += "Success\n";
			if (v.exit < 0) {
				// it may only wait for a daemon which has not answered yet
				if (reached) return fail("does not end although the daemon answered");
				int c = v.conns.empty() ? -1 : v.conns.back();
				if (c >= 0 && gone.count(c) && r.end - gone[c] > 300 * MS) return fail("does not end although the daemon is gone");
				if (!anydaemon(v.start) && r.end - v.start > 1000 * MS) return fail("does not end although there is no daemon");
				if (lastdaemon_alive() && !r.blocked && r.end - v.start > 2000 * MS && stalled(v.start, r.end) == 0) return fail("does not end");
				continue;
			}
			if (v.why.find("signal") != std::string::npos || v.why == "crash") return fail("died: " + v.why);
			if (v.closed >= 0 && v.closed <= v.exit) continue; // (nobody reads what it says)
			if (reached && v.out != out) return fail(fmt("printed %zu bytes instead of the daemon's %zu byte reply", v.out.size(), out.size()));
			if (!reached && v.out.compare(0, out.size(), out)) return fail("printed something the daemon did not say");
			if (ok && v.code) return fail(fmt("exits with status %d although the daemon reported success", v.code));
			if (!ok && !v.code) return fail(reached ? "exits successfully although the daemon reported a failure" : "exits successfully although the daemon did not answer");
			this->v.n[ok ? "cli_success" : reached ? "cli_refused" : "cli_unanswered"]++;
		}
	}
	ns lastwrite(int conn) { ns t = -SEC; for (auto &l : r.log) if (l.kind == L_SWRITE && l.b && l.a == conn) t = l.t; return t; }
	bool anydaemon(ns from)
	{
		for (auto &l : r.log) if (l.kind == L_POLLIN && l.t >= from) for (size_t i = 0; i < r.procs.size(); i++) if ((int)i == l.proc && r.procs[i].role.compare(0, 6, "daemon") == 0) return true;
		return false;
	}
	bool lastdaemon_alive() { bool a = false; for (auto &x : r.procs) if (x.role == "daemon") a = x.alive; return a; }

	// --- C25
	static const std::map<int, std::string> &keynames();
	void monitor()
	{
		int mp = -1;
		bool tflag = false;
		for (auto &o : p.ops) if (o.op == "cli" && o.s(0) == "monitor") tflag = o.s(3) == "-t";
		struct Dv { bool open = false, announced = false, gone = false, lost = false; std::string path; std::set<std::string> held, due; };
		std::map<int, Dv> dv;
		std::vector<std::string> want; // key lines due
		std::vector<std::pair<ns, bool>> wt;
		size_t head = 0;
		std::string buf;
		ns closed = -1, exit_t = -1, sig_t = -1;
		ns wake = 0, lastkey = -1, upt = 0, lastlag = 0;
		bool dirty = false; // something else happened since the last key line
		std::set<int> faulty, broken;
		bool sig = false, touched = false; // it was told to end; it has changed the terminal
		for (auto &sp : p.devs) if (!sp.f.empty()) faulty.insert(sp.id);
		for (auto &o : p.ops) if (o.op == "devfault") faulty.insert(o.i(0));
		auto who = [&](int d) { auto it = r.devinfo.find(d); return it == r.devinfo.end() ? std::string("?") : it->second.name + "\t" + it->second.id; };
		int nlines = 0;
		for (auto &l : r.log) {
			if (l.kind == L_START && l.s.compare(0, 8, "monitor:") == 0) mp = l.a;
			if (l.kind == L_ACT && p.ops[l.a].op == "stdoutclose") closed = l.t;
			if (l.kind == L_EXIT && l.b == mp) { exit_t = l.t; break; }
			if (l.kind == L_SIG && l.b == mp) { sig = true; if (sig_t < 0) sig_t = l.t; }
			if (l.proc != mp || mp < 0) continue;
			if (l.kind == L_NOTE && l.s == "terminal") touched = true;
			if (sig) continue; // (anything may be cut short)
			if (closed >= 0) continue;
			switch (l.kind) {
			case L_GRAB: if (l.b) { bad("C25", fmt("the monitor grabs device %d", l.a), l.t); return; } break;
			case L_POLLOUT: wake = l.t; break;
			case L_DEVOPEN: if (l.b >= 0) { dv[l.a] = Dv(); broken.erase(l.a); dv[l.a].open = true; } break;
			case L_DEVCLOSE: dv[l.a].open = false; break;
			case L_READERR:
				if (l.b == EAGAIN) break;
				dv[l.a].gone = true;
				broken.insert(l.a); // (not read again until it is plugged in again)
				dv[l.a].due.swap(dv[l.a].held); // the keys which go with it are released
				dv[l.a].held.clear();
				if (!dv[l.a].due.empty()) upt = wake;
				break;
			case L_READ:
				if (l.b == 0 && l.c == 3) dv[l.a].lost = true;
				if (l.b == 0 && l.c == 0) break;
				if (l.b != 1) { dirty = true; break; }
				if (l.d > 1) break;
				{
					int k = M::evdev_to_keyd(l.c);
					auto n = k < 0 ? keynames().end() : keynames().find(k);
					if (n == keynames().end()) { dirty = true; break; }
					if (!dv[l.a].announced) { bad("C25", fmt("an event of device %d is read before it is announced", l.a), l.t); return; }
					want.push_back(who(l.a) + "\t" + n->second + (l.d ? " down" : " up"));
					if (l.d) dv[l.a].held.insert(who(l.a) + "\t" + n->second + " up"); else dv[l.a].held.erase(who(l.a) + "\t" + n->second + " up");
					wt.push_back({wake, dirty});
					dirty = false;
				}
				break;
			case L_KEYQ: {
				// the kernel dropped events: what changed meanwhile is reported from the state it gives now
				auto &x = dv[l.a];
				if (!x.lost) break;
				x.lost = false;
				std::istringstream is(l.s);
				std::set<int> now;
				for (int c; is >> c;) now.insert(c);
				std::set<std::string> h;
				for (int c : now) {
					int k = M::evdev_to_keyd(c);
					auto n = k < 0 ? keynames().end() : keynames().find(k);
					if (n == keynames().end()) continue;
					auto u = who(l.a) + "\t" + n->second + " up", d = who(l.a) + "\t" + n->second + " down";
					h.insert(u);
					if (!x.held.count(u)) x.due.insert(d);
				}
				for (auto &u : x.held) if (!h.count(u)) x.due.insert(u);
				x.held = h;
				upt = wake;
				v.n["monitor_resyncs"]++;
				break;
			}
			case L_STDOUT: {
				buf += l.s;
				for (size_t e; (e = buf.find('\n')) != std::string::npos; buf.erase(0, e + 1)) {
					std::string s = buf.substr(0, e);
					nlines++;
					if (r.tty.used) for (size_t b; (b = s.find("\x1b[")) != std::string::npos;) s.erase(b, s.find('m', b) + 1 - b);
					bool add = s.compare(0, 14, "device added: ") == 0, rem = s.compare(0, 16, "device removed: ") == 0;
					if (add || rem) {
						std::string t = s.substr(add ? 14 : 16);
						size_t b = t.rfind(" (");
						if (b == std::string::npos || t.back() != ')') { bad("C25", "malformed line: " + s, l.t); return; }
						std::string path = t.substr(b + 2, t.size() - b - 3), id = t.substr(0, b);
						int f = -1;
						for (auto &x : dv) {
							auto it = r.devinfo.find(x.first);
							if (it == r.devinfo.end() || it->second.id + " " + it->second.name != id) continue;
							if (add && x.second.open && !x.second.announced) { f = x.first; break; }
							if (rem && x.second.announced && x.second.path == path) { f = x.first; break; }
						}
						if (f < 0) { bad("C25", "no device corresponds to the line: " + s, l.t); return; }
						if (add) { dv[f].announced = true; dv[f].path = path; if (path.compare(0, 16, "/dev/input/event")) { bad("C25", "wrong path: " + s, l.t); return; } }
						else { if (!dv[f].gone) { bad("C25", "a device which is still there is announced as removed: " + s, l.t); return; } dv[f].announced = false; }
						v.n["monitor_announced"]++;
						dirty = true;
						continue;
					}
					if (s.find('\t') == std::string::npos) continue; // (diagnostics)
					std::string body = s;
					bool pre = s[0] == '+';
					long ms = 0;
					if (pre) { ms = atol(s.c_str() + 1); size_t b = s.find(" ms\t"); if (b == std::string::npos) { bad("C25", "malformed line: " + s, l.t); return; } body = s.substr(b + 4); }
					if (head >= want.size()) for (auto &x : dv) if (x.second.due.count(body)) {
						x.second.due.erase(body);
						want.push_back(body);
						wt.push_back({upt, true});
						break;
					}
					if (head >= want.size()) { bad("C25", "a line without an event: " + s, l.t); return; }
					if (body != want[head]) { bad("C25", "expected the line '" + want[head] + "', got '" + body + "'", l.t); return; }
					if (pre && !tflag) { bad("C25", "a time nobody asked for: " + s, l.t); return; }
					if (tflag && lastkey >= 0) {
						ns d = wt[head].first - lastkey;
						if (!pre) { bad("C25", "the time since the previous event is missing: " + s, l.t); return; }
						if (ms < 0 || ms > d / MS + 2 + (l.t - wt[head].first) / MS || (!wt[head].second && ms < d / MS - 2 - lastlag / MS)) { bad("C25", fmt("%ld ms are reported between events which are %.1f ms apart", ms, d / 1e6), l.t); return; }
						v.n["monitor_times"]++;
					}
					lastkey = wt[head].first;
					lastlag = l.t - lastkey; // (it may be held up anywhere between waking up and printing)
					head++;
					v.n["monitor_lines"]++;
				}
				break;
			}
			case L_POLLIN:
				if (head < want.size()) { bad("C25", "the event is not printed: " + want[head], l.t); return; }
				for (auto &x : dv) if (!x.second.due.empty()) { bad("C25", "the release of a key is not printed: " + *x.second.due.begin(), l.t); return; }
				for (auto &x : dv) {
					auto it = r.devinfo.find(x.first);
					if (it == r.devinfo.end()) continue;
					if (x.second.open && !x.second.gone && !x.second.announced && !faulty.count(x.first)) { bad("C25", fmt("device %d is opened but not announced", x.first), l.t); return; }
					if (x.second.open && !x.second.gone && x.second.lost && !faulty.count(x.first)) { bad("C25", fmt("events of device %d were lost and nobody looked which keys are down now", x.first), l.t); return; }
					if (x.second.gone && x.second.announced) { bad("C25", fmt("the removal of device %d is not announced", x.first), l.t); return; }
				}
				v.n["monitor_steps"]++;
				break;
			default: break;
			}
		}
		if (mp < 0) return;
		if (r.tty.used && touched && exit_t >= 0 && r.tty.left) { bad("C25", fmt("%zu characters typed meanwhile are left to whoever reads the terminal next", r.tty.left), exit_t); return; }
		if (r.tty.used && r.tty.echo) { bad("C25", "what is typed is echoed among the lines of the monitor", exit_t); return; }
		if (r.tty.used && exit_t >= 0) {
			// it leaves the terminal as it found it
			if ((r.tty.lflag & (ECHO | ICANON)) != (ECHO | ICANON)) bad("C25", fmt("the terminal is left without%s%s", r.tty.lflag & ECHO ? "" : " echo", r.tty.lflag & ICANON ? "" : " line editing"), exit_t);
			else if (r.tty.flags & O_NONBLOCK) bad("C25", "the terminal is left in non-blocking mode", exit_t);
			v.n["monitor_tty_restored"]++;
		}
		if (sig) {
			if (exit_t < 0 && r.end - sig_t > 300 * MS) bad("C25", "the monitor goes on although it was told to end", r.end);
			v.n["monitor_signalled"]++;
			return;
		}
		if (closed >= 0) {
			if (exit_t < 0 && r.end - closed > 300 * MS) bad("C25", "the monitor goes on although its output is closed", r.end);
			return;
		}
		if (exit_t >= 0) { bad("C25", "the monitor ended on its own", exit_t); return; }
		if (r.crashed) return;
		for (auto &x : r.unread) if (x.second) { bad("C25", fmt("device %d has unread events although the monitor is idle", x.first), r.end); return; }
		auto o = r.popened.find("monitor");
		for (auto &x : r.present) {
			if (!x.second || faulty.count(x.first) || broken.count(x.first) || !r.devcap.count(x.first) || !r.devcap.at(x.first)) continue;
			if (o == r.popened.end() || !o->second.count(x.first)) { bad("C25", fmt("device %d is present but the monitor does not read it", x.first), r.end); return; }
		}
	}

	// --- C27: list-keys lists every name
	void keylist()
	{
		for (auto &x : r.procs) {
			if (x.role != "lister") continue;
			if (x.alive || x.code || x.reason == "crash") { bad("C27", "list-keys does not end with success", 0); return; }
			std::set<std::string> have;
			std::istringstream is(x.out);
			for (std::string l; std::getline(is, l);) have.insert(l);
			for (auto &k : M::key_table())
				for (const char *n : {k.name, k.alt, k.shift})
					if (n && *n && !have.count(n)) { bad("C27", fmt("list-keys does not list '%s'", n), 0); return; }
			v.n["listings"]++;
		}
	}

	// --- C29: what is shipped is taken without complaint
	void accepted()
	{
		// examples/macos.conf says 'leftmeta = alt', which names a layer where a key belongs (a recorded finding: one
		// complaint, about that very line of that very file, is expected)
		int exempt = 0;
		for (auto &f : p.files) {
			std::istringstream is(f.second);
			int n = 0;
			for (std::string l; std::getline(is, l);) if (++n == 22 && l == "leftmeta = alt") exempt = n;
		}
		for (auto &l : r.log) {
			if (l.kind != L_STDOUT && l.kind != L_STDERR) continue;
			bool bad_ = l.s.find("\tERROR:") != std::string::npos || l.s.find("failed to parse") != std::string::npos || (l.s.find("\tWARNING:") != std::string::npos && l.s.find("You should use layer(") == std::string::npos);
			if (!bad_) continue;
			if (exempt && l.s.find(fmt("ERROR: line %d: invalid key or action", exempt)) != std::string::npos) { v.known.push_back("examples/macos.conf: " + l.s); continue; }
			bad("C29", "keyd complains: " + l.s, l.t);
			return;
		}
		v.n["shipped_files"] += (long)p.files.size();
	}

	// --- C26: what a desktop with the shipped compose file shows
	void typed()
	{
		const auto &cf = M::compose();
		if (!cf.error.empty()) { bad(p.prop, "keyd.compose: " + cf.error, 0); return; }
		std::string want, got;
		std::vector<ns> at;
		std::set<int> down;
		std::vector<int> pending;
		auto shifted = [&] { return down.count(42) || down.count(54); };
		auto put = [&](const std::string &s, ns t) { got += s; at.resize(got.size(), t); };
		static std::map<int, std::string> lo, hi;
		if (lo.empty()) for (auto &k : M::key_table()) {
			if (strlen(k.name) == 1) lo[k.code] = k.name;
			if (strlen(k.name) == 1 && k.shift && strlen(k.shift) == 1) hi[k.code] = k.shift;
			if (std::string(k.name) == "space") lo[k.code] = hi[k.code] = " ";
			if (std::string(k.name) == "enter") lo[k.code] = hi[k.code] = "\n";
			if (std::string(k.name) == "tab") lo[k.code] = hi[k.code] = "\t";
			if (k.code == 86) lo.erase(86), hi.erase(86);
		}
		for (auto &l : r.log) {
			if (l.kind == L_NOTE && l.s.compare(0, 12, "marker text ") == 0) want += l.s.substr(12);
			if (l.kind != L_OUT || l.a != 0 || l.b != 1) continue;
			int k = l.c;
			if (!l.d) { down.erase(k); continue; }
			if (l.d == 1) down.insert(k);
			else continue; // (held for long, which is not the point here)
			if (k == 42 || k == 54 || k == 29 || k == 97 || k == 56 || k == 100 || k == 125 || k == 126) continue;
			bool wrong = false;
			for (int x : {29, 97, 56, 100, 125, 126}) wrong |= down.count(x) > 0;
			if (wrong) put("<shortcut>", l.t);
			if (pending.empty() && k != 223) {
				auto &m = shifted() ? hi : lo;
				auto i = m.find(k);
				put(i == m.end() ? fmt("<key %d>", k) : i->second, l.t);
				continue;
			}
			pending.push_back(shifted() && k != 223 ? -k : k);
			auto i = cf.tree.find(pending);
			if (i != cf.tree.end()) { put(i->second, l.t); pending.clear(); v.n["composed"]++; }
			else if (!cf.prefixes.count(pending)) { put("<no such sequence>", l.t); pending.clear(); }
		}
		if (!pending.empty()) put("<unfinished sequence>", r.end);
		v.n["characters"] += (long)at.size();
		if (got == want) return;
		size_t i = 0;
		while (i < got.size() && i < want.size() && got[i] == want[i]) i++;
		while (i > 0 && ((i < got.size() && (got[i] & 0xc0) == 0x80) || (i < want.size() && (want[i] & 0xc0) == 0x80))) i--;
		bad(p.prop, fmt("byte %zu: '%s' was to be typed, '%s' arrives", i, want.substr(i, 12).c_str(), got.substr(i, 24).c_str()), i < at.size() ? at[i] : r.end);
	}

	void run()
	{
		for (auto &o : p.ops) {
			if (o.op == "stall") stalls.push_back({o.us * US, (o.us + o.i(0)) * US});
			if (o.op == "fault") { anyfault = true; if (o.s(0) == "sockwrite" || o.s(0) == "accept") sockfault = true; }
		}
		M::FollowOpts fo;
		fo.model = !p.p("nomodel") && !r.runaway && !p.p("gadget");
		v.fl = M::follow(p, r, fo);
		for (auto f : v.fl.findings) {
			if (is("C18")) break;
			if (f.tag == "C13x") f.tag = f.what.find("panic") != std::string::npos ? "C13" : "";
			// C01 is about the keys that remain, not about every difference
			if (f.tag.empty() && (is("C01") || is("C26")) && f.what.find("exited") == std::string::npos) f.tag = "other";
			all.push_back(f);
		}
		general();
		if (!is("C14") && !is("C18")) opened();
		stuck();
		stuck_between();
		reload_released();
		if (is("C11")) grabs();
		if (is("C12")) { resources(); exec_env("C12"); }
		if (is("C14") || is("C16") || is("C20")) latency();
		if (is("C14")) survives();
		if (is("C15")) replies();
		if (is("C16")) listeners();
		if (is("C18")) restarts();
		if (is("C24")) cli();
		if (is("C25")) monitor();
		if (is("C27")) keylist();
		if (is("C26") || (is("C29") && p.p("typed"))) typed();
		if (is("C29")) accepted();
		if (is("C23")) gadget();
		if (is("C20")) { exec_env("C20"); zombies("C20"); }
		for (auto &f : all) (f.tag.empty() || f.tag == p.prop ? v.f : v.other).push_back(f);
		v.nontrivial = (v.fl.started && (v.fl.steps > 3 || !fo.model)) || v.n["monitor_lines"] > 2;
	}
};
}

const std::map<int, std::string> &J::keynames()
{
	static std::map<int, std::string> n = M::key_names();
	return n;
}

Verdict judge(const Plan &p, const Result &r)
{
	J j(p, r);
	j.run();
	return std::move(j.v);
}
