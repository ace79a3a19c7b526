// Follows a recorded run with the reference model: what the daemon read is fed to the model,
// what it emitted has to be one of the outputs the model allows.
#include "model.h"
#include <algorithm>

namespace M {

namespace {
struct Input {
	enum K { KEY, MOVE, ABS, SCROLL, EXT, LED, EV, REQ, RELOAD } k = EV;
	int dev = -1, kbd = -1;
	int a = 0, b = 0;
	long TA = 0, TB = 0, TC = 0, cmax = 0;
	bool untimed = false;      // no timers are serviced on behalf of it
	Bind binding;
	std::shared_ptr<std::vector<CfgP>> cfgs;
	int conn = -1;
	std::shared_ptr<std::string> req;
	bool full = false;         // listener table was full
};
struct Out { int dev, type, code, val; ns t; };
struct Led { int code, val, err; };
struct Step {
	ns tin = 0, tout = 0, tend = 0; // previous POLLIN, POLLOUT, next POLLIN
	long arg = -1;
	bool complete = false, startup = false, fresh = false;
	size_t from = 0;
	long T0 = 0;
	std::vector<Input> in;
	std::vector<Out> outs;
	std::vector<std::string> execs;
	bool execfault = false;
	std::map<int, std::string> wr;
	std::set<int> swerr, closed;
	std::map<int, std::vector<Led>> led;
	std::vector<int> listeners; // registered before the step
	Bind bind0;                 // devices and their keyboards at its beginning
	std::vector<std::pair<int, std::vector<CfgP>>> dummy;
};
struct Dev { bool open = false, drain = false, virt = false, sync = false, grabbed = false; int kbd = -1, want = -1, caps = 0; std::set<int> down; int panic = 0, dup = 0; bool gone = false; };

struct Pre {
	const Plan &p;
	const Result &r;
	std::vector<Step> steps;
	std::vector<Finding> f;
	std::vector<std::pair<size_t, std::vector<CfgP>>> loads;
	std::vector<std::pair<ns, ns>> stalls;
	bool started = false, ended = false;
	ns last_reload = -1;

	Pre(const Plan &p_, const Result &r_) : p(p_), r(r_) {}

	std::map<int, Dev> dev;
	std::map<int, std::vector<Dev>> old; // removed and plugged again before the daemon noticed
	std::map<int, std::pair<int, int>> absrange;
	Files fs;
	std::set<std::string> bad, dirs;
	std::vector<CfgP> cfgs;
	std::map<int, std::string> rq;
	std::set<int> listeners;
	std::map<int, int> conn_client;
	std::set<int> cclosed;
	long lastclock = 0;
	int mask_held()
	{
		int m = 0;
		for (auto &d : dev) if (d.second.open && !d.second.virt) m |= d.second.panic;
		for (auto &v : old) for (auto &d : v.second) if (d.open && !d.virt) m |= d.panic;
		return m;
	}

	static int flags_of(int caps) { return (caps & 1 ? 4 : 0) | (caps & 6 ? 2 : 0); }
	int match(int d)
	{
		auto id = r.devid.find(d);
		auto cp = r.devcap.find(d);
		if (id == r.devid.end() || cp == r.devcap.end()) return -1;
		int fl = flags_of(cp->second), best = -1, rank = 0;
		for (size_t i = 0; i < cfgs.size(); i++) {
			int k = cfgs[i]->match(id->second, fl);
			if (k > rank) { rank = k; best = (int)i; }
		}
		return rank == 1 && fl == 2 ? -1 : best;
	}
	Bind bind()
	{
		auto b = std::make_shared<std::vector<std::pair<int, int>>>();
		for (auto &d : dev) if (d.second.open && d.second.kbd >= 0) b->push_back({d.first, d.second.kbd});
		return b;
	}
	Bind cur;
	Bind cb() { if (!cur) cur = bind(); return cur; }

	static void fsop(const ::Op &o, Files &fs, std::set<std::string> &bad, std::set<std::string> &dirs)
	{
		if (o.op == "write") { fs[o.s(0)] = o.s(1); }
		else if (o.op == "rm") { ff(o.s(0), "eio_at", -1, fs, bad, dirs); fs.erase(o.s(0)); bad.erase(o.s(0)); dirs.erase(o.s(0)); }
		else if (o.op == "filefault") ff(o.s(0), o.s(1), o.i(2), fs, bad, dirs);
	}
	static void ff(const std::string &path, const std::string &field, long v, const Files &fs, std::set<std::string> &bad, std::set<std::string> &dirs)
	{
		if (!fs.count(path)) return;
		if (field == "open_errno") { if (v) bad.insert(path); else bad.erase(path); }
		if (field == "eio_at") { for (auto i = bad.begin(); i != bad.end();) { if (i->compare(0, path.size() + 2, "@" + path + " ") == 0) i = bad.erase(i); else ++i; } if (v >= 0) bad.insert(fmt("@%s %ld", path.c_str(), v)); }
		if (field == "isdir") { if (v) dirs.insert(path); else dirs.erase(path); }
	}
	// config list as keyd holds it after loading at log index i
	std::vector<CfgP> load(size_t i, int proc)
	{
		Files now = fs, use = fs;
		auto b = bad, di = dirs;
		std::vector<std::string> names;
		for (auto &x : fs)
			if (x.first.compare(0, 10, "/etc/keyd/") == 0 && x.first.find('/', 10) == std::string::npos && x.first.size() > 15 && x.first.compare(x.first.size() - 5, 5, ".conf") == 0 && !dirs.count(x.first))
				names.push_back(x.first);
		std::set<std::string> seen;
		for (size_t k = i + 1; k < r.log.size(); k++) {
			auto &l = r.log[k];
			if (l.kind == L_POLLIN && l.proc == proc) break;
			if (l.kind == L_ACT) fsop(p.ops[l.a], now, b, di);
			if (l.kind == L_FSREAD && l.proc == proc) {
				seen.insert(l.s);
				if (now.count(l.s)) use[l.s] = now[l.s]; else use.erase(l.s);
			}
		}
		for (auto &x : b) {
			if (x[0] != '@') { use.erase(x); continue; }
			size_t sp = x.rfind(' '); // unreadable from this offset on
			std::string path = x.substr(1, sp - 1);
			if (use.count(path) && atol(x.c_str() + sp) < (long)use[path].size()) use.erase(path);
		}
		std::vector<CfgP> res;
		for (auto &n : names) {
			CfgP c = use.count(n) ? cfg_load(use, n) : nullptr;
			if (c) res.insert(res.begin(), c);
		}
		return res;
	}

	void run()
	{
		for (auto &f : p.files) fs[f.first] = f.second;
		for (auto &f : p.ffault) for (auto &k : f.second) ff(f.first, k.first, k.second, fs, bad, dirs);
		for (auto &c : r.clients) if (c.second.conn >= 0) conn_client[c.second.conn] = c.first;
		for (auto &d : p.devs) {
			Device x;
			device_from_spec(d, &x);
			{
				absrange[d.id * 2] = {x.absmin[0], x.absmax[0]};
				absrange[d.id * 2 + 1] = {x.absmin[1], x.absmax[1]};
			}
		}
		int dp = -1;
		Step st;
		bool live = false;      // between START and EXIT
		bool vgone = false;     // the virtual devices were destroyed
		bool in_step = false;
		ns pollin = 0;
		long arg = -1;
		size_t nexp = 0;
		auto push = [&](Input in, size_t i) {
			in.TA = st.T0;
			in.TB = lastclock ? lastclock : st.T0;
			in.TC = 0;
			for (size_t k = i; k < r.log.size(); k++)
				if (r.log[k].proc == dp) {
					if (r.log[k].kind == L_CLOCK) { in.TC = clk(r.log[k]); break; }
					if (r.log[k].kind == L_POLLIN) break;
				}
			if (!in.TC) in.TC = in.TB;
			in.cmax = in.TC;
			in.binding = cb();
			st.in.push_back(in);
		};
		auto keyin = [&](int d, int evcode, int val, size_t i, Dev *which = nullptr) {
			Dev &x = which ? *which : dev[d];
			if (val) x.down.insert(evcode); else x.down.erase(evcode);
			int c = evdev_to_keyd(evcode);
			if (c < 0) return;
			if (!x.virt) {
				int m = c == 28 ? 1 : c == 14 ? 2 : c == 1 ? 4 : 0;
				if (val) x.panic |= m; else x.panic &= ~m;
				if (mask_held() == 7 && !nexp) nexp = steps.size() + 1;
			}
			Input in;
			in.dev = d;
			in.kbd = x.kbd;
			in.a = c;
			in.b = val;
			in.k = x.virt ? Input::EV : x.kbd >= 0 ? Input::KEY : (x.caps & 6) ? Input::EXT : Input::EV;
			push(in, i);
		};
		auto finish = [&](size_t i, bool complete, ns t) {
			if (!in_step) return;
			st.complete = complete;
			st.tend = t;
			// the largest clock value before the next input
			long c = lastclock;
			for (size_t k = st.in.size(); k-- > 0;) {
				st.in[k].cmax = std::max(c, st.in[k].TC);
				c = std::max(st.in[k].TB, st.in[k].TA);
			}
			(void)i;
			steps.push_back(std::move(st));
			st = Step();
			in_step = false;
		};
		for (size_t i = 0; i < r.log.size(); i++) {
			auto &l = r.log[i];
			if (l.kind == L_ACT && p.ops[l.a].op == "unplug" && dev.count(p.ops[l.a].i(0))) dev[p.ops[l.a].i(0)].gone = true;
			if (l.kind == L_ACT) {
				const ::Op &o = p.ops[l.a];
				fsop(o, fs, bad, dirs);
				if (o.op == "stall" && (o.a.size() < 2 || o.s(1) == "daemon")) stalls.push_back({l.t, l.t + (ns)o.i(0) * US});
				continue;
			}
			if (l.kind == L_CLICLOSE) { auto c = r.clients.find(l.a); if (c != r.clients.end()) cclosed.insert(c->second.conn); continue; }
			if (l.kind == L_START && l.s.compare(0, 7, "daemon:") == 0) {
				dp = l.a;
				started = live = true;
				vgone = false;
				dev.clear(); old.clear(); cfgs.clear(); rq.clear(); listeners.clear(); cur = nullptr;
				nexp = 0;
				st = Step();
				st.startup = st.fresh = true;
				st.tin = st.tout = l.t;
				in_step = true;
				lastclock = 0;
				continue;
			}
			if (l.kind == L_EXIT && l.b == dp && live) {
				ended = true;
				live = false;
				if (l.s.find("panic") != std::string::npos || l.s.find("exit") != std::string::npos) {}
				bool killed = l.s.find("kill") != std::string::npos || l.s.find("signal") != std::string::npos;
				if (!killed && !nexp && !r.crashed) f.push_back({"C13x", "the daemon exited although the panic sequence was not held: " + l.s, l.t});
				nexp = 0;
				finish(i, false, l.t);
				continue;
			}
			if (dp < 0 || l.proc != dp || !live) {
				continue;
			}
			switch (l.kind) {
			case L_POLLIN:
				finish(i, true, l.t);
				pollin = l.t;
				arg = l.a;
				if (nexp) { f.push_back({"C13", "backspace, escape and enter were held together but the daemon keeps running", l.t}); nexp = 0; }
				break;
			case L_POLLOUT: {
				st = Step();
				st.tin = pollin;
				st.tout = l.t;
				st.arg = arg;
				st.from = i;
				in_step = true;
				for (int c : listeners) st.listeners.push_back(c);
				st.bind0 = cb();
				st.T0 = 0;
				lastclock = 0;
				for (size_t k = i; k < r.log.size(); k++)
					if (r.log[k].proc == dp) {
						if (r.log[k].kind == L_CLOCK) { st.T0 = clk(r.log[k]); break; }
						if (r.log[k].kind == L_POLLIN) break;
					}
				if (!st.T0) st.T0 = (l.t + r.uptime) / MS;
				break;
			}
			case L_CLOCK: lastclock = clk(l); break;
			case L_DEVOPEN:
				if (l.b >= 0) {
					auto o = dev.find(l.a);
					if (o != dev.end() && o->second.gone) old[l.a].push_back(o->second); // not noticed yet
					if (o != dev.end() && o->second.grabbed && !o->second.gone) { o->second.dup++; cur = nullptr; break; } // opened twice: the first one keeps the grab
					Dev d;
					d.open = true;
					d.virt = l.a >= 1000;
					auto c = r.devcap.find(l.a);
					d.caps = c == r.devcap.end() ? 0 : c->second;
					dev[l.a] = d;
					cur = nullptr;
					if (!st.startup) { Input in; in.k = Input::EV; push(in, i); }
				}
				break;
			case L_DEVCLOSE:
				if (!old[l.a].empty()) old[l.a].erase(old[l.a].begin());
				else if (dev.count(l.a) && dev[l.a].dup && !dev[l.a].gone) dev[l.a].dup--;
				else dev.erase(l.a);
				cur = nullptr;
				break;
			case L_GRAB:
				if (l.d) break;
				if (l.b && l.c == 0) {
					Dev &d = dev[l.a];
					d.kbd = match(l.a);
					d.drain = true;
					d.grabbed = true;
					d.sync = false;
					d.down.clear();
					d.panic = 0;
					cur = nullptr;
				} else if (!l.b && l.c == 0) { dev[l.a].kbd = -1; dev[l.a].grabbed = false; cur = nullptr; }
				break;
			case L_READ: {
				Dev &d = dev[l.a];
				if (d.drain) break;
				if (l.b == 0 && l.c == 3) { d.sync = true; break; }
				if (l.b == 0 || l.b == 4) break;
				if (l.b == 1) {
					if (l.d == 2) break;
					keyin(l.a, l.c, l.d, i);
					break;
				}
				Input in;
				in.dev = l.a;
				in.kbd = d.kbd;
				if (l.b == 2) {
					int x = 0, y = 0;
					if (l.c == 8 || l.c == 6) {
						in.k = d.virt ? Input::EV : d.kbd >= 0 ? Input::SCROLL : (d.caps & 6) ? Input::EXT : Input::EV;
						in.b = -1;
						if (l.c == 8) y = l.d; else x = l.d;
					} else if (l.c == 0 || l.c == 1) {
						in.k = d.kbd >= 0 ? Input::MOVE : Input::EV;
						if (l.c == 0) x = l.d; else y = l.d;
					} else
						break;
					if (in.k != Input::EXT) { in.a = x; in.b = y; }
					push(in, i);
				} else if (l.b == 3) {
					if (l.c > 1) break;
					auto ar = absrange.find(l.a * 2 + l.c);
					long lo = ar == absrange.end() ? 0 : ar->second.first;
					long span = ar == absrange.end() ? 0 : (long)ar->second.second - lo;
					// an axis without a range has no position to report
					in.k = d.kbd >= 0 && span > 0 ? Input::ABS : Input::EV;
					if (span > 0) { in.a = l.c; in.b = (int)(((long)l.d - lo) * 1024 / span); }
					push(in, i);
				} else if (l.b == 17) {
					in.k = d.virt ? Input::LED : Input::EV;
					in.a = l.c;
					in.b = l.d;
					push(in, i);
				}
				break;
			}
			case L_READERR: {
				bool was = l.b == ENODEV && !old[l.a].empty();
				Dev &d = was ? old[l.a].front() : dev[l.a];
				if (d.drain) { d.drain = false; break; }
				if (l.b == EAGAIN || !d.open) break;
				std::vector<int> v(d.down.begin(), d.down.end());
				for (int c : v) keyin(l.a, c, 0, i, &d);
				Input in;
				push(in, i);
				dev[l.a].kbd = dev[l.a].kbd;
				break;
			}
			case L_KEYQ: {
				Dev &d = dev[l.a];
				if (!d.sync || d.drain) break;
				d.sync = false;
				std::set<int> now;
				for (auto &x : split(l.s, ' ')) if (!x.empty()) now.insert(atoi(x.c_str()));
				std::set<int> all = now;
				all.insert(d.down.begin(), d.down.end());
				for (int c : all) if (now.count(c) != d.down.count(c)) keyin(l.a, c, (int)now.count(c), i);
				break;
			}
			case L_ACCEPT: {
				if (l.b < 0) break;
				Input in;
				push(in, i);
				rq[l.a] = "";
				break;
			}
			case L_SREAD: {
				auto q = rq.find(l.a);
				if (!l.b || q == rq.end()) break;
				q->second += l.s;
				if (q->second.size() >= sizeof(IpcMsg)) {
					IpcMsg m;
					memcpy(&m, q->second.data(), sizeof m);
					Input in;
					in.k = Input::REQ;
					in.conn = l.a;
					in.untimed = true;
					in.req = std::make_shared<std::string>(q->second);
					rq.erase(q);
					if (m.sz < 4096 && m.timeout <= 1000000 && m.type == IPC_LISTEN) {
						int n = 0;
						for (int c : listeners) if (!cclosed.count(c)) n++;
						if (listeners.size() >= 32 && n < 32) {
							for (auto it = listeners.begin(); it != listeners.end();) if (cclosed.count(*it)) it = listeners.erase(it); else ++it;
						}
						in.full = n >= 32;
						if (!in.full) listeners.insert(l.a);
					}
					push(in, i);
				}
				break;
			}
			case L_OPENDIR:
				if (l.s.compare(0, 9, "/etc/keyd") == 0 && l.a == 0) {
					Input in;
					in.k = Input::RELOAD;
					in.untimed = true;
					push(in, i);
					cfgs = load(i, dp);
					loads.push_back({i, cfgs});
					last_reload = l.t;
					for (auto &d : dev) {
						int k = d.second.virt ? -1 : match(d.first);
						d.second.kbd = d.second.grabbed ? k : -1;
					}
					cur = nullptr;
					st.in.back().cfgs = std::make_shared<std::vector<CfgP>>(cfgs);
				}
				break;
			case L_VDESTROY: vgone = true; break;
			case L_OUT: if (!vgone) st.outs.push_back({l.a, l.b, l.c, l.d, l.t}); break; // (the kernel releases the keys of a vanishing device)
			case L_EXEC: { auto e = l.s.find('|'); st.execs.push_back(l.s.substr(0, e)); break; }
			case L_FORK: if (l.a < 0) st.execfault = true; break;
			case L_NOTE: if (l.s == "exec failed") st.execfault = true; break;
			case L_LEDW: st.led[l.a].push_back({l.b, l.c, l.d}); break;
			case L_SWRITE: if (l.b) st.wr[l.a] += l.s; break;
			case L_SWERR: st.swerr.insert(l.a); break;
			case L_SCLOSE:
				st.closed.insert(l.a);
				if (listeners.count(l.a)) listeners.erase(l.a);
				break;
			default: break;
			}
		}
		if (live && in_step) finish(r.log.size(), false, r.end);
		if (live && !in_step && pollin) { // blocked in poll at the end
			st = Step();
			st.tin = pollin;
			st.tout = st.tend = r.end;
			st.arg = arg;
			st.complete = false;
			st.fresh = false;
			st.T0 = -1;
			steps.push_back(st);
		}
	}
	static long clk(const LogRec &l) { return (long)l.a + (long)l.b * 1000000000L; }
};

struct Chooser {
	std::vector<int> script;
	std::vector<int> opts;
	size_t pos = 0;
	int pick(int n)
	{
		int v = pos < script.size() ? script[pos] : 0;
		if (pos >= script.size()) script.push_back(0);
		if (pos >= opts.size()) opts.push_back(n);
		opts[pos] = n;
		pos++;
		return v;
	}
	bool next()
	{
		script.resize(pos);
		opts.resize(pos);
		while (!script.empty()) {
			if (++script.back() < opts.back()) { pos = 0; return true; }
			script.pop_back();
			opts.pop_back();
		}
		return false;
	}
};

struct Runner {
	Pre &pre;
	Follow &f;
	int policy;
	bool giveup = false;
	Runner(Pre &p, Follow &x, int pol) : pre(p), f(x), policy(pol) {}

	long T(const Input &in) { return policy == 0 ? in.TA : policy == 1 ? in.TB : in.TC; }

	void service(World &w, int k, const std::vector<KeyEv> &ev, long t, long cmax)
	{
		Kbd &kb = w.kbds[k];
		kb.o = &w;
		long to = kb.process(ev);
		kb.lo = to > 0 ? t + to : 0;
		kb.hi = to > 0 ? std::max(cmax, t) + to : 0;
	}
	void timers(World &w, long t, long cmax, Chooser &ch, std::map<std::pair<int, long>, long> &no)
	{
		std::vector<int> fire;
		for (size_t k = 0; k < w.kbds.size(); k++) {
			Kbd &kb = w.kbds[k];
			if (!kb.lo || t < kb.lo) continue;
			if (t < kb.hi + 2) {
				auto it = no.find({(int)k, kb.lo});
				if (it != no.end() && it->second == t) continue;
				if (ch.pick(2) == 1) { no[{(int)k, kb.lo}] = t; continue; }
			}
			fire.push_back((int)k);
		}
		while (!fire.empty()) {
			size_t i = fire.size() > 1 ? ch.pick((int)fire.size()) : 0;
			int k = fire[i];
			fire.erase(fire.begin() + i);
			service(w, k, {{0, 0, t}}, t, cmax);
			f.timers++;
		}
	}
	void keypress(World &w, int k, int code, long t, long cmax)
	{
		service(w, k, {{code, 1, t}}, t, cmax);
		service(w, k, {{code, 0, t}}, t, cmax);
	}
	void reply(World &w, int conn, bool ok) { w.out.push_back({Exp::REPLY, conn, ok ? IPC_SUCCESS : IPC_FAIL, 0, 0, ""}); }
	void request(World &w, const Input &in)
	{
		IpcMsg m;
		memcpy(&m, in.req->data(), sizeof m);
		if (m.sz >= sizeof m.data || m.timeout > 1000000) { reply(w, in.conn, false); return; }
		std::string d(m.data, m.sz);
		switch (m.type) {
		case IPC_MACRO: {
			while (!d.empty() && d.back() == '\n') d.pop_back();
			d = d.c_str();
			Macro mc;
			bool unknown = false;
			bool ok = parse_macro(d, mc, unknown);
			if (unknown) { giveup = true; return; }
			if (ok) macro_play(&w, mc, m.timeout);
			reply(w, in.conn, ok);
			break;
		}
		case IPC_INPUT: {
			d = d.c_str();
			for (size_t i = 0; i < d.size();) {
				uint32_t cp = 0;
				int n = utf8_next(d, i, cp);
				if (!n) break;
				bool found = false;
				int code, mods;
				if (n == 1 && cp < 128) {
					std::string s(1, (char)cp);
					found = true;
					if (key_seq(s, code, mods)) {
						if (mods & MOD_SHIFT) w.key(42, 1);
						w.key(code, 1);
						w.key(code, 0);
						if (mods & MOD_SHIFT) w.key(42, 0);
					} else if (cp == ' ' || cp == '\n' || cp == '\t') {
						int c = cp == ' ' ? 57 : cp == '\n' ? 28 : 15;
						w.key(c, 1);
						w.key(c, 0);
					} else
						found = false;
				}
				if (!found) {
					int idx = unicode_index(cp);
					if (idx < 0) {
						if (cp >= 128 && cp != 0xFFFD && cp < 0x30000) { giveup = true; return; }
						reply(w, in.conn, false);
						return;
					}
					int k[4];
					unicode_keys(idx, k);
					for (int c : k) { w.key(c, 1); w.key(c, 0); }
				}
				i += n;
				if (m.timeout) w.delay(m.timeout);
			}
			reply(w, in.conn, true);
			break;
		}
		case IPC_RELOAD:
			// a reload that could not open the directory has no RELOAD input
			w.out.push_back({Exp::REPLY, in.conn, -1, 0, 0, ""});
			break;
		case IPC_LISTEN: {
			if (in.full) { w.out.push_back({Exp::INIT, in.conn, 1, 0, 0, std::string("Max listeners exceeded\n\0", 24)}); break; }
			std::string s;
			if (w.active >= 0) {
				Kbd &k = w.kbds[w.active];
				int lay = 0;
				for (size_t i = 1; i < k.ls.size() && !lay; i++)
					if (k.ls[i].active && k.L(i).type == Layer::LAYOUT) lay = (int)i;
				s = "/" + k.L(lay).name + "\n";
				for (size_t i = 1; i < k.ls.size(); i++)
					if (k.ls[i].active && k.L(i).type != Layer::LAYOUT) s += "+" + k.L(i).name + "\n";
			}
			w.out.push_back({Exp::INIT, in.conn, 0, 0, 0, s});
			break;
		}
		case IPC_BIND: {
			d = d.c_str();
			bool ok = false;
			for (auto &k : w.kbds) ok |= k.bind(d);
			reply(w, in.conn, ok);
			break;
		}
		default: reply(w, in.conn, false);
		}
	}
	void reload(World &w, const Input &in)
	{
		for (auto &k : w.kbds) {
			k.o = &w;
			bool lay = false;
			for (size_t i = 1; i < k.ls.size(); i++) {
				if (k.L(i).type == Layer::LAYOUT) { lay |= k.ls[i].active; continue; }
				while (k.ls[i].active) {
					k.ls[i].active--;
					w.layer(k, (int)i, 0);
				}
			}
			if (lay) w.layer(k, 0, 1);
		}
		w.kbds.clear();
		w.active = -1;
		for (auto &c : *in.cfgs) w.kbds.emplace_back(c);
		for (int i = 0; i < 256; i++)
			if (w.ks[i]) { w.vk(i, 0); w.ks[i] = 0; }
	}
	void input(World &w, const Input &in, Chooser &ch, std::map<std::pair<int, long>, long> &no)
	{
		long t = T(in);
		w.binding = in.binding;
		if (!in.untimed) timers(w, t, in.cmax, ch, no);
		int k = in.kbd < (int)w.kbds.size() ? in.kbd : -1;
		if (k >= 0 && in.k != Input::REQ && in.k != Input::RELOAD) w.active = k;
		switch (in.k) {
		case Input::KEY:
			if (k >= 0) service(w, k, {{in.a, in.b, t}}, t, in.cmax);
			break;
		case Input::MOVE: {
			if (k < 0) break;
			auto &s = w.kbds[k].scroll;
			if (s.active) {
				if (!s.sens) break;
				s.y += in.b;
				s.x += in.a;
				int yt = s.y / s.sens, xt = s.x / s.sens;
				s.y %= s.sens;
				s.x %= s.sens;
				w.wheel(0, -yt);
				w.wheel(0, xt);
			} else {
				w.emit(1, 2, 0, in.a);
				w.emit(1, 2, 1, in.b);
			}
			break;
		}
		case Input::ABS:
			w.emit(1, 3, in.a, in.b);
			break;
		case Input::SCROLL:
			for (int i = 0; i < in.a; i++) keypress(w, w.active, K_SRIGHT, t, in.cmax);
			for (int i = 0; i < -in.a; i++) keypress(w, w.active, K_SLEFT, t, in.cmax);
			for (int i = 0; i < in.b; i++) keypress(w, w.active, K_SUP, t, in.cmax);
			for (int i = 0; i < -in.b; i++) keypress(w, w.active, K_SDOWN, t, in.cmax);
			break;
		case Input::EXT:
			if (w.active >= 0) keypress(w, w.active, K_EXT, t, in.cmax);
			break;
		case Input::LED:
			for (auto &b : *in.binding) w.out.push_back({Exp::LED, b.first, in.a, in.b, 0, ""});
			break;
		case Input::REQ: request(w, in); break;
		case Input::RELOAD: reload(w, in); break;
		case Input::EV: break;
		}
	}

	static std::string show(const Out &o) { return fmt("%s %s %d=%d", o.dev ? "pointer" : "keyboard", o.type == 1 ? "key" : o.type == 2 ? "rel" : "abs", o.code, o.val); }
	static std::string show(const Exp &e) { return fmt("%s %s %d=%d", e.a ? "pointer" : "keyboard", e.b == 1 ? "key" : e.b == 2 ? "rel" : "abs", e.c, e.d); }

	// 0 = everything agrees, otherwise a finding
	bool outs_match(const World &w, const Step &st, std::string &why, size_t &n)
	{
		n = 0;
		for (auto &e : w.out) {
			if (e.k != Exp::OUT) continue;
			if (n >= st.outs.size()) { if (!st.complete) return true; why = "expected " + show(e) + " but nothing was emitted"; return false; }
			auto &o = st.outs[n];
			if (o.dev != e.a || o.type != e.b || o.code != e.c || o.val != e.d) { why = "expected " + show(e) + " but " + show(o) + " was emitted"; return false; }
			n++;
		}
		if (n < st.outs.size()) { why = "nothing was expected but " + show(st.outs[n]) + " was emitted"; return false; }
		return true;
	}
	ns stalled(ns a, ns b)
	{
		ns s = 0;
		for (auto &x : pre.stalls) s += std::max<ns>(0, std::min(b, x.second) - std::max(a, x.first));
		return s;
	}
	std::optional<Finding> sides(const World &w, const Step &st, const World &before, const FollowOpts &o)
	{
		ns t = st.tout;
		// lateness of the wakeup
		if (o.check_late && !st.startup)
			for (size_t k = 0; k < before.kbds.size(); k++) {
				auto &kb = before.kbds[k];
				if (!kb.lo) continue;
				ns due = std::max<ns>((ns)kb.hi * MS - pre.r.uptime, st.tin);
				if (st.tout > due + 6 * MS + stalled(st.tin, st.tout))
					return Finding{"C10", fmt("a timeout of keyboard %zu was due at %.3f ms but the daemon slept until %.3f ms", k, due / 1e6, st.tout / 1e6), t};
			}
		if (!st.complete) return {};
		std::vector<std::string> ex;
		for (auto &e : w.out) if (e.k == Exp::EXEC) ex.push_back(e.s);
		f.execs += st.execs.size();
		if (st.execfault) {
			size_t i = 0;
			for (auto &x : st.execs) { while (i < ex.size() && ex[i] != x) i++; if (i++ >= ex.size()) return Finding{"C20", "unexpected command: " + x, t}; }
		} else if (ex != st.execs)
			return Finding{"C20", fmt("expected %zu commands to be executed (%s), observed %zu (%s)", ex.size(), ex.empty() ? "" : ex[0].c_str(), st.execs.size(), st.execs.empty() ? "" : st.execs[0].c_str()), t};
		// delays
		{
			ns last = st.tout;
			long lo = 0, hi = 0;
			size_t n = 0;
			for (auto &e : w.out) {
				if (e.k == Exp::DELAY) { lo += e.a; hi += e.b; }
				if (e.k == Exp::OUT) {
					if (n >= st.outs.size()) break;
					ns gap = st.outs[n].t - last;
					if (lo && gap < lo * US) return Finding{"C09", fmt("a delay of %ld us was expected before %s, observed %.3f ms", lo, show(e).c_str(), gap / 1e6), t};
					if (lo && gap > hi * US + (40 + 51 * (int64_t)st.listeners.size()) * MS + stalled(last, st.outs[n].t)) return Finding{"C09", fmt("a delay of at most %ld us was expected before %s, observed %.3f ms", hi, show(e).c_str(), gap / 1e6), t};
					last = st.outs[n].t;
					lo = hi = 0;
					n++;
				}
			}
		}
		// replies
		std::set<int> isrep;
		for (auto &e : w.out)
			if (e.k == Exp::REPLY) {
				isrep.insert(e.a);
				if (st.swerr.count(e.a) || pre.cclosed.count(e.a)) continue;
				auto it = st.wr.find(e.a);
				if (it == st.wr.end() || it->second.size() != sizeof(IpcMsg)) return Finding{"C15", fmt("connection %d: no complete reply", e.a), t};
				IpcMsg m;
				memcpy(&m, it->second.data(), sizeof m);
				int want = e.b;
				if (want < 0) {
					want = IPC_FAIL;
					for (auto &in : st.in) if (in.k == Input::RELOAD) want = IPC_SUCCESS;
				}
				if (m.type == IPC_FAIL && m.type == want && (!m.sz || m.sz >= sizeof m.data || !m.data[0])) return Finding{"C15", fmt("connection %d: the failure is reported without saying what failed", e.a), t};
				if (m.type != want) return Finding{"C15", fmt("connection %d: reply %s, expected %s", e.a, m.type == IPC_SUCCESS ? "success" : "failure", want == IPC_SUCCESS ? "success" : "failure"), t};
			}
		// listeners
		std::map<int, std::string> want;
		std::set<int> reg(st.listeners.begin(), st.listeners.end());
		for (auto &e : w.out) {
			if (e.k == Exp::LINE) for (int c : reg) want[c] += e.s;
			if (e.k == Exp::INIT) {
				want[e.a] += e.s;
				if (!e.b) reg.insert(e.a);
			}
		}
		for (auto &x : st.wr) if (!isrep.count(x.first) && !want.count(x.first)) want[x.first] = "";
		for (auto &x : want) {
			auto it = st.wr.find(x.first);
			std::string got = it == st.wr.end() ? "" : it->second;
			bool gone = st.swerr.count(x.first) || st.closed.count(x.first);
			if (!got.empty()) f.lines++;
			if (got == x.second) continue;
			if (gone && x.second.compare(0, got.size(), got) == 0) continue;
			return Finding{"C16", fmt("listener on connection %d: expected '%s', sent '%s'", x.first, pct(x.second).c_str(), pct(got).c_str()), t};
		}
		// LEDs
		std::map<int, std::vector<std::pair<int, int>>> wl;
		for (auto &e : w.out) if (e.k == Exp::LED) wl[e.a].push_back({e.b, e.c});
		for (auto &x : st.led) wl[x.first];
		for (auto &x : wl) {
			std::vector<Led> none;
			auto it = st.led.find(x.first);
			auto g = it == st.led.end() ? none : it->second;
			// setting a LED again to what it is set to already makes no difference
			auto again = [](auto &v, auto code, auto val) {
				for (size_t i = 0; i < v.size(); i++)
					for (size_t j = i + 1; j < v.size(); j++)
						if (code(v[i]) == code(v[j])) { if (!val(v[i]) == !val(v[j])) { v.erase(v.begin() + j); j--; } else break; }
			};
			again(g, [](const Led &l) { return l.code; }, [](const Led &l) { return l.val; });
			again(x.second, [](const std::pair<int, int> &l) { return l.first; }, [](const std::pair<int, int> &l) { return l.second; });
			bool gone = false;
			for (auto &l : g) gone |= l.err == ENODEV;
			bool ok = gone || g.size() == x.second.size();
			for (size_t i = 0; ok && !gone && i < g.size(); i++) ok = (g[i].code == x.second[i].first && !g[i].val == !x.second[i].second);
			if (!ok) {
				std::string a, b;
				for (auto &v : x.second) a += fmt(" %d=%d", v.first, v.second);
				for (auto &v : g) b += fmt(" %d=%d", v.code, v.val);
				return Finding{"C21", fmt("device %d: LEDs expected to be set:%s; set:%s", x.first, a.c_str(), b.c_str()), t};
			}
			f.leds += g.size();
		}
		return {};
	}

	std::vector<World> worlds;
	ns last_tout = 0;

	// keys which stay down although a clear() ran in this step
	std::string after_clear(const World &before, const World &after, const Step &st)
	{
		bool cleared = false;
		for (size_t i = 0; i < after.kbds.size() && i < before.kbds.size(); i++) cleared |= after.kbds[i].clears != before.kbds[i].clears;
		if (!cleared || !st.complete) return "";
		for (int v = 0; v < 2; v++) {
			auto down = before.down[v];
			for (auto &o : st.outs) if (o.dev == v && o.type == 1 && o.code < 1024) down[o.code] = o.val;
			for (int c = 0; c < 1024; c++) if (down[c] && !after.down[v][c]) return fmt("%s %d remains pressed after clear()", v ? "button" : "key", c);
		}
		return "";
	}
	void run(const FollowOpts &o)
	{
		worlds.clear();
		World w0;
		w0.policy = policy;
		worlds.push_back(w0);
		std::vector<ns> marks;
		for (auto &l : pre.r.log) if (l.kind == L_NOTE && l.s == "marker quiet") marks.push_back(l.t);
		size_t mk = 0;
		auto snap = [&](ns upto) {
			for (; mk < marks.size() && marks[mk] < upto; mk++) {
				Follow::Quiet q = {marks[mk], f.in_sync && !f.gaveup, 0, false};
				if (!worlds.empty()) for (auto &k : worlds[0].kbds) { q.latched |= k.latched_mods(); q.pending |= k.lo != 0; }
				f.quiet.push_back(q);
			}
		};
		for (auto &st : pre.steps) {
			snap(st.tout);
			if (st.fresh) { worlds.assign(1, w0); f.in_sync = true; }
			// time keyd spends outside of poll is not deducted from what it sleeps next
			ns drift = st.startup ? 0 : (st.tin + pre.r.uptime) / MS - (last_tout + pre.r.uptime) / MS;
			last_tout = st.tout;
			if (drift > 0) for (auto &w : worlds) for (auto &k : w.kbds) if (k.lo) k.hi += drift;
			if (!f.in_sync) continue;
			f.steps++;
			f.inputs += st.in.size();
			f.outputs += st.outs.size();
			if (st.T0 == -1) { // still asleep at the end
				bool ok = false;
				std::optional<Finding> bad;
				for (auto &w : worlds) { auto x = sides(w, st, w, o); if (x) bad = x; else ok = true; }
				if (!ok && bad) f.findings.push_back(*bad);
				continue;
			}
			std::vector<World> nw, good;
			std::vector<std::pair<Finding, size_t>> bads;
			std::string why, bestwhy, clearwhy;
			size_t best = 0;
			std::optional<Finding> side;
			std::set<uint64_t> seen;
			for (auto &w : worlds) {
				Chooser ch;
				int cap = 200;
				do {
					ch.pos = 0;
					World x = w;
					x.out.clear();
					std::map<std::pair<int, long>, long> no;
					for (auto &in : st.in) { input(x, in, ch, no); if (giveup) { f.in_sync = false; f.gaveup = true; return; } }
					if (!st.startup) {
						bool timed = false;
						for (auto &in : st.in) timed |= !in.untimed;
						long c = st.T0;
						if (!timed) { x.binding = st.bind0; timers(x, st.T0, std::max(c, st_clock(st)), ch, no); }
					}
					size_t n;
					if (!outs_match(x, st, why, n)) {
						if (bestwhy.empty() || n > best) { best = n; bestwhy = why; clearwhy = after_clear(w, x, st); }
						continue;
					}
					auto sd = sides(x, st, w, o);
					uint64_t h = x.hash() * 2 + !!sd;
					if (!seen.insert(h).second) continue;
					if (sd) { if (!side) side = sd; nw.push_back(std::move(x)); }
					else good.push_back(std::move(x));
				} while (ch.next() && --cap > 0);
				f.branches += ch.script.size();
			}
			if (good.empty() && nw.empty()) {
				f.findings.push_back({"", bestwhy, st.tout});
				if (!clearwhy.empty()) f.findings.push_back({"C01", clearwhy, st.tout});
				f.in_sync = false;
				f.desync = st.tout;
				continue;
			}
			if (good.empty()) {
				if (f.findings.size() < 8) f.findings.push_back(*side);
				good.swap(nw);
			}
			if (good.size() > 64) good.resize(64);
			worlds.swap(good);
			f.maxworlds = std::max<long>(f.maxworlds, worlds.size());
			for (auto &k : worlds[0].kbds) f.states.insert(k.abstract());
		}
		snap(pre.r.end + 1);
		if (f.in_sync && !worlds.empty()) {
			World &w = worlds[0];
			for (auto &k : w.kbds) { f.latched |= k.latched_mods(); f.any_layer |= k.any_layer(); f.pending |= k.lo != 0; }
			for (int d = 0; d < 2; d++) for (int c = 0; c < 1024; c++) if (w.down[d][c]) f.expect_down.push_back(d * 1024 + c);
		}
	}
	long st_clock(const Step &st)
	{
		long c = st.T0;
		for (size_t i = st.from; i < pre.r.log.size(); i++) {
			auto &l = pre.r.log[i];
			if (l.t > st.tend) break;
			if (l.kind == L_CLOCK) c = std::max(c, Pre::clk(l));
		}
		return c;
	}
};
}

Follow follow(const Plan &p, const Result &r, const FollowOpts &o)
{
	Pre pre(p, r);
	pre.run();
	Follow best;
	for (int pol = 0; pol < (o.model ? 3 : 0); pol++) {
		Follow f;
		Runner run(pre, f, pol);
		run.run(o);
		if (pol == 0 || f.findings.size() < best.findings.size() || (f.in_sync && !best.in_sync)) best = f;
		best.policy = pol;
		if (best.findings.empty()) break;
	}
	best.started = pre.started;
	best.ended = pre.ended;
	best.last_reload = pre.last_reload;
	best.loads = pre.loads;
	if (!o.model) best.in_sync = false;
	for (auto &s : pre.steps) for (auto &in : s.in) { if (in.k == Input::REQ) best.requests++; if (in.k == Input::RELOAD) best.reloads++; }
	for (auto &x : pre.f) best.findings.push_back(x);
	return best;
}
}
