#include "plan.h"
#include <termios.h>
#include <algorithm>
#include <cstdlib>
#include <cerrno>
#include <cstdarg>
#include <linux/input.h>

std::string pct(const std::string &s)
{
	if (s.empty()) return "%";
	std::string r;
	for (unsigned char c : s) {
		if (c > 32 && c < 127 && c != '%') r += c;
		else r += fmt("%%%02x", c);
	}
	return r;
}
std::string unpct(const std::string &s)
{
	if (s == "%") return "";
	std::string r;
	for (size_t i = 0; i < s.size(); i++)
		if (s[i] == '%' && i + 2 < s.size()) {
			r += (char)strtol(s.substr(i + 1, 2).c_str(), nullptr, 16);
			i += 2;
		} else
			r += s[i];
	return r;
}
std::vector<std::string> split(const std::string &s, char c)
{
	std::vector<std::string> v;
	std::string t;
	for (char x : s)
		if (x == c) {
			if (!t.empty() || c != ' ') v.push_back(t);
			t.clear();
		} else
			t += x;
	if (!t.empty() || c != ' ') v.push_back(t);
	return v;
}

void Plan::file(const std::string &path, const std::string &txt)
{
	for (auto &f : files) if (f.first == path) { f.second = txt; return; }
	files.push_back({path, txt});
}
void Plan::sort() { std::stable_sort(ops.begin(), ops.end(), [](const Op &a, const Op &b) { return a.us < b.us; }); }

std::string Plan::str() const
{
	std::string r = "# keyd simulation plan (replay with: /verif/check.py replay <this file>)\n";
	r += "prop " + prop + "\n";
	r += "label " + pct(label) + "\n";
	r += fmt("seed %llu\n", (unsigned long long)seed);
	for (auto &x : par) r += fmt("param %s %ld\n", x.first.c_str(), x.second);
	for (auto &f : files) {
		r += "file " + f.first + "\n";
		for (auto &l : split(f.second, '\n')) r += "| " + pct(l) + "\n";
	}
	for (auto &f : ffault)
		for (auto &k : f.second) r += fmt("filefault %s %s %ld\n", f.first.c_str(), k.first.c_str(), k.second);
	for (auto &d : devs) {
		r += fmt("dev %d %s %04x:%04x %s present=%d", d.id, d.caps.c_str(), d.vendor, d.product, pct(d.name).c_str(), d.present);
		for (auto &k : d.f) r += fmt(" %s=%d", k.first.c_str(), k.second);
		r += "\n";
	}
	for (auto &o : ops) {
		r += fmt("@%lld ", (long long)o.us) + o.op;
		for (auto &a : o.a) r += " " + pct(a);
		r += "\n";
	}
	r += fmt("end %lld\n", (long long)end);
	return r;
}

bool Plan::parse(const std::string &txt, Plan &p, std::string &err)
{
	std::string *cur = nullptr;
	bool first = true;
	int ln = 0;
	for (auto &l : split(txt, '\n')) {
		ln++;
		if (l.empty() || l[0] == '#') continue;
		auto t = split(l, ' ');
		if (t.empty()) continue;
		if (t[0] == "|") {
			if (!cur) { err = fmt("line %d: text outside file", ln); return false; }
			if (!first) *cur += "\n";
			*cur += t.size() > 1 ? unpct(t[1]) : "";
			first = false;
			continue;
		}
		cur = nullptr;
		if (t[0] == "prop" && t.size() > 1) p.prop = t[1];
		else if (t[0] == "label") p.label = t.size() > 1 ? unpct(t[1]) : "";
		else if (t[0] == "seed" && t.size() > 1) p.seed = strtoull(t[1].c_str(), nullptr, 10);
		else if (t[0] == "param" && t.size() > 2) p.par[t[1]] = atol(t[2].c_str());
		else if (t[0] == "file" && t.size() > 1) { p.files.push_back({t[1], ""}); cur = &p.files.back().second; first = true; }
		else if (t[0] == "filefault" && t.size() > 3) p.ffault[t[1]][t[2]] = atol(t[3].c_str());
		else if (t[0] == "dev" && t.size() > 4) {
			DevSpec d;
			d.id = atoi(t[1].c_str());
			d.caps = t[2];
			sscanf(t[3].c_str(), "%x:%x", &d.vendor, &d.product);
			d.name = unpct(t[4]);
			for (size_t i = 5; i < t.size(); i++) {
				auto kv = split(t[i], '=');
				if (kv.size() != 2) continue;
				if (kv[0] == "present") d.present = atoi(kv[1].c_str());
				else d.f[kv[0]] = atoi(kv[1].c_str());
			}
			p.devs.push_back(d);
		} else if (t[0][0] == '@' && t.size() > 1) {
			Op o;
			o.us = atoll(t[0].c_str() + 1);
			o.op = t[1];
			for (size_t i = 2; i < t.size(); i++) o.a.push_back(unpct(t[i]));
			p.ops.push_back(o);
		} else if (t[0] == "end" && t.size() > 1) p.end = atoll(t[1].c_str());
		else { err = fmt("line %d: cannot parse '%s'", ln, l.c_str()); return false; }
	}
	return true;
}

// ---------------------------------------------------------------- devices
void device_from_spec(const DevSpec &sp, Device *d)
{
	d->id = sp.id;
	d->name = sp.name;
	d->vendor = sp.vendor;
	d->product = sp.product;
	// part:N a keyboard without key N; one:N a device with that key only; rel:N, abs:N one axis
	size_t colon = sp.caps.find(':');
	std::string sub = sp.caps.substr(0, colon);
	int arg = colon == std::string::npos ? 0 : atoi(sp.caps.c_str() + colon + 1);
	bool kbd = sp.caps == "kbd" || sp.caps == "combo" || sub == "part";
	if (kbd) {
		for (int i = 1; i <= 248; i++) if (i != 84 && i != 195 && i != 196 && i != 197 && i != 198 && i != 199 && !(i >= 200 && i <= 203)) d->keys.insert(i);
		d->keys.insert(200); d->keys.insert(201);
		if (sub == "part") for (int i : {114, 115, 224, 225}) d->keys.erase(i); // (each would make it a keyboard)
		for (int i = 0x1d0; i <= 0x1de; i++) d->keys.insert(i); // fn keys
		d->keys.insert(KEY_ZOOM);
		d->keys.insert(0x1bc); // unsupported by keyd
		for (int i = 0; i < 5; i++) d->leds.insert(i);
		d->rep = true;
	}
	if (sp.caps == "nomod") {
		for (int i = 1; i <= 83; i++) d->keys.insert(i);
		d->leds = {0, 1};
	}
	if (sp.caps == "mouse" || sp.caps == "combo") {
		for (int i = BTN_LEFT; i <= BTN_TASK; i++) d->keys.insert(i);
		d->rel = {REL_X, REL_Y, REL_WHEEL, REL_HWHEEL, 11, 12};
	}
	if (sp.caps == "touchpad") {
		d->keys = {BTN_LEFT, BTN_TOUCH, BTN_TOOL_FINGER};
		d->abs = {ABS_X, ABS_Y, 0x18};
		d->absmin[0] = 0; d->absmax[0] = 4096;
		d->absmin[1] = 0; d->absmax[1] = 2048;
	}
	if (sp.caps == "media") {
		d->keys = {113, 114, 115, 163, 164, 165, 166};
	}
	if (sp.caps == "power") d->keys = {116, 142};
	if (sub == "part") d->keys.erase(arg);
	if (sub == "one") d->keys = {arg};
	if (sub == "rel") { d->keys = {BTN_LEFT}; d->rel = {arg}; }
	if (sub == "abs") { d->keys = {BTN_TOUCH}; d->abs = {arg}; }
	if (sp.caps == "js") {
		d->keys = {0x120, 0x121, 0x122};
		d->abs = {0, 1, 2};
	}
	for (auto &k : sp.f) {
		if (k.first == "f_open") d->f_open = k.second;
		else if (k.first == "f_bits") d->f_bits = k.second;
		else if (k.first == "f_name") d->f_name = k.second;
		else if (k.first == "f_id") d->f_id = k.second;
		else if (k.first == "f_abs") d->f_abs = k.second;
		else if (k.first == "f_grab") d->f_grab = k.second;
		else if (k.first == "f_grab_n") d->f_grab_n = k.second;
		else if (k.first == "f_led") d->f_led = k.second;
		else if (k.first == "f_keyq") d->f_keyq = k.second;
		else if (k.first == "slow_open_ms") d->slow_open = k.second * MS;
		else if (k.first == "norep" && k.second) d->rep = false;
		else if (k.first == "amin0") d->absmin[0] = k.second;
		else if (k.first == "amin1") d->absmin[1] = k.second;
		else if (k.first == "amax0") d->absmax[0] = k.second;
		else if (k.first == "amax1") d->absmax[1] = k.second;
	}
	if (d->f_grab && !d->f_grab_n) d->f_grab_n = -1;
}

int device_caps(const Device *d)
{
	int c = 0;
	int rel = 0, abs = 0;
	for (int r : d->rel) if (r < 8) rel = 1;
	for (int a : d->abs) if (a < 8) abs = 1;
	if (rel || abs) c |= 2;
	if (abs) c |= 4;
	bool full = true;
	for (int k = KEY_1; k <= KEY_0; k++) if (!d->keys.count(k)) full = false;
	for (int k = KEY_Q; k <= KEY_Y; k++) if (!d->keys.count(k)) full = false;
	if (full || d->keys.count(KEY_BRIGHTNESSUP) || d->keys.count(KEY_VOLUMEUP)) c |= 1;
	return c;
}

std::string device_id(const Device *d)
{
	uint32_t n = 0, h = 5183;
	uint8_t rel = 0, abs = 0;
	for (int k : d->keys) if (k < 288) n++;
	for (int r : d->rel) if (r < 8) rel |= 1 << r;
	for (int a : d->abs) if (a < 8) abs |= 1 << a;
	for (int sh = 24; sh >= 0; sh -= 8) h = h * 33 + ((n >> sh) & 0xff);
	h = h * 33 + abs;
	h = h * 33 + rel;
	for (char c : d->name.substr(0, 63)) h = h * 33 + c;
	return fmt("%04x:%04x:%08x", d->vendor, d->product, h);
}

// ---------------------------------------------------------------- execution
namespace {
struct Exec {
	const Plan &p;
	Sim sim;
	std::map<int, Client> cl;
	Result r;
	Exec(const Plan &p_) : p(p_) {}

	int freeinst()
	{
		std::set<int> used;
		for (auto &x : sim.procs) if (x->alive) used.insert(x->inst - &instances[0]);
		for (int i = 0; i < 5; i++) if (!used.count(i)) return i;
		return -1;
	}
	void put(const std::string &path, const std::string &data)
	{
		auto n = std::make_shared<Node>();
		n->data = data;
		auto it = sim.fs.find(path);
		if (it != sim.fs.end()) { n->dtype = it->second->dtype; n->open_errno = it->second->open_errno; n->eio_at = it->second->eio_at; n->isdir = it->second->isdir; }
		sim.fs[path] = n;
	}
	void dir(const std::string &path)
	{
		auto n = std::make_shared<Node>();
		n->isdir = true;
		n->dtype = 4;
		sim.fs[path] = n;
	}
	void client_read(int id)
	{
		Client &c = cl[id];
		if (!c.ep || c.closed) return;
		if (!c.reading) return;
		char b[8192];
		size_t n;
		while ((n = sim.ep_read(c.ep, b, sizeof b))) {
			c.rx.append(b, n);
			c.chunks.push_back({sim.now, std::string(b, n)});
		}
		if (c.ep->rx.empty() && c.ep->peer && (c.ep->peer->closed || c.ep->sk_err) && !c.eof) {
			c.eof = true;
			c.eof_at = sim.now;
			c.reset = c.ep->sk_err != 0;
		}
	}
	void flush(int id)
	{
		Client &c = cl[id];
		if (!c.ep || c.closed || c.pend.empty()) return;
		int e;
		size_t n = sim.ep_write(c.ep, c.pend.data(), c.pend.size(), e);
		if (e && e != EAGAIN) { c.pend.clear(); return; }
		c.pend.erase(0, n);
		if (!c.pend.empty()) sim.after(500 * US, [this, id] { flush(id); });
	}
	void send(int id, const std::string &d)
	{
		Client &c = cl[id];
		if (!c.ep || c.closed) return;
		sim.rec(L_CLISEND, id, d.size());
		bool idle = c.pend.empty();
		c.pend += d;
		if (idle) flush(id);
	}
	void startproc(const std::string &role, std::vector<std::string> argv, int inst)
	{
		if (inst < 0) { sim.rec(L_NOTE, 0, 0, 0, 0, "no free instance"); return; }
		sim.start(inst, role, argv);
	}
	void perform(const Op &o, int idx)
	{
		sim.rec(L_ACT, idx);
		const std::string &k = o.op;
		auto dev = [&](int i) -> Device * { auto it = sim.devs.find(i); return it == sim.devs.end() || it->second->is_virtual ? nullptr : it->second.get(); };
		if (k == "key") { // dev code value [nosyn]
			Device *d = dev(o.i(0));
			if (!d || !d->present) return;
			size_t before = d->vals.size();
			sim.input(d, EV_MSC, 4, o.i(1));
			sim.input(d, EV_KEY, o.i(1), o.i(2));
			(void)before;
			if (o.i(3) == 0) sim.input(d, EV_SYN, 0, 0);
		} else if (k == "raw") { // dev type code val
			Device *d = dev(o.i(0));
			if (d) sim.input(d, o.i(1), o.i(2), o.i(3));
		} else if (k == "syn") {
			Device *d = dev(o.i(0));
			if (d) sim.input(d, EV_SYN, 0, 0);
		} else if (k == "rel" || k == "abs") { // dev code val [code val...]
			Device *d = dev(o.i(0));
			if (!d || !d->present) return;
			for (size_t i = 1; i + 1 < o.a.size(); i += 2) sim.input(d, k == "rel" ? EV_REL : EV_ABS, o.i(i), o.i(i + 1));
			sim.input(d, EV_SYN, 0, 0);
		} else if (k == "plug") {
			Device *d = dev(o.i(0));
			if (d && !d->present) { sim.stat["plug"]++; sim.plug(d); }
		} else if (k == "unplug") {
			Device *d = dev(o.i(0));
			if (d && d->present) { sim.stat["unplug"]++; sim.unplug(d); }
		} else if (k == "devfault") {
			Device *d = dev(o.i(0));
			if (d) {
				DevSpec sp; sp.f[o.s(1)] = o.i(2);
				Device t; device_from_spec(sp, &t);
				if (o.s(1) == "f_open") d->f_open = o.i(2);
				if (o.s(1) == "f_bits") d->f_bits = o.i(2);
				if (o.s(1) == "f_name") d->f_name = o.i(2);
				if (o.s(1) == "f_id") d->f_id = o.i(2);
				if (o.s(1) == "f_abs") d->f_abs = o.i(2);
				if (o.s(1) == "f_grab") { d->f_grab = o.i(2); d->f_grab_n = o.i(3, -1); }
				if (o.s(1) == "f_led") d->f_led = o.i(2);
				if (o.s(1) == "f_keyq") d->f_keyq = o.i(2);
				if (o.s(1) == "slow_open_ms") d->slow_open = o.i(2) * MS;
			}
		} else if (k == "stall") { // us [role]
			Proc *pr = sim.find(o.a.size() > 1 ? o.s(1) : "daemon");
			if (pr) { sim.stat["stall"]++; pr->stall_until = std::max(pr->stall_until, sim.now + o.i(0) * US); pr->stalled_total += o.i(0) * US; }
		} else if (k == "conn") {
			int id = o.i(0);
			Client &c = cl[id];
			if (c.ep) return;
			c.id = id;
			int e = 0;
			c.ep = sim.client_connect(e);
			c.err = e;
			c.conn_at = sim.now;
			if (!c.ep) { c.refused = true; sim.stat["conn_refused"]++; return; }
			c.conn = c.ep->conn;
			sim.stat["client_connect"]++;
			c.ep->on_readable = [this, id] { client_read(id); };
			c.ep->on_close = [this, id] {
				client_read(id);
				Client &c2 = cl[id];
				if (c2.reading && !c2.eof) { c2.eof = true; c2.eof_at = sim.now; }
			};
		} else if (k == "req") { // client type timeout data [cut:delay...]
			IpcMsg m;
			memset(&m, 'Z', sizeof m);
			m.type = o.i(1);
			m.timeout = o.i(2);
			const std::string &d = o.s(3);
			m.sz = std::min<size_t>(d.size(), sizeof m.data - 1);
			memcpy(m.data, d.data(), m.sz);
			std::string b((char *)&m, sizeof m);
			size_t pos = 0;
			ns at = 0;
			int id = o.i(0);
			for (size_t i = 4; i < o.a.size(); i++) {
				auto f = split(o.a[i], ':');
				if (f.size() != 2) continue;
				size_t cut = std::min<size_t>(atoi(f[0].c_str()), b.size());
				if (cut <= pos) continue;
				std::string part = b.substr(pos, cut - pos);
				pos = cut;
				if (at == 0) send(id, part);
				else sim.after(at, [this, id, part] { send(id, part); });
				at += atoi(f[1].c_str()) * US;
				sim.stat["fragmented_request"]++;
			}
			std::string part = b.substr(pos);
			if (at == 0) send(id, part);
			else sim.after(at, [this, id, part] { send(id, part); });
		} else if (k == "send") {
			send(o.i(0), o.s(1));
		} else if (k == "recvoff") { cl[o.i(0)].reading = false; }
		else if (k == "recvon") { cl[o.i(0)].reading = true; client_read(o.i(0)); }
		else if (k == "cclose") {
			Client &c = cl[o.i(0)];
			if (c.ep && !c.closed) { sim.rec(L_CLICLOSE, o.i(0)); c.closed = true; c.ep->on_readable = nullptr; c.ep->on_close = nullptr; sim.ep_close(c.ep); sim.stat["client_close"]++; }
		} else if (k == "cshut") {
			Client &c = cl[o.i(0)];
			if (c.ep && !c.closed) { c.ep->shut_wr = true; c.shut = true; sim.stat["client_shutdown"]++; sim.kick(); }
		} else if (k == "start") {
			std::vector<std::string> av{"keyd"};
			startproc(o.s(0), av, p.p("gadget") ? 5 : freeinst());
		} else if (k == "cli") { // role stdin args...
			std::vector<std::string> av{"keyd"};
			for (size_t i = 2; i < o.a.size(); i++) av.push_back(o.a[i]);
			int in = freeinst();
			if (in < 0) return;
			Proc *pr = sim.start(in, o.s(0), av);
			pr->stdin_data = o.s(1);
			if (p.p("tty") && o.s(0) == "monitor") {
				pr->tty = true;
				pr->stdout_pipe = false;
				pr->tty_lflag = ISIG | ICANON | ECHO | ECHOE | IEXTEN;
				pr->tty_in = std::string(p.p("tty_in"), 'k');
				if (p.p("tty_nl")) pr->tty_in += "\nk";
			}
			if (p.p("cli_frag")) { Rng g(p.p("cli_frag")); size_t left = pr->stdin_data.size(); while (left) { size_t n = g.range(1, 700); if (n > left) n = left; pr->stdin_frag.push_back(n); left -= n; } }
			if (p.p("cli_stdin_err")) pr->stdin_err = p.p("cli_stdin_err");
			sim.stat["cli_run"]++;
		} else if (k == "sig") {
			Proc *pr = sim.find(o.s(0));
			if (pr) { sim.stat["signal"]++; sim.kill(pr, o.i(1)); }
		} else if (k == "kill9") {
			Proc *pr = sim.find(o.s(0));
			if (pr) { sim.stat["kill9"]++; sim.kill(pr, 9); }
		} else if (k == "kill9sys") { // role n [nth start]
			Proc *pr = sim.find(o.s(0));
			if (pr) pr->kill_at_sys = pr->nsys + std::max(1, o.i(1));
		} else if (k == "sigsys") { // role signal n
			Proc *pr = sim.find(o.s(0));
			if (pr) { pr->sig_nr = o.i(1); pr->sig_at_sys = pr->nsys + std::max(1, o.i(2)); }
		} else if (k == "spurious") {
			Proc *pr = sim.find(o.a.empty() ? "daemon" : o.s(0));
			if (pr) { pr->uspin = 1; sim.kick(); }
		} else if (k == "write") { put(o.s(0), o.s(1)); sim.stat["file_write"]++; }
		else if (k == "rm") sim.fs.erase(o.s(0));
		else if (k == "filefault") {
			auto it = sim.fs.find(o.s(0));
			if (it != sim.fs.end()) {
				if (o.s(1) == "open_errno") it->second->open_errno = o.i(2);
				if (o.s(1) == "eio_at") it->second->eio_at = o.i(2);
				if (o.s(1) == "isdir") { it->second->isdir = o.i(2); it->second->dtype = o.i(2) ? 4 : 8; }
				if (o.s(1) == "dtype") it->second->dtype = o.i(2);
			}
		} else if (k == "led") {
			Device *v = sim.vdev(0);
			if (v) { sim.led_from_desktop(v, o.i(0), o.i(1)); sim.stat["desktop_led"]++; }
		} else if (k == "devled") { // dev code val: somebody else sets a light of a device
			Device *d = dev(o.i(0));
			if (d && d->present) { sim.led_from_desktop(d, o.i(1), o.i(2)); sim.stat["device_led"]++; }
		} else if (k == "clockjump") { sim.real_skew += (int64_t)o.i(0) * MS; sim.stat["wallclock_jump"]++; }
		else if (k == "hidstall") hidstall.push_back({sim.now, sim.now + o.i(0) * US});
		else if (k == "fault") { // call nth count errno role
			SysFault f;
			f.call = o.s(0); f.nth = o.i(1); f.count = o.i(2); f.err = o.i(3);
			if (o.a.size() > 4) f.role = o.s(4);
			sim.faults.push_back(f);
		} else if (k == "faultclear") { sim.faults.clear();
		} else if (k == "stdoutclose") {
			Proc *pr = sim.find(o.s(0));
			if (pr) { pr->stdout_closed = true; sim.stat["pipe_closed"]++; sim.kick(); }
		} else if (k == "killkids") {
			for (auto &c : sim.kids) if (c.alive) { c.alive = false; for (auto &x : c.fds) sim.unref(x.second.o, nullptr); c.fds.clear(); }
			sim.kick();
		} else if (k == "probe") probe();
		else if (k == "marker") sim.rec(L_NOTE, 0, 0, 0, 0, "marker " + o.s(0));
		else sim.rec(L_NOTE, 0, 0, 0, 0, "unknown op " + k);
	}
	static std::vector<std::string> fdlist(Proc *pr)
	{
		std::vector<std::string> v;
		for (auto &x : pr->fds) {
			Ofd *f = x.second.o.get();
			std::string s;
			switch (f->kind) {
			case O_EVDEV: s = fmt("evdev%d%s", f->dev->id, f->cl->dead ? "(gone)" : ""); break;
			case O_UINPUT: s = "uinput"; break;
			case O_INOTIFY: s = "inotify"; break;
			case O_LISTEN: s = "listen"; break;
			case O_UNBOUND: s = "socket"; break;
			case O_CONN: s = fmt("conn%d%s", f->ep ? f->ep->conn : -1, f->ep && f->ep->peer && f->ep->peer->closed ? "(dead)" : ""); break;
			case O_REG: s = "file:" + f->path; break;
			case O_NULL: s = "null" + f->path; break;
			case O_HIDG: s = "hidg"; break;
			default: s = "std";
			}
			v.push_back(s);
		}
		return v;
	}
	void probe()
	{
		Proc *pr = sim.find("daemon");
		if (!pr) return;
		Result::Probe b;
		b.t = sim.now;
		b.fds = fdlist(pr);
		b.live = pr->heap.live; b.nlive = pr->heap.nlive;
		b.zombies = pr->nchildren_zombie;
		for (auto &d : sim.devs) if (!d.second->is_virtual) { b.grabbed[d.first] = d.second->grab != nullptr; if (d.second->present) b.present.insert(d.first); }
		r.probes.push_back(b);
	}
	void go()
	{
		S = &sim;
		Params &q = sim.prm;
		q.jseed = p.p("jseed", 1);
		sim.rng = Rng(q.jseed);
		q.uptime = p.p("uptime_ms", 100000) * MS + p.p("uptime_us", 0) * US;
		q.cost_lo = p.p("cost_lo", 1000); q.cost_hi = p.p("cost_hi", 4000);
		q.wake_lo = p.p("wake_lo", 5000); q.wake_hi = p.p("wake_hi", 60000);
		q.debug = (int)p.p("debug", 0);
		q.slow_pm = p.p("slow_pm", 0); q.slow_us = p.p("slow_us", 1500);
		q.sndbuf = p.p("sndbuf", 212992);
		q.cmd_ms = p.p("cmd_ms", 50);
		q.nofile = p.p("nofile", 1024);
		sim.hid_max = p.p("hid_max", 4);
		sim.short_rd = p.p("short_rd");
		sim.short_wr = p.p("short_wr");
		if (p.p("maxsteps")) sim.maxsteps = p.p("maxsteps");
		for (const char *d : {"/etc", "/etc/keyd", "/usr", "/usr/local", "/usr/local/share", "/usr/local/share/keyd", "/usr/share", "/usr/share/keyd", "/var", "/var/run", "/dev", "/dev/input", "/tmp"}) dir(d);
		if (p.p("noconfdir")) sim.fs.erase("/etc/keyd");
		for (auto &f : p.files) put(f.first, f.second);
		for (auto &f : p.ffault)
			for (auto &k : f.second) {
				auto it = sim.fs.find(f.first);
				if (it == sim.fs.end()) continue;
				if (k.first == "open_errno") it->second->open_errno = k.second;
				if (k.first == "eio_at") it->second->eio_at = k.second;
				if (k.first == "isdir") { it->second->isdir = k.second; it->second->dtype = 4; }
				if (k.first == "dtype") it->second->dtype = k.second;
			}
		for (auto &sp : p.devs) {
			auto d = std::make_unique<Device>();
			device_from_spec(sp, d.get());
			Device *dp = d.get();
			sim.devs[sp.id] = std::move(d);
			if (sp.present) sim.plug(dp);
		}
		for (size_t i = 0; i < p.ops.size(); i++) {
			const Op *o = &p.ops[i];
			sim.at(o->us * US, [this, o, i] { perform(*o, i); });
		}
		if (p.p("hid_poll_us")) hidpoll(p.p("hid_poll_us") * US);
		sim.run(p.end * US);
		finish();
	}
	std::vector<std::pair<ns, ns>> hidstall;
	void hidpoll(ns period)
	{
		sim.after(period, [this, period] {
			for (auto &x : hidstall) if (sim.now >= x.first && sim.now < x.second) return hidpoll(period); // the host does not poll
			if (sim.hid_depth > 0) { sim.hid_depth--; sim.kick(); }
			hidpoll(period);
		});
	}
	void finish()
	{
		// a client that reads late
		for (auto &c : cl) client_read(c.first);
		r.clients = cl;
		r.hash = sim.hash;
		r.log = std::move(sim.log);
		r.crashed = sim.crash.set;
		r.crash = sim.crash.what;
		r.crash_proc = sim.crash.proc;
		r.runaway = sim.runaway;
		r.stat = sim.stat;
		r.steps = sim.nsteps;
		r.end = sim.now;
		r.uptime = sim.prm.uptime;
		r.kviol = sim.viol;
		r.hid = sim.hidreports;
		for (auto &x : sim.procs) {
			Result::PR q;
			q.role = x->role; q.alive = x->alive; q.code = x->exit_code; q.reason = x->exit_reason;
			q.out = x->out; q.errout = x->errout; q.zombies = x->nchildren_zombie;
			q.live = x->heap.live; q.nlive = x->heap.nlive; q.peak = x->heap.peak;
			q.fds = fdlist(x.get());
			q.stalled = x->stalled_total;
			q.inst = x->inst - &instances[0];
			r.procs.push_back(q);
			if (x->tty) {
				r.tty.used = true;
				r.tty.lflag = x->tty_lflag;
				r.tty.echo = x->tty_echo;
				r.tty.flags = x->tty_ofd ? x->tty_ofd->flags : 0;
				r.tty.left = x->tty_in.size();
			}
			if (x->role == "daemon" && x->alive && x->blocked_since < 0) r.blocked = true;
			if (x->role != "daemon" && x->alive)
				for (auto &fd : x->fds) {
					Ofd *o = fd.second.o.get();
					if (o->kind != O_EVDEV || !o->cl || o->cl->dead) continue;
					r.popened[x->role].insert(o->dev->id);
					if (o->cl->ready() && sim.now - o->cl->pushed > 20 * MS) r.unread[o->dev->id]++;
				}
			if (x->role == "daemon" && x->alive)
				for (auto &fd : x->fds) {
					Ofd *o = fd.second.o.get();
					if (o->kind != O_EVDEV || !o->cl || o->cl->dead) continue;
					r.opened.insert(o->dev->id);
					if (o->cl && o->cl->ready() && sim.now - o->cl->pushed > 20 * MS) r.unread[o->dev->id]++;
				}
		}
		for (auto &c : sim.kids) r.kids.push_back({c.cmd, c.alive});
		for (auto &d : sim.devs) {
			r.devinfo[d.first] = {device_id(d.second.get()), d.second->name.substr(0, 63), device_caps(d.second.get()), d.second->is_virtual};
			if (d.second->is_virtual) {
				if (d.second->present) for (int c : d.second->down) r.vdown[d.second->vkind].insert(c);
				continue;
			}
			r.devid[d.first] = device_id(d.second.get());
			r.devcap[d.first] = device_caps(d.second.get());
			if (d.second->present) r.pdown[d.first] = d.second->down;
			r.grabbed[d.first] = d.second->present && d.second->grab;
			r.present[d.first] = d.second->present;
		}
		for (auto &c : r.clients) { c.second.ep = nullptr; }
	}
};
}

Result execute(const Plan &p)
{
	Exec *e = new Exec(p);
	e->go();
	Result r = std::move(e->r);
	delete e;
	S = nullptr;
	return r;
}

std::string dump_log(const Result &r, size_t from)
{
	std::string o;
	for (size_t i = from; i < r.log.size(); i++) {
		auto &l = r.log[i];
		o += fmt("%10.3f p%d %-8s %d %d %d %d", l.t / 1e6, l.proc, log_names[l.kind], l.a, l.b, l.c, l.d);
		if (!l.s.empty()) o += fmt(" #%x ", (unsigned)fnv(7, l.s.data(), l.s.size())) + pct(l.s.substr(0, 300));
		o += "\n";
	}
	return o;
}
