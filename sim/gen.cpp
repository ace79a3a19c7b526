// Seeded generators: a seed becomes one explicit plan (configs, devices, timed actions, faults).
#include "gen.h"
#include <algorithm>
#include <dirent.h>
#include <fstream>
#include <sstream>
extern "C" const char *sim_repo_dir;

namespace {
using S_ = std::string;
using VS = std::vector<std::string>;

const VS LETTERS = {"a", "s", "d", "f", "g", "h", "j", "k", "l", "q", "w", "e", "r", "t", "y", "u", "i", "o", "p", "z", "x", "c", "v", "b", "n", "m"};
const VS SPECIAL = {"capslock", "tab", "space", ";", "'", "f1", "f2", "f3", "f4", "1", "2", "3", "leftcontrol", "rightalt", "leftalt", "leftmeta", "rightcontrol", "102nd", "compose", "home", "end", "delete"};
const VS MODK = {"leftshift", "leftcontrol", "leftalt", "leftmeta", "rightalt", "rightshift"};
const VS OUTK = {"a", "b", "z", "1", "9", "esc", "left", "right", "home", "f5", "delete", "volumeup", "kp7", "grave", "S-a", "C-c", "A-f4", "M-x", "G-e", "C-S-t", "A-C-left", "!", "A", "Z", "?", "leftshift", "rightmouse", "zoom", "voicecommand", "102nd", "f20"};
const VS UNI = {"é", "ß", "ñ", "ü", "€", "ø", "¡", "å"};

int kc(const S_ &n)
{
	int c = M::key_by_name(n);
	if (!c) fprintf(stderr, "gen: no key '%s'\n", n.c_str());
	auto e = M::keyd_to_evdev(c);
	return e.second;
}

struct CG {
	Rng &g;
	std::vector<std::pair<S_, int>> ops;
	VS layers, layouts, comps;
	std::map<S_, S_> mods;
	VS keys;                 // physical keys in play
	VS chordlines;
	std::set<S_> bound;
	std::vector<long> thr;   // thresholds (ms)
	int tlo = 20, thi = 250, rephi = 120;
	bool plainmacro = false;
	bool delays = true;
	int ncmd = 0;
	S_ cmdsuffix;
	std::vector<S_> commands;
	explicit CG(Rng &r) : g(r) {}

	long T()
	{
		long t = !thr.empty() && g.chance(40) ? g.pick(thr) : g.range(tlo, thi);
		if (std::find(thr.begin(), thr.end(), t) == thr.end()) thr.push_back(t);
		return t;
	}
	S_ layer() { return !comps.empty() && g.chance(5) ? g.pick(comps) : g.pick(layers); }
	S_ keyseq()
	{
		static const S_ m[] = {"C-", "S-", "A-", "M-", "G-"};
		S_ s;
		if (g.chance(35)) s += m[g.range(0, 4)];
		if (g.chance(12)) { S_ n = m[g.range(0, 4)]; if (n != s) s += n; }
		if (s.empty() && g.chance(40)) return g.pick(OUTK);
		return s + g.pick(LETTERS);
	}
	S_ macrotext()
	{
		S_ s;
		int n = (int)g.range(1, g.chance(15) ? 20 : 5);
		for (int i = 0; i < n; i++) {
			if (i) s += " ";
			switch (g.range(0, plainmacro ? 2 : 7)) {
			case 0: s += g.pick(LETTERS); break;
			case 1: s += keyseq(); break;
			case 2: s += g.pick(VS{"esc", "tab", "f5", "1", "home", "enter", "space"}); break;
			case 3: s += g.pick(VS{"leftshift", "leftcontrol", "leftalt", "q"}) + "+" + g.pick(LETTERS); break;
			case 4: if (delays) s += g.pick(VS{"", "", "", "", "", "", "0", "00"}) + std::to_string(g.range(g.chance(10) ? 0 : 1, 30)) + "ms"; else s += g.pick(LETTERS); break;
			case 5: s += g.pick(VS{"Hi", "abc", "xY1", "Hi", "abc", "2m", "5mx", "7s", "3msx", "ms"}); break;
			case 6: s += g.pick(UNI); break;
			case 7: s += g.pick(LETTERS) + "+" + g.pick(LETTERS) + "+" + (delays && g.chance(30) ? S_("5ms+") : S_("")) + g.pick(LETTERS); break;
			}
		}
		return s;
	}
	S_ macroarg() { return g.chance(50) ? keyseq() : "macro(" + macrotext() + ")"; }
	S_ leaf()
	{
		switch (g.range(0, 9)) {
		case 0: return g.pick(VS{"noop", "leftshift", "f20"});
		case 1: return g.pick(OUTK);
		case 2: case 3: return keyseq();
		default: return g.pick(LETTERS);
		}
	}
	// every run favours a few kinds of actions and nests them more or less
	bool swarmed = false;
	int leafpct = 70, seqpct = 0;
	void swarm()
	{
		if (swarmed) return;
		swarmed = true;
		if (!g.chance(50)) return;
		leafpct = (int)g.range(20, 80);
		seqpct = (int)g.range(0, 40);
		static const int f[] = {0, 0, 1, 1, 2, 6};
		for (auto &o : ops) {
			int m = f[g.range(0, 5)];
			if (!m && (o.second >= 8 || o.first == "key")) m = 1;
			o.second *= m;
		}
	}
	S_ action(int depth = 0)
	{
		int tot = 0;
		for (auto &o : ops) tot += o.second;
		int v = (int)g.range(0, tot - 1);
		S_ op;
		for (auto &o : ops) if ((v -= o.second) < 0) { op = o.first; break; }
		if (op == "key") return leaf();
		if (op == "layer") return "layer(" + layer() + ")";
		if (op == "oneshot") return "oneshot(" + layer() + ")";
		if (op == "toggle") return "toggle(" + layer() + ")";
		if (op == "swap") return "swap(" + layer() + ")";
		if (op == "layerm") return "layerm(" + layer() + ", " + macroarg() + ")";
		if (op == "oneshotm") return "oneshotm(" + layer() + ", " + macroarg() + ")";
		if (op == "togglem") return "togglem(" + layer() + ", " + macroarg() + ")";
		if (op == "swapm") return "swapm(" + layer() + ", " + macroarg() + ")";
		if (op == "clear") return "clear()";
		if (op == "clearm") return "clearm(" + macroarg() + ")";
		if (op == "setlayout") return "setlayout(" + (layouts.empty() || g.chance(25) ? S_("main") : g.pick(layouts)) + ")";
		if (op == "macro") return "macro(" + (g.chance(seqpct) ? keyseq() : macrotext()) + ")";
		if (op == "macro2") return "macro2(" + std::to_string(T()) + ", " + std::to_string(g.range(15, rephi)) + ", macro(" + macrotext() + "))";
		if (op == "command") { S_ c = "run " + std::to_string(ncmd++) + cmdsuffix; commands.push_back(c); return "command(" + c + ")"; }
		if (op == "scroll") return "scroll(" + std::to_string(g.range(1, 30)) + ")";
		if (op == "scrollt") return "scrollt(" + std::to_string(g.range(1, 30)) + ")";
		auto sub = [&] { return depth > 1 || g.chance(leafpct) ? leaf() : action(depth + 1); };
		if (op == "overload") return "overload(" + layer() + ", " + sub() + ")";
		if (op == "overloadt") return "overloadt(" + layer() + ", " + sub() + ", " + std::to_string(T()) + ")";
		if (op == "overloadt2") return "overloadt2(" + layer() + ", " + sub() + ", " + std::to_string(T()) + ")";
		if (op == "overloadi") return "overloadi(" + leaf() + ", " + sub() + ", " + std::to_string(T()) + ")";
		if (op == "lettermod") return "lettermod(" + layer() + ", " + g.pick(LETTERS) + ", " + std::to_string(T()) + ", " + std::to_string(T()) + ")";
		if (op == "timeout") return "timeout(" + sub() + ", " + std::to_string(T()) + ", " + sub() + ")";
		return "noop";
	}
	void mklayers(int n, int ncomp, int nlay)
	{
		static const VS names = {"nav", "sym", "num", "fn", "ext"};
		static const VS ms = {"", "C", "S", "A", "M", "G", "C-S", "A-C", "C-A-M"};
		for (int i = 0; i < n; i++) {
			layers.push_back(i < (int)names.size() ? names[i] : "l" + std::to_string(i));
			if (g.chance(55)) mods[layers.back()] = g.pick(ms);
		}
		for (const char *b : {"shift", "control", "alt", "meta", "altgr"})
			if (g.chance(35)) layers.push_back(b);
		for (int i = 0; i < ncomp && layers.size() > 1; i++) {
			S_ a = g.pick(layers), b = g.pick(layers);
			if (a == b) continue;
			S_ c = a + "+" + b;
			if (layers.size() > 2 && g.chance(20)) { S_ d = g.pick(layers); if (d != a && d != b) c += "+" + d; }
			if (std::find(comps.begin(), comps.end(), c) == comps.end()) comps.push_back(c);
		}
		for (int i = 0; i < nlay; i++) layouts.push_back(g.chance(15) ? (i ? "w" : "v") : i ? "colemak" : "dvorak");
	}
	void pickkeys(int nspec, int nletters)
	{
		VS s = SPECIAL, l = LETTERS;
		for (int i = 0; i < nspec && !s.empty(); i++) { size_t k = g.next() % s.size(); keys.push_back(s[k]); s.erase(s.begin() + k); }
		for (int i = 0; i < nletters && !l.empty(); i++) { size_t k = g.next() % l.size(); keys.push_back(l[k]); l.erase(l.begin() + k); }
	}
	S_ rhs() { return action(); }
	S_ section(const S_ &name, int n, int actpct)
	{
		S_ t = "[" + name + "]\n";
		std::set<S_> used;
		for (int i = 0; i < n; i++) {
			S_ k = g.pick(keys);
			if (!used.insert(k).second) continue;
			bound.insert(k);
			t += k + " = " + (g.chance(actpct) ? action() : leaf()) + "\n";
		}
		return t;
	}
	S_ chords(int n, int maxlen)
	{
		S_ t;
		for (int i = 0; i < n; i++) {
			int len = (int)g.range(2, maxlen);
			VS c;
			for (int j = 0; j < len; j++) { S_ k = g.pick(keys); if (std::find(c.begin(), c.end(), k) == c.end()) c.push_back(k); }
			if (c.size() < 2) continue;
			S_ s;
			for (auto &k : c) { s += (s.empty() ? "" : "+") + k; bound.insert(k); }
			t += s + " = " + (g.chance(40) ? action() : leaf()) + "\n";
		}
		return t;
	}
	S_ globals(std::vector<std::pair<S_, S_>> v)
	{
		if (v.empty()) return "";
		S_ t = "[global]\n";
		for (auto &x : v) t += x.first + " = " + x.second + "\n";
		return t;
	}
	// main: every special key gets an action
	S_ body(int nmain, int nlayer, int actpct, int layeractpct, int nch = 0, int chmax = 3)
	{
		swarm();
		S_ t = "[main]\n";
		std::set<S_> used;
		for (int i = 0; i < nmain && i < (int)keys.size(); i++) {
			S_ k = keys[i];
			used.insert(k);
			bound.insert(k);
			t += k + " = " + (g.chance(actpct) ? action() : leaf()) + "\n";
		}
		if (nch) t += chords(nch, chmax);
		for (auto &l : layers) {
			S_ h = l;
			if (mods.count(l) && !mods[l].empty()) h += ":" + mods[l];
			bool builtin = l == "shift" || l == "control" || l == "alt" || l == "meta" || l == "altgr";
			t += section(builtin ? l : h, (int)g.range(1, nlayer), layeractpct);
			if (nch && g.chance(30)) t += chords(1, chmax);
		}
		for (auto &c : comps) t += section(c, (int)g.range(1, nlayer), layeractpct / 2);
		for (auto &l : layouts) t += section(l + ":layout", nlayer, layeractpct);
		return t;
	}
};

struct Gen {
	Rng g;
	Plan p;
	std::vector<long> thr;
	int64_t t = 60000;        // us
	struct Kb { int dev; std::vector<int> keys, plain; };
	std::vector<Kb> kbs;
	std::map<std::pair<int, int>, bool> held;
	int maxheld = 7;
	int client = 1;
	int style = 0;
	uint64_t seed = 0;

	Gen(const S_ &prop, uint64_t seed) : g(seed)
	{
		p.prop = prop;
		p.seed = seed;
		p.par["jseed"] = (long)(g.next() % 1000000000);
		if (p.par["jseed"] % 10 == 7) p.par["debug"] = 1 + p.par["jseed"] / 10 % 2;
		if (g.chance(25)) { p.par["slow_pm"] = g.range(1, 20); p.par["slow_us"] = g.range(100, 3000); }
		if (g.chance(20)) p.par["wake_hi"] = g.range(200, 900);
		int u = (int)g.range(0, 9);
		if (u == 0) p.par["uptime_ms"] = 2147483647L - g.range(0, 4000);
		else if (u == 1) p.par["uptime_ms"] = 4294967295L - g.range(0, 4000);
		else if (u == 2) p.par["uptime_ms"] = g.range(1, 300);
		else if (u == 3) p.par["uptime_ms"] = g.range(86400000L, 86400000L * 3000);
		else p.par["uptime_ms"] = g.range(5000, 1000000);
		p.par["uptime_us"] = g.range(0, 999);
		style = (int)g.range(0, 4);
	}
	void dev(int id, const S_ &caps, int product, bool present = true, const S_ &name = "")
	{
		DevSpec d;
		d.id = id;
		d.caps = caps;
		d.vendor = 0x1234;
		d.product = product;
		d.name = name.empty() ? caps + std::to_string(id) : name;
		d.present = present;
		p.devs.push_back(d);
	}
	void kb(int id, const CG &c, int nplain = 3)
	{
		Kb k;
		k.dev = id;
		for (auto &s : c.keys) k.keys.push_back(kc(s));
		VS all = LETTERS;
		for (int i = 0; i < nplain; i++) k.plain.push_back(kc(g.pick(all)));
		if (g.chance(30)) k.plain.push_back(kc(g.pick(MODK)));
		kbs.push_back(k);
	}
	int64_t gap()
	{
		int r = (int)g.range(0, 99);
		static const int W[5][5] = {{15, 25, 30, 20, 10}, {40, 30, 20, 10, 0}, {5, 15, 55, 20, 5}, {10, 60, 10, 15, 5}, {5, 15, 30, 30, 20}};
		const int *w = W[style];
		if ((r -= w[0]) < 0) return g.range(0, 1500);
		if ((r -= w[1]) < 0) return g.range(2000, 30000);
		if ((r -= w[2]) < 0) {
			if (thr.empty()) return g.range(10000, 120000);
			long x = g.pick(thr) * 1000 + g.range(-4000, 4000);
			return std::max<int64_t>(0, x);
		}
		if ((r -= w[3]) < 0) return g.range(30000, 200000);
		return g.range(200000, 500000);
	}
	void ev(int dev, int code, int v)
	{
		p.add(t, "key", A(dev, code, v));
		if (v) held[{dev, code}] = true; else held.erase({dev, code});
	}
	// presses and releases on random keyboards
	void keys(int n, int plainpct = 25)
	{
		for (int i = 0; i < n; i++) {
			t += gap();
			bool release = !held.empty() && ((int)held.size() >= maxheld || g.chance(held.size() > 3 ? 60 : 45));
			if (release) {
				auto it = held.begin();
				std::advance(it, g.next() % held.size());
				auto k = it->first;
				ev(k.first, k.second, 0);
			} else {
				auto &k = g.pick(kbs);
				int c = !k.plain.empty() && g.chance(plainpct) ? g.pick(k.plain) : g.pick(k.keys);
				if (held.count({k.dev, c})) { ev(k.dev, c, 0); continue; }
				ev(k.dev, c, 1);
				if (g.chance(45)) { t += gap(); ev(k.dev, c, 0); i++; }
			}
		}
	}
	// more events than the kernel keeps, while nobody reads them: keys go down and up unseen
	void flood(const char *who)
	{
		auto k = g.pick(kbs);
		// (a mouse loses events like any other device)
		int mouse = -1;
		for (auto &d : p.devs) if (d.caps == "mouse") mouse = d.id;
		bool m = mouse >= 0 && g.chance(35);
		if (m) { k.dev = mouse; k.keys = k.plain = {0x110, 0x111, 0x112, 0x113, 0x114}; }
		for (int i = (int)g.range(0, 3); i-- > 0;) { int c = g.pick(k.keys.empty() || g.chance(40) ? (k.plain.empty() ? k.keys : k.plain) : k.keys); if (!held.count({k.dev, c}) && (int)held.size() < maxheld) { ev(k.dev, c, 1); t += g.range(500, 90000); } }
		long us = g.range(30000, 150000);
		p.add(t, "stall", A(us, who));
		int64_t end = t + us - 1000;
		t += 300;
		int n = (int)g.range(18, 70);
		int64_t d = (end - t) / (n + 1);
		for (int i = 0; i < n; i++) {
			if (m && g.chance(50)) { p.add(t, "rel", A(mouse, g.range(0, 1), g.range(-9, 9))); t += d; continue; }
			std::vector<int> down;
			for (auto &h : held) if (h.first.first == k.dev) down.push_back(h.first.second);
			if (!down.empty() && ((int)held.size() >= maxheld || g.chance(down.size() > 2 ? 60 : 48))) ev(k.dev, g.pick(down), 0);
			else {
				int c = k.keys.empty() || (!k.plain.empty() && g.chance(50)) ? g.pick(k.plain) : g.pick(k.keys);
				ev(k.dev, c, !held.count({k.dev, c}));
			}
			t += d;
		}
		t = end + 1000 + g.range(1000, 60000);
	}
	void tapn(int dev, int code) { ev(dev, code, 1); t += g.range(1000, 20000); ev(dev, code, 0); }
	void release_all()
	{
		while (!held.empty()) {
			t += gap();
			auto it = held.begin();
			std::advance(it, g.next() % held.size());
			auto k = it->first;
			ev(k.first, k.second, 0);
		}
	}
	void release_dev(int d)
	{
		std::vector<std::pair<int, int>> v;
		for (auto &h : held) if (h.first.first == d) v.push_back(h.first);
		for (auto &x : v) { t += g.range(100, 5000); ev(x.first, x.second, 0); }
	}
	void forget_dev(int d) { for (auto it = held.begin(); it != held.end();) if (it->first.first == d) it = held.erase(it); else ++it; }
	void finish(int64_t quiet_ms = 1500)
	{
		release_all();
		p.end = t + quiet_ms * 1000;
		p.sort();
	}
	void start() { p.add(0, "start", A("daemon")); }
	int req(int64_t at, int type, const S_ &data, long timeout = 0, VS frag = {})
	{
		int c = client++;
		p.add(at, "conn", A(c));
		VS a = A(c, type, timeout, data);
		for (auto &f : frag) a.push_back(f);
		p.add(at + g.range(0, 300), "req", a);
		return c;
	}
	int64_t when() { return g.range(60000, std::max<int64_t>(t, 61000)); }

	// unrelated activity which must not change anything (call after the keys were laid out)
	void noise(int n, int mouse, bool clients, bool leds, bool hot, int stalls_ms)
	{
		for (int i = 0; i < n; i++) {
			int64_t at = when();
			switch (g.range(0, 7)) {
			case 0: case 1:
				if (mouse >= 0) for (int k = (int)g.range(1, 6); k-- > 0;) { p.add(at, "rel", A(mouse, g.chance(50) ? 0 : 1, g.range(-9, 9))); at += g.range(500, 8000); }
				break;
			case 2: p.add(at, "spurious", A("daemon")); break;
			case 3: if (leds) p.add(at, "led", A(g.range(0, 2), g.range(0, 1))); break;
			case 4:
				if (clients) {
					int c = client++;
					p.add(at, "conn", A(c));
					if (g.chance(50)) p.add(at + g.range(0, 2000), "cclose", A(c));
					else p.add(at + g.range(0, 500), "req", A(c, 77, 0, "x"));
				}
				break;
			case 5:
				if (hot) { int d = 90 + (int)g.range(0, 1); p.add(at, "plug", A(d)); p.add(at + g.range(500, 60000), "unplug", A(d)); }
				break;
			case 6: p.add(at, "clockjump", A(g.range(-100000, 100000))); break;
			case 7: if (stalls_ms) p.add(at, "stall", A(g.range(500, stalls_ms * 1000))); break;
			}
		}
		if (hot && n) { dev(90, "power", 0x9990, false); dev(91, "js", 0x9991, false); }
	}
};

std::vector<std::pair<S_, int>> allops()
{
	return {{"key", 10}, {"layer", 10}, {"oneshot", 6}, {"toggle", 6}, {"swap", 5}, {"layerm", 2}, {"oneshotm", 2}, {"togglem", 2}, {"swapm", 2}, {"clear", 2}, {"clearm", 1},
		{"setlayout", 2}, {"macro", 5}, {"macro2", 2}, {"overload", 8}, {"overloadt", 6}, {"overloadt2", 6}, {"overloadi", 4}, {"lettermod", 4}, {"timeout", 5}, {"command", 1}, {"scroll", 1}, {"scrollt", 1}};
}
// now and then any other action as well
void enrich(Rng &g, std::vector<std::pair<S_, int>> &ops)
{
	if (!g.chance(50)) return;
	for (auto &o : allops()) {
		bool have = false;
		for (auto &x : ops) if (x.first == o.first) have = true;
		if (!have && g.chance(30)) ops.push_back({o.first, (int)g.range(1, 4)});
	}
}

S_ ids(const VS &v) { S_ t = "[ids]\n"; for (auto &x : v) t += x + "\n"; return t; }

std::vector<std::pair<S_, S_>> rglobals(CG &c, Rng &g, int pct)
{
	std::vector<std::pair<S_, S_>> v;
	auto T = [&](long lo, long hi) { long x = g.range(lo, hi); c.thr.push_back(x); return std::to_string(x); };
	if (g.chance(pct)) v.push_back({"oneshot_timeout", T(40, 300)});
	if (g.chance(pct)) v.push_back({"overload_tap_timeout", T(30, 250)});
	if (g.chance(pct)) v.push_back({"macro_timeout", T(50, 350)});
	if (g.chance(pct)) v.push_back({"macro_repeat_timeout", T(15, 90)});
	if (g.chance(pct / 2)) v.push_back({"macro_sequence_timeout", std::to_string(g.range(100, 2500))});
	if (g.chance(pct / 2)) v.push_back({"disable_modifier_guard", "1"});
	if (g.chance(pct / 2)) v.push_back({"layer_indicator", "1"});
	return v;
}

// a bind expression over the keys in play
S_ raw_req(int type, uint32_t timeout, size_t sz, const S_ &data)
{
	IpcMsg m;
	memset(&m, 0, sizeof m);
	m.type = type;
	m.timeout = timeout;
	m.sz = sz;
	memcpy(m.data, data.data(), std::min(data.size(), sizeof m.data));
	return S_((char *)&m, sizeof m);
}
// an action spelled wrongly: parentheses, number and kind of arguments
S_ misspell(CG &c, Rng &g, S_ a)
{
	auto swaparg = [&](const S_ &by) { // the first argument
		size_t o = a.find('('), e = a.find_first_of(",)", o == S_::npos ? 0 : o);
		if (o != S_::npos && e != S_::npos && e > o) a = a.substr(0, o + 1) + by + a.substr(e);
	};
	size_t p;
	switch (g.range(0, 13)) {
	case 0: if ((p = a.rfind(')')) != S_::npos) a.erase(p, 1); break;
	case 1: if ((p = a.find('(')) != S_::npos) a.erase(p, 1); break;
	case 2: if ((p = a.rfind(')')) != S_::npos) a.insert(p, g.pick(VS{", a", ", 1", ", nav", ",", ", ", ")", " ", "("})); break;
	case 3: if ((p = a.rfind(',')) != S_::npos) a = a.substr(0, p) + ")"; break;
	case 4: if ((p = a.find(',')) != S_::npos) a.erase(p, 1); break;
	case 5: if ((p = a.find('(')) != S_::npos) a.insert(p, g.pick(VS{" ", "x", "m", "2"})); break;
	case 6: if ((p = a.find('(')) != S_::npos) a.insert(p + 1, g.pick(VS{" ", "  ", ",", ", ", "(", "\\"})); break;
	case 7: swaparg(c.layouts.empty() ? S_("main") : g.pick(c.layouts)); break;
	case 8: swaparg(c.layer()); break;
	case 9: swaparg(g.pick(VS{"nosuch", "main", "", "shift", "leftshift", "a", "C-a", "macro(a b)", "layer(nav)", "Nav", "nav "})); break;
	case 10: a += g.pick(VS{")", "(", " x", ",", "()", "\\"}); break;
	case 11: if ((p = a.find('(')) != S_::npos) a = a.substr(0, p + 1) + ")"; break;
	case 12: if ((p = a.find('(')) != S_::npos) a = a.substr(0, p); break;
	case 13: a = g.pick(VS{"C-", "S-nosuch", "C-C-", "-", "C-S-", "X-a", "ab", "()", "(a)", "macro(", "macro", "command(", "swap2(nav)", "overload(nav, b", "timeout(a, 5)", "clear", "clear()", "clear(nav)", "toggle2(nav, x)", "noop()", "scroll()", "scrollt(a)"}); break;
	}
	return a;
}
S_ rbind(CG &c, Rng &g)
{
	if (g.chance(12)) return "reset";
	S_ s;
	if (g.chance(2)) { // around the longest expression
		size_t len = (size_t)g.range(500, 520);
		s = g.pick(c.keys) + " = macro(";
		while (s.size() + 1 < len) s += g.pick(VS{"x ", "y ", "ab "});
		return s + ")";
	}
	if (g.chance(50) && !c.layers.empty()) s = g.chance(10) ? S_("nosuchlayer.") : c.layer() + ".";
	if (g.chance(8)) s += g.pick(c.keys) + "+" + g.pick(LETTERS);
	else s += g.chance(6) ? S_("nosuchkey") : g.pick(c.keys);
	s += " = ";
	if (g.chance(6)) return g.pick(VS{"a = .", "a = C-.", ". = .", "= = .", "main.a = .", "main.= = .", ". = a", "+ = a", "main.+ = b", "++ = c", "a = =", "b = ,"});
	if (g.chance(8)) s += g.pick(VS{"nosuchfn(a)", "layer(nosuch)", "overload(nav)", "macro(nosuchkeyxyz-)", ")("});
	else if (g.chance(12)) s += misspell(c, g, c.action());
	else s += c.action();
	return s;
}
// bindings added, forgotten by `reset` while their keys are held, and added again
void rebind(Gen &G, CG &c)
{
	Rng &g = G.g;
	if (G.kbs.empty() || c.keys.empty()) return;
	S_ k = g.pick(c.keys);
	int dev = g.pick(G.kbs).dev, code = kc(k);
	if (code <= 0 || G.held.count({dev, code})) return;
	auto pooled = [&]() -> S_ {
		S_ a = g.pick(LETTERS), b = g.pick(LETTERS), n = std::to_string(g.range(20, 300));
		switch (g.range(0, 6)) {
		case 0: return "macro2(" + n + ", " + std::to_string(g.range(10, 200)) + ", macro(" + a + " " + b + " 1))";
		case 1: return "macro(" + a + " " + b + ")";
		case 2: return "timeout(" + a + ", " + n + ", macro(" + b + " 2 " + a + "))";
		case 3: return "overloadt(" + c.layer() + ", " + a + ", " + n + ")";
		case 4: return "overload(" + c.layer() + ", macro(" + a + " " + b + "))";
		case 5: return "togglem(" + c.layer() + ", macro(" + a + " 3))";
		default: return c.action();
		}
	};
	for (int i = (int)g.range(1, 3); i-- > 0;) { G.req(G.t, IPC_BIND, (i ? g.pick(c.keys) : k) + " = " + pooled()); G.t += g.range(500, 4000); }
	G.t += g.range(1000, 30000);
	G.ev(dev, code, 1);
	G.t += g.pick(std::vector<int>{200, 3000, 40000, 250000});
	if (g.chance(30)) G.keys(2, 25);
	G.req(G.t, IPC_BIND, "reset");
	G.t += g.range(500, 20000);
	for (int i = (int)g.range(1, 4); i-- > 0;) { G.req(G.t, IPC_BIND, g.pick(c.keys) + " = " + pooled()); G.t += g.range(500, 4000); }
	G.t += g.pick(std::vector<int>{1000, 40000, 400000, 900000});
	if (G.held.count({dev, code}) && g.chance(60)) { G.ev(dev, code, 0); G.t += g.range(1000, 50000); }
	G.keys((int)g.range(2, 8), 20);
}
S_ rdo(CG &c, Rng &g) { return c.macrotext() + (g.chance(20) ? (g.chance(50) ? " enter" : "") + S_((size_t)g.range(1, 3), '\n') : ""); }
S_ rinput(Rng &g)
{
	S_ s;
	for (int i = (int)g.range(1, 12); i-- > 0;) {
		if (g.chance(12)) s += g.pick(UNI);
		else if (g.chance(1)) s += (char)g.pick(std::vector<int>{1, 7, 8, 11, 13, 27, 31, 127});
		else s += (char)g.range(32, 126);
	}
	if (g.chance(15)) s += "\n";
	if (g.chance(10)) s += "\t.";
	return s;
}

// ---------------------------------------------------------------- engine properties
void standard(Gen &G, CG &c, const S_ &body, std::vector<std::pair<S_, S_>> glob, int nk, bool mouse)
{
	G.p.file("/etc/keyd/default.conf", ids({"*"}) + c.globals(glob) + body);
	for (int i = 0; i < nk; i++) { G.dev(i, "kbd", 0x1000 + i); G.kb(i, c); }
	if (mouse) G.dev(50, "mouse", 0x5000);
	G.thr = c.thr;
	G.start();
	if (G.g.chance(12)) { int ci = G.client++; G.p.add(30000 + G.g.range(0, 25000), "conn", A(ci)); G.p.add(55500, "req", A(ci, IPC_LISTEN, 0, "")); }
}

void gen_c01(Gen &G)
{
	Rng &g = G.g;
	CG c(g);
	c.ops = allops();
	c.mklayers((int)g.range(1, 3), (int)g.range(0, 1), (int)g.range(0, 1));
	c.pickkeys((int)g.range(2, 6), (int)g.range(3, 7));
	bool ch = g.chance(40);
	auto gl = rglobals(c, g, 35);
	if (ch) gl.push_back({"chord_timeout", std::to_string(g.range(20, 100))});
	S_ body = c.body((int)g.range(3, 9), 4, 80, 45, ch ? (int)g.range(1, 3) : 0);
	int nk = (int)g.range(1, 3);
	standard(G, c, body, gl, nk, g.chance(40));
	int seg = (int)g.range(1, 4);
	std::set<int> gone;
	bool episodes = g.chance(50);
	if (episodes) seg = (int)g.range(4, 12);
	for (int s = 0; s < seg; s++) {
		if (g.chance(10)) G.flood("daemon");
		G.keys((int)(episodes ? g.range(1, 5) : g.range(6, 24)));
		if (episodes) {
			G.release_all();
			G.t += 2300000;
			G.p.add(G.t, "marker", A("quiet"));
			G.t += 1000;
			if (g.chance(75)) continue;
		}
		int k = (int)g.range(0, 9);
		if (k <= 2) G.req(G.t, IPC_RELOAD, "");
		else if (k <= 4) G.req(G.t, IPC_BIND, rbind(c, g));
		else if (k <= 6 && nk > 0) {
			int d = (int)g.range(0, nk - 1);
			if (!gone.count(d)) {
				G.p.add(G.t, "unplug", A(d));
				G.forget_dev(d);
				gone.insert(d);
				for (size_t i = 0; i < G.kbs.size(); i++) if (G.kbs[i].dev == d && G.kbs.size() > 1) { G.kbs.erase(G.kbs.begin() + i); break; }
				if (G.kbs.size() == 1 && gone.count(G.kbs[0].dev)) {
					G.t += g.range(2000, 60000);
					G.p.add(G.t, "plug", A(d));
					gone.erase(d);
					G.t += 30000;
				}
			}
		} else if (k == 7) { S_ b2 = c.body((int)g.range(3, 9), 4, 80, 45); G.p.add(G.t, "write", A("/etc/keyd/default.conf", ids({"*"}) + b2)); G.req(G.t + 100, IPC_RELOAD, ""); }
		else if (k == 8) G.p.add(G.t, "stall", A(g.range(1000, 90000)));
	}
	if (!gone.empty() && g.chance(50)) for (int d : gone) { G.p.add(G.t + 10000, "plug", A(d)); }
	if (g.chance(30)) G.noise((int)g.range(1, 6), -1, true, true, true, 20);
	G.finish(2500);
	// a read error which is not the removal of the device
	if (g.chance(8)) { G.p.add(G.when(), "fault", A("evread", 1, 1, EIO)); G.p.sort(); }
}

void gen_c02(Gen &G)
{
	Rng &g = G.g;
	int ncfg = (int)g.range(1, 2), nk = (int)g.range(1, 4);
	// a handful of bound keys that are not struck, the rest passes through
	for (int i = 0; i < ncfg; i++) {
		S_ body = "[main]\n" + S_(g.chance(50) ? "capslock = overload(control, esc)\n" : "") + (g.chance(50) ? "f12 = layer(nav)\n" : g.chance(50) ? "f12 = oneshot(nav)\n" : "f12 = toggle(nav)\n") +
			(g.chance(40) ? "leftshift = oneshot(shift)\n" : "") + "[nav]\nf9 = left\nf8 = S-a\n" + (g.chance(30) ? "[shift]\nf9 = f10\n" : "");
		VS id;
		if (ncfg == 1) id = {"*"};
		else for (int k = 0; k < nk; k++) if (k % 2 == i) id.push_back("k:1234:" + fmt("%04x", 0x1000 + k));
		G.p.file(i ? "/etc/keyd/b.conf" : "/etc/keyd/a.conf", ids(id) + body);
	}
	VS names;
	std::vector<int> codes;
	for (int i = 0; i < 256; i++) {
		auto e = M::keyd_to_evdev(i);
		if (e.first || e.second != i) continue;
		if (i == 58 || i == 88 || i == 28 || i == 14 || i == 1) continue;
		if (i == 42 || i == 54 || i == 29 || i == 97 || i == 56 || i == 100 || i == 125 || i == 126) continue; // layers by default
		if (i > 248) continue;
		S_ n;
		codes.push_back(i);
	}
	std::vector<int> known;
	for (auto &n : {"a","b","c","d","e","f","g","h","i","j","k","l","m","n","o","p","q","r","s","t","u","v","w","x","y","z","1","2","3","4","5","6","7","8","9","0","-","=","[","]",";","'","`","\\",",",".","/","space","tab","f1","f2","f3","f10","f11","f13","f20","f24","left","right","up","down","home","end","pageup","pagedown","insert","delete","kp0","kp5","kp9","kpplus","kpenter","mute","volumeup","volumedown","playpause","nextsong","previoussong","stop","print","scrolllock","numlock","pause","102nd","compose","sleep","power","calc","mail","brightnessup","brightnessdown","katakanahiragana","henkan","muhenkan","ro","yen","hangeul","hanja","zoom","voicecommand"}) {
		int k = M::key_by_name(n);
		if (k) known.push_back(M::keyd_to_evdev(k).second);
	}
	bool mods = g.chance(50);
	std::vector<int> fn = {0x1d0 + 2, 0x1d0 + 5, 0x1d0 + 13}; // fn+f1.. arrive as f13..
	for (int i = 0; i < nk; i++) {
		G.dev(i, g.chance(15) ? "combo" : "kbd", 0x1000 + i);
		Gen::Kb k;
		k.dev = i;
		int n = (int)g.range(3, 20);
		bool all = g.chance(40);
		for (int j = 0; j < n; j++) k.keys.push_back(g.pick(all ? codes : known));
		if (mods) { // modifiers and layer keys around the unbound ones
			for (int j = (int)g.range(1, 3); j-- > 0;) k.keys.push_back(g.pick(std::vector<int>{42, 54, 29, 97, 56, 100, 125, 126}));
			for (int j = (int)g.range(0, 2); j-- > 0;) k.keys.push_back(g.pick(std::vector<int>{58, 88}));
		}
		if (g.chance(15)) k.keys.push_back(g.pick(fn));
		if (i && g.chance(50)) k.keys = G.kbs[0].keys; // the same keys on several devices
		G.kbs.push_back(k);
	}
	bool mouse = g.chance(60);
	if (mouse) G.dev(50, "mouse", 0x5000);
	G.start();
	G.maxheld = (int)g.range(3, 10);
	G.style = (int)g.range(0, 3);
	int seg = (int)g.range(1, 3);
	for (int s = 0; s < seg; s++) {
		G.keys((int)g.range(10, 50), 0);
		if (g.chance(25)) { // as many keys as are remembered
			auto &kb = g.pick(G.kbs);
			int n = (int)g.range(11, 16), tries = 80;
			while ((int)G.held.size() < n && tries--) {
				int c = g.chance(70) ? g.pick(kb.keys) : g.pick(codes);
				bool dup = false;
				for (auto &h : G.held) if (h.first.second == c) dup = true;
				if (dup) continue;
				G.t += g.chance(50) ? g.range(0, 3000) : G.gap();
				G.ev(kb.dev, c, 1);
			}
			for (int k = (int)g.range(1, 16); k-- > 0 && !G.held.empty();) { G.t += G.gap(); auto it = G.held.begin(); std::advance(it, g.next() % G.held.size()); auto x = it->first; G.ev(x.first, x.second, 0); }
		}
		if (g.chance(40)) { // a burst while the daemon is not scheduled
			G.p.add(G.t, "stall", A(g.range(5000, 60000)));
			int n = (int)g.range(4, 18);
			int st = G.style;
			G.style = 1;
			G.keys(n, 0);
			G.style = st;
		}
		if (g.chance(12)) G.flood("daemon");
		if (g.chance(35)) { // held long enough to auto repeat
			G.t += g.range(300000, 900000);
		}
	}
	if (g.chance(60)) G.noise((int)g.range(1, 12), mouse ? 50 : -1, true, true, true, 30);
	if (mouse && g.chance(40)) for (int i = 0; i < 3; i++) { int64_t at = G.when(); G.p.add(at, "key", A(50, 0x110, 1)); G.p.add(at + 20000, "key", A(50, 0x110, 0)); }
	// reports keyd has no use for
	if (g.chance(30)) for (int i = 0; i < 4; i++) { int64_t at = G.when(); G.p.add(at, "key", A(0, 0x1bc, 1)); G.p.add(at + 9000, "key", A(0, 0x1bc, 0)); }
	G.finish(600);
}

void gen_c03(Gen &G)
{
	Rng &g = G.g;
	CG c(g);
	c.ops = {{"key", 8}, {"layer", 14}, {"oneshot", 4}, {"toggle", 4}, {"swap", 2}, {"overload", 3}, {"setlayout", 3}, {"layerm", 1}, {"clear", 1}}; enrich(g, c.ops);
	c.mklayers((int)g.range(2, 5), (int)g.range(0, 3), (int)g.range(0, 2));
	c.pickkeys((int)g.range(3, 7), (int)g.range(2, 6));
	S_ body = c.body((int)g.range(3, 8), 6, 85, 25);
	if (g.chance(15) && !c.layouts.empty()) body = c.globals({{"default_layout", c.layouts[0]}}) + body;
	standard(G, c, body, {}, (int)g.range(1, 2), false);
	int seg = (int)g.range(1, 4);
	for (int s = 0; s < seg; s++) {
		G.keys((int)g.range(10, 30), 10);
		if (g.chance(55)) G.req(G.t - (int64_t)g.range(0, 20000), IPC_BIND, rbind(c, g));
	}
	if (g.chance(25)) rebind(G, c);
	if (g.chance(25)) G.noise(3, -1, true, false, false, 10);
	G.finish(800);
}

void gen_c04(Gen &G)
{
	Rng &g = G.g;
	CG c(g);
	c.ops = {{"key", 14}, {"layer", 12}, {"oneshot", 4}, {"toggle", 3}, {"overload", 5}, {"layerm", 3}, {"macro", 3}, {"swapm", 2}, {"togglem", 1}, {"clearm", 1}}; enrich(g, c.ops);
	c.delays = false;
	c.mklayers((int)g.range(2, 4), (int)g.range(0, 2), 0);
	for (auto &l : c.layers) if (g.chance(70)) c.mods[l] = g.pick(VS{"C", "S", "A", "M", "G", "C-S", "A-C", "A-M", "C-A-M-S", "A-S-C-M-G"});
	c.pickkeys((int)g.range(3, 6), (int)g.range(2, 6));
	S_ body = c.body((int)g.range(4, 9), 6, 80, 25);
	std::vector<std::pair<S_, S_>> gl;
	if (g.chance(20)) gl.push_back({"disable_modifier_guard", "1"});
	standard(G, c, body, gl, (int)g.range(1, 2), false);
	for (auto &k : G.kbs) for (int i = 0; i < 2; i++) k.keys.push_back(kc(g.pick(MODK)));
	G.keys((int)g.range(20, 80), 20);
	G.finish(800);
}

void gen_c05(Gen &G)
{
	Rng &g = G.g;
	CG c(g);
	c.ops = {{"key", 4}, {"layer", 2}, {"overload", 6}, {"overloadt", 10}, {"overloadt2", 10}, {"overloadi", 8}, {"lettermod", 8}, {"timeout", 9}, {"oneshot", 1}, {"toggle", 1}, {"macro", 1}}; enrich(g, c.ops);
	c.mklayers((int)g.range(1, 3), 0, 0);
	c.pickkeys((int)g.range(2, 4), (int)g.range(3, 7));
	auto gl = rglobals(c, g, 0);
	if (g.chance(50)) { long x = g.range(30, 250); c.thr.push_back(x); gl.push_back({"overload_tap_timeout", std::to_string(x)}); }
	S_ body = c.body((int)g.range(3, 8), 4, 90, 35);
	bool mouse = g.chance(50);
	standard(G, c, body, gl, (int)g.range(1, 2), mouse);
	G.style = (int)g.pick(std::vector<int>{0, 2, 2, 2, 3});
	G.keys((int)g.range(20, 70), 25);
	if (g.chance(10)) rebind(G, c);
	if (mouse && g.chance(25)) for (int i = 0; i < 2; i++) { int64_t at = G.when(); G.p.add(at, "key", A(50, 0x110, 1)); G.p.add(at + 20000, "key", A(50, 0x110, 0)); }
	if (g.chance(60)) G.noise((int)g.range(1, 14), mouse ? 50 : -1, true, true, true, g.chance(40) ? 40 : 0);
	G.finish(1500);
}

void gen_c06(Gen &G)
{
	Rng &g = G.g;
	CG c(g);
	c.ops = {{"key", 6}, {"layer", 4}, {"oneshot", 16}, {"oneshotm", 4}, {"toggle", 2}, {"swap", 2}, {"clear", 1}, {"macro", 2}, {"command", 1}, {"overload", 2}}; enrich(g, c.ops);
	c.delays = false;
	c.mklayers((int)g.range(1, 4), (int)g.range(0, 1), 0);
	c.pickkeys((int)g.range(3, 5), (int)g.range(2, 6));
	std::vector<std::pair<S_, S_>> gl;
	if (g.chance(60)) { long x = g.range(40, 300); c.thr.push_back(x); gl.push_back({"oneshot_timeout", std::to_string(x)}); }
	S_ body = c.body((int)g.range(3, 7), 5, 85, 25);
	bool mouse = g.chance(70), managed = mouse && g.chance(30);
	G.p.file("/etc/keyd/default.conf", ids(managed ? VS{"*", "m:1234:5000"} : VS{"*"}) + c.globals(gl) + body);
	int nk = (int)g.range(1, 2);
	for (int i = 0; i < nk; i++) { G.dev(i, "kbd", 0x1000 + i); G.kb(i, c); }
	if (mouse) G.dev(50, "mouse", 0x5000);
	G.thr = c.thr;
	G.start();
	int seg = (int)g.range(2, 6);
	for (int s = 0; s < seg; s++) {
		G.keys((int)g.range(4, 16), 25);
		if (mouse && g.chance(70)) {
			G.t += G.gap();
			if (g.chance(70)) { G.p.add(G.t, "key", A(50, g.pick(std::vector<int>{0x110, 0x111, 0x112}), 1)); int64_t u = G.t + g.range(3000, 40000); G.p.add(u, "key", A(50, 0x110, 0)); G.p.add(u, "key", A(50, 0x111, 0)); G.p.add(u, "key", A(50, 0x112, 0)); G.t = u; }
			else G.p.add(G.t, "rel", A(50, 8, g.pick(std::vector<int>{-2, -1, 1, 2})));
		}
	}
	if (g.chance(40)) G.noise((int)g.range(1, 8), mouse ? 50 : -1, true, true, true, 30);
	G.finish(1200);
}

void gen_c07(Gen &G)
{
	Rng &g = G.g;
	CG c(g);
	c.ops = {{"key", 6}, {"layer", 7}, {"oneshot", 5}, {"toggle", 9}, {"swap", 10}, {"togglem", 3}, {"swapm", 4}, {"clear", 4}, {"clearm", 2}, {"setlayout", 5}, {"overload", 3}, {"layerm", 2}, {"overloadt", 1}, {"timeout", 1}}; enrich(g, c.ops);
	c.delays = false;
	c.mklayers((int)g.range(2, 4), (int)g.range(0, 1), (int)g.range(0, 2));
	c.pickkeys((int)g.range(3, 6), (int)g.range(2, 5));
	S_ body = c.body((int)g.range(3, 8), 6, 90, 60);
	auto gl = rglobals(c, g, 10);
	if (g.chance(25)) gl.push_back({"default_layout", c.layouts.empty() || g.chance(10) ? S_("nosuch") : g.pick(c.layouts)});
	standard(G, c, body, gl, (int)g.range(1, 2), false);
	G.keys((int)g.range(25, 100), 12);
	G.finish(1200);
	if (g.chance(40)) { int ci = G.client++; G.p.add(50000, "conn", A(ci)); G.p.add(50500, "req", A(ci, IPC_LISTEN, 0, "")); G.p.sort(); }
}

void gen_c08(Gen &G)
{
	Rng &g = G.g;
	CG c(g);
	c.ops = {{"key", 10}, {"layer", 6}, {"oneshot", 2}, {"toggle", 2}, {"overload", 2}, {"overloadt", 2}, {"macro", 1}, {"timeout", 1}}; enrich(g, c.ops);
	c.delays = false;
	c.mklayers((int)g.range(1, 2), 0, 0);
	c.pickkeys((int)g.range(1, 3), (int)g.range(3, 6));
	std::vector<std::pair<S_, S_>> gl;
	long ct = g.range(15, 120);
	c.thr.push_back(ct);
	if (g.chance(80)) gl.push_back({"chord_timeout", std::to_string(ct)}); else c.thr.push_back(50);
	if (g.chance(50)) { long h = g.range(10, 160); c.thr.push_back(h); gl.push_back({"chord_hold_timeout", std::to_string(h)}); }
	S_ body = c.body((int)g.range(1, 4), 3, 50, 25, (int)g.range(1, 5), (int)g.range(2, 4));
	bool mouse = g.chance(30), many = g.chance(10);
	S_ many_s;
	if (many) { // more chords than can be held
		VS l = {"q", "w", "e", "r", "t", "y", "u", "i", "o", "p"};
		for (size_t j = l.size(); j > 1; j--) std::swap(l[j - 1], l[g.next() % j]);
		S_ m = "[main]\n";
		for (int i = 0; i < 5; i++) m += l[2 * i] + "+" + l[2 * i + 1] + " = " + (g.chance(60) ? c.leaf() : c.action()) + "\n";
		for (auto &x : l) many_s += (many_s.empty() ? "" : "+") + x;
		body = m + body;
	}
	std::vector<VS> caps; // chords of as many keys as they may have, or as many chords as a layer may have
	if (!many && g.chance(8)) {
		VS l = {"q", "w", "e", "r", "t", "y", "u", "i", "o", "p", "l", "m"};
		for (size_t j = l.size(); j > 1; j--) std::swap(l[j - 1], l[g.next() % j]);
		S_ m = "[main]\n";
		if (g.chance(50)) {
			for (int i = (int)g.range(1, 2); i-- > 0;) {
				VS k(l.begin(), l.begin() + g.range(i ? 3 : 6, 9));
				caps.push_back(k);
				for (size_t j = k.size(); j > 1; j--) std::swap(k[j - 1], k[g.next() % j]);
				S_ n;
				for (auto &x : k) n += (n.empty() ? "" : "+") + x;
				m += n + " = " + (g.chance(60) ? c.leaf() : c.action()) + "\n";
			}
		} else {
			for (size_t i = 0; i < l.size(); i++) for (size_t j = 0; j < i; j++) caps.push_back({l[i], l[j]});
			for (size_t j = caps.size(); j > 1; j--) std::swap(caps[j - 1], caps[g.next() % j]);
			caps.resize((size_t)g.range(58, 66));
			int i = 0;
			for (auto &k : caps) m += k[0] + "+" + k[1] + " = " + g.pick(VS{"f", "S-f", "C-f"}) + std::to_string(i++ % 12 + 1) + "\n";
			caps.erase(caps.begin(), caps.begin() + 50);
		}
		body = m + body;
	}
	standard(G, c, body, gl, (int)g.range(1, 2), mouse);
	G.style = (int)g.pick(std::vector<int>{0, 1, 2, 2, 3});
	int n = (int)g.range(3, 12);
	if (!caps.empty()) {
		G.maxheld = 10;
		auto &kb = G.kbs[0];
		for (int r = (int)g.range(2, 5); r-- > 0;) {
			VS k = g.pick(caps);
			for (size_t j = k.size(); j > 1; j--) std::swap(k[j - 1], k[g.next() % j]);
			if (g.chance(15)) k.pop_back();
			for (auto &x : k) {
				if (G.held.size() > 8 || G.held.count({kb.dev, kc(x)})) continue;
				G.ev(kb.dev, kc(x), 1);
				G.t += g.chance(90) ? g.range(0, 9000) : G.gap();
			}
			G.t += g.chance(50) ? 250000 : G.gap();
			while (!G.held.empty()) { auto it = G.held.begin(); std::advance(it, g.next() % G.held.size()); auto x = it->first; G.ev(x.first, x.second, 0); G.t += g.chance(70) ? g.range(0, 9000) : G.gap(); }
		}
	}
	if (many) {
		G.maxheld = 10;
		auto &kb = G.kbs[0];
		VS l = split(many_s, '+');
		for (auto &x : l) kb.keys.push_back(kc(x));
		for (int r = (int)g.range(1, 3); r-- > 0;) {
			for (size_t i = 0; i + 1 < l.size(); i += 2) {
				int a = kc(l[i]), b = kc(l[i + 1]);
				if (G.held.size() > 8 || G.held.count({kb.dev, a}) || G.held.count({kb.dev, b})) continue;
				if (g.chance(50)) std::swap(a, b);
				G.ev(kb.dev, a, 1); G.t += g.range(0, 12000); G.ev(kb.dev, b, 1);
				G.t += g.chance(30) ? g.range(0, 5000) : G.gap();
				if (g.chance(20)) G.ev(kb.dev, g.chance(50) ? a : b, 0);
			}
			for (int i = (int)g.range(2, 10); i-- > 0 && !G.held.empty();) { G.t += G.gap(); auto it = G.held.begin(); std::advance(it, g.next() % G.held.size()); auto x = it->first; G.ev(x.first, x.second, 0); }
		}
	}
	for (int s = 0; s < n; s++) {
		if (g.chance(60)) { // strike several keys together
			int k = (int)g.range(2, 5);
			auto &kb = g.pick(G.kbs);
			for (int i = 0; i < k; i++) {
				int code = g.pick(kb.keys);
				if (G.held.count({kb.dev, code})) continue;
				G.t += g.chance(70) ? g.range(0, 12000) : G.gap();
				G.ev(kb.dev, code, 1);
			}
			if (g.chance(80)) { for (int i = (int)g.range(1, 6); i-- > 0 && !G.held.empty();) { G.t += G.gap(); auto it = G.held.begin(); std::advance(it, g.next() % G.held.size()); auto x = it->first; G.ev(x.first, x.second, 0); } }
		} else
			G.keys((int)g.range(2, 8), 25);
	}
	if (g.chance(30)) G.noise((int)g.range(1, 8), mouse ? 50 : -1, true, true, true, 20);
	G.finish(1500);
}

void gen_c09(Gen &G)
{
	Rng &g = G.g;
	CG c(g);
	c.ops = {{"key", 3}, {"layer", 3}, {"macro", 14}, {"macro2", 8}, {"layerm", 2}, {"oneshotm", 1}, {"togglem", 2}, {"clearm", 1}, {"swapm", 2}, {"overload", 2}, {"timeout", 1}}; enrich(g, c.ops);
	c.mklayers((int)g.range(1, 3), 0, 0);
	c.pickkeys((int)g.range(2, 4), (int)g.range(2, 5));
	auto gl = rglobals(c, g, 40);
	bool crawl = false, slow = g.chance(20); // long timeouts and intervals
	if (slow) {
		c.thi = 1500; c.rephi = 900;
		gl.clear();
		if (g.chance(50)) gl.push_back({"macro_timeout", std::to_string(g.range(100, 1500))});
		if (g.chance(20)) { crawl = true; gl.push_back({"macro_sequence_timeout", std::to_string(g.range(66000, 80000))}); }
		if (g.chance(50)) gl.push_back({"macro_repeat_timeout", std::to_string(g.range(100, 900))});
	}
	S_ body = c.body((int)g.range(3, 7), 4, 95, 50);
	bool mouse = g.chance(40), lng = g.chance(3);
	if (lng) body = "[main]\nf5 = macro(x " + std::to_string(g.pick(std::vector<long>{30000, 65535, 65536, 66000, 90000})) + "ms y)\n" + body;
	standard(G, c, body, gl, (int)g.range(1, 2), mouse);
	for (int s = 0; s < (int)g.range(2, 6); s++) {
		G.keys((int)g.range(3, 14), 25);
		if (g.chance(45)) { // hold a macro key while it repeats
			auto &kb = g.pick(G.kbs);
			int code = g.pick(kb.keys);
			if (!G.held.count({kb.dev, code})) {
				G.t += G.gap();
				G.ev(kb.dev, code, 1);
				G.t += g.range(100000, slow ? 4000000 : 1200000);
				if (g.chance(50)) { G.ev(kb.dev, code, 0); G.t += g.range(1000, 200000); }
			}
		}
		if (g.chance(20)) G.req(G.t, IPC_MACRO, rdo(c, g), g.chance(40) ? g.range(500, 8000) : 0);
	}
	if (!slow && g.chance(25)) rebind(G, c);
	if (g.chance(40)) G.noise((int)g.range(1, 8), mouse ? 50 : -1, true, true, true, 15);
	if (lng) { G.release_all(); G.t += 200000; G.ev(0, kc("f5"), 1); G.t += g.range(1000, 90000); G.ev(0, kc("f5"), 0); }
	G.finish(lng ? crawl ? 180000 : 120000 : crawl ? 60000 : 1500);
}

void gen_c10(Gen &G)
{
	Rng &g = G.g;
	int n = (int)g.range(1, 3);
	int64_t t0 = G.t;
	bool mouse = g.chance(85);
	std::vector<std::unique_ptr<CG>> cs;
	bool pairs = g.chance(60);
	for (int i = 0; i < n; i++) {
		cs.emplace_back(new CG(g));
		CG &c = *cs.back();
		c.ops = {{"key", 2}, {"layer", 1}, {"overloadt", 7}, {"overloadt2", 5}, {"timeout", 9}, {"lettermod", 3}, {"oneshot", 6}, {"macro", 4}, {"macro2", 4}};
		c.delays = g.chance(30);
		c.thi = g.chance(20) ? 2000 : 400;
		c.mklayers((int)g.range(1, 2), 0, 0);
		c.pickkeys(2, (int)g.range(2, 5));
		auto gl = rglobals(c, g, 60);
		if (g.chance(40)) { long h = g.range(20, 150); c.thr.push_back(h); gl.push_back({"chord_hold_timeout", std::to_string(h)}); }
		S_ body = c.body((int)g.range(2, 6), 3, 95, 30, g.chance(40) ? 1 : 0);
		G.p.file("/etc/keyd/k" + std::to_string(i) + ".conf", ids({"1234:" + fmt("%04x", 0x1000 + i)}) + c.globals(gl) + body);
		G.dev(i, "kbd", 0x1000 + i);
		G.kb(i, c);
		for (long x : c.thr) G.thr.push_back(x);
	}
	(void)pairs; (void)t0;
	if (mouse) G.dev(50, "mouse", 0x5000);
	G.start();
	int segs = (int)g.range(2, 7);
	for (int s = 0; s < segs; s++) {
		G.keys((int)g.range(1, 8), 15);
		// leave it alone so that only the timers can make progress, with unrelated activity all along
		int64_t from = G.t, to = G.t + g.range(50, 1500) * 1000;
		int kind = (int)g.range(0, 7);
		int64_t per = g.pick(std::vector<int64_t>{700, 1000, 1300, 2500, 5000, 10000, 30000});
		if (to - from > 400 * per) to = from + 400 * per;
		for (int64_t a = from; a < to; a += per + g.range(0, 200)) {
			switch (kind) {
			case 0: case 1: if (mouse) G.p.add(a, "rel", A(50, 0, 1)); break;
			case 2: G.p.add(a, "spurious", A("daemon")); break;
			case 3: G.p.add(a, "led", A(1, (a / per) & 1)); break;
			case 4: if (g.chance(15)) { int c = G.client++; G.p.add(a, "conn", A(c)); if (g.chance(50)) G.p.add(a + 100, "cclose", A(c)); else G.p.add(a + 100, "req", A(c, IPC_BIND, 0, "f19 = f18")); } break;
			case 5: if (n > 1) { int d = (int)g.range(0, n - 1); int code = kc("f18"); G.p.add(a, "key", A(d, code, (a / per) & 1)); } break;
			default: break;
			}
		}
		if (kind == 5) for (int d = 0; d < n; d++) G.p.add(to + 400, "key", A(d, kc("f18"), 0));
		if (kind == 6 && g.chance(50)) G.p.add(from + g.range(1000, 50000), "stall", A(g.range(1000, 120000)));
		G.t = to;
	}
	if (g.chance(50)) G.noise((int)g.range(1, 6), mouse ? 50 : -1, true, true, true, 0);
	G.finish(2500);
}

void gen_c13(Gen &G)
{
	Rng &g = G.g;
	CG c(g);
	c.ops = allops();
	c.mklayers(2, 0, 0);
	c.pickkeys(2, 3);
	for (auto &k : {"backspace", "esc", "enter"}) c.keys.insert(c.keys.begin(), k);
	S_ body = c.body((int)g.range(0, 6), 4, 80, 40, g.chance(30) ? 1 : 0);
	bool mouse = g.chance(30);
	int nk = (int)g.range(1, 3);
	S_ id = g.chance(75) ? "*" : "1234:1000";
	G.p.file("/etc/keyd/default.conf", ids({id}) + c.globals(rglobals(c, g, 20)) + body);
	for (int i = 0; i < nk; i++) { G.dev(i, "kbd", 0x1000 + i); G.kb(i, c, 1); }
	if (mouse) G.dev(50, "mouse", 0x5000);
	G.thr = c.thr;
	G.start();
	static const int P[3] = {14, 1, 28};
	// keys which are easily taken for one of them
	static const int Q[] = {96, 111, 41, 15, 13, 43, 29, 42, 57, 2, 0x7b, 98};
	int seg = (int)g.range(1, 6);
	for (int s = 0; s < seg; s++) {
		int k = (int)g.range(0, 9);
		if (k < 5) {
			int near = g.chance(50) ? P[g.range(0, 2)] : 0; // this one is not struck
			// strike panic keys, mostly short of the full sequence
			for (int i = (int)g.range(2, 10); i-- > 0;) {
				G.t += g.chance(50) ? g.range(0, 5000) : G.gap();
				int d = (int)g.range(0, nk - 1), code = near && g.chance(30) ? Q[g.range(0, 11)] : P[g.range(0, 2)];
				if (near && code == near) code = Q[g.range(0, 11)];
				std::pair<int, int> key{d, code};
				if (G.held.count(key)) G.ev(d, code, 0); else G.ev(d, code, 1);
			}
		} else if (k == 5) G.keys((int)g.range(3, 12), 10);
		else if (k == 6) { for (int i = 0; i < 8; i++) { G.p.add(G.t + i * 500, "led", A(g.pick(std::vector<int>{0, 1, 2, 3}), g.range(0, 1))); } }
		else if (k == 7 && nk > 1) { int d = (int)g.range(0, nk - 1); G.p.add(G.t, "unplug", A(d)); G.forget_dev(d); G.t += g.range(5000, 50000); G.p.add(G.t, "plug", A(d)); G.t += 40000; }
		else if (k == 8) G.req(G.t, IPC_MACRO, "backspace+esc+enter", 0);
		else if (k == 9) { G.p.add(G.t, "stall", A(g.range(1000, 30000))); }
	}
	if (g.chance(25)) { // the real thing
		int d = (int)g.range(0, nk - 1);
		std::vector<int> o = {14, 1, 28};
		for (int i = 2; i > 0; i--) std::swap(o[i], o[g.range(0, i)]);
		for (int x : o) { G.t += g.range(0, 100000); if (!G.held.count({d, x})) G.ev(d, x, 1); }
	}
	G.finish(500);
}

// ---------------------------------------------------------------- IPC, listeners, reload
void rconfig(CG &c, Rng &g)
{
	c.ops = allops();
	c.delays = g.chance(40);
	c.mklayers((int)g.range(1, 3), (int)g.range(0, 1), (int)g.range(0, 1));
	c.pickkeys((int)g.range(2, 5), (int)g.range(3, 6));
}

VS fragments(Rng &g)
{
	VS v;
	int n = (int)g.range(1, 5);
	std::vector<int> cut;
	for (int i = 0; i < n; i++) cut.push_back((int)(g.chance(40) ? g.range(1, 40) : g.range(1, 4111)));
	std::sort(cut.begin(), cut.end());
	for (int x : cut) v.push_back(std::to_string(x) + ":" + std::to_string(g.range(0, 8000)));
	return v;
}

void gen_c15(Gen &G)
{
	Rng &g = G.g;
	CG c(g);
	rconfig(c, g);
	S_ body = c.body((int)g.range(2, 6), 4, 70, 30);
	bool two = g.chance(40);
	auto gl = rglobals(c, g, 20);
	if (two) body += "[onlya]\nf1 = f2\n";
	standard(G, c, body, gl, (int)g.range(1, 2), false);
	if (two) { CG d(g); rconfig(d, g); G.p.file(g.chance(50) ? "/etc/keyd/second.conf" : "/etc/keyd/asecond.conf", ids({"1234:1001"}) + d.body(3, 3, 60, 20) + "[onlyb]\nf1 = f2\n"); }
	// a binding that not every configuration can take
	auto some = [&]() {
		S_ l = g.pick(VS{"onlya", "onlyb", "onlya", "onlyb", "onlyc"}), k = g.pick(c.keys);
		switch (g.range(0, 2)) {
		case 0: return l + "." + k + " = " + g.pick(LETTERS);
		case 1: return k + " = layer(" + l + ")";
		default: return "onlya." + k + " = toggle(" + l + ")";
		}
	};
	int seg = (int)g.range(3, 9);
	for (int s = 0; s < seg; s++) {
		G.keys((int)g.range(0, 10), 20);
		int burst = g.chance(25) ? (int)g.range(2, 5) : 1;
		for (int b = 0; b < burst; b++) {
			VS fr = g.chance(25) ? fragments(g) : VS{};
			int64_t at = G.t + g.range(0, 2000);
			switch (g.chance(6) ? 10 : g.range(0, 9)) {
			case 0: case 1: case 2: case 3: G.req(at, IPC_BIND, two && g.chance(30) ? some() : rbind(c, g), 0, fr); break;
			case 4: case 5: G.req(at, IPC_MACRO, g.chance(12) ? S_("nosuchkeyname-x a") : rdo(c, g), g.chance(30) ? g.range(100, 4000) : 0, fr); break;
			case 6: case 7: G.req(at, IPC_INPUT, g.chance(10) ? S_("ab\xf4\x8f\xbf\xbf" "c") : rinput(g), g.chance(30) ? g.range(100, 3000) : 0, fr); break;
			case 8: G.req(at, (int)g.pick(std::vector<int>{0, 1, 7, 99, -1, 1 << 30}), "x", 0, fr); break;
			case 10: { // a complete request which is too long
				int ci = G.client++;
				G.p.add(at, "conn", A(ci));
				G.p.add(at + 50, "send", A(ci, raw_req((int)g.pick(std::vector<int>{IPC_BIND, IPC_MACRO, IPC_INPUT, IPC_RELOAD}), 0, g.pick(std::vector<uint64_t>{4096, 4097, 4095, 5000, 1ull << 32, ~0ull}), "a")));
				break;
			}
			case 9: G.req(at, IPC_MACRO, "a", g.pick(std::vector<long>{1000001, 4000000000L, 999}), fr); break;
			}
			if (g.chance(10)) G.p.add(at + g.range(300, 4000), "cclose", A(G.client - 1));
			if (g.chance(8)) { int ci = G.client++; G.p.add(at, "conn", A(ci)); G.p.add(at + 50, "send", A(ci, S_((size_t)g.range(0, 4000), 'q'))); G.p.add(at + g.range(500, 60000), g.chance(50) ? "cshut" : "cclose", A(ci)); }
		}
		if (g.chance(5)) { G.p.add(G.t, "fault", A("opendir", 1, 1, g.pick(std::vector<int>{EMFILE, EACCES, ENOMEM}))); G.req(G.t + 10, IPC_RELOAD, ""); }
		if (g.chance(15)) G.req(G.t, IPC_RELOAD, "");
	}
	if (g.chance(15) && !c.layers.empty()) rebind(G, c);
	G.finish(1500);
}

void gen_c16(Gen &G)
{
	Rng &g = G.g;
	CG c(g);
	c.ops = {{"key", 4}, {"layer", 12}, {"oneshot", 6}, {"toggle", 6}, {"swap", 4}, {"overload", 5}, {"setlayout", 5}, {"clear", 2}, {"overloadt", 2}, {"macro", 1}};
	c.mklayers((int)g.range(2, 5), (int)g.range(0, 1), (int)g.range(0, 2));
	if (g.chance(30)) { S_ l(g.range(28, 31), 'q'); c.layers.push_back(l); }
	c.pickkeys((int)g.range(3, 6), (int)g.range(2, 5));
	S_ body = c.body((int)g.range(3, 8), 4, 90, 50);
	auto gl = rglobals(c, g, 10);
	standard(G, c, body, gl, (int)g.range(1, 2), false);
	if (g.chance(50)) G.p.par["sndbuf"] = g.pick(std::vector<long>{2304, 4608, 4608, 9216, 32768});
	if (g.chance(30)) { CG d(g); d.ops = c.ops; d.mklayers(2, 0, 1); d.pickkeys(3, 3); G.p.file("/etc/keyd/two.conf", ids({"1234:1001"}) + d.body(4, 3, 90, 40)); }
	int nl = (int)g.range(1, g.chance(12) ? 38 : 6);
	std::vector<int> ls;
	int seg = (int)g.range(2, 8);
	for (int s = 0; s < seg; s++) {
		for (int i = 0; i < std::max(1, nl / seg); i++) {
			int ci = G.req(G.t + g.range(0, 3000), IPC_LISTEN, "", 0, g.chance(10) ? fragments(g) : VS{});
			ls.push_back(ci);
			if (g.chance(15)) G.p.add(G.t + g.range(0, 5000), "recvoff", A(ci));
		}
		G.keys((int)g.range(6, 40), 15);
		if (!ls.empty() && g.chance(40)) G.p.add(G.when(), "cclose", A(g.pick(ls)));
		if (!ls.empty() && g.chance(20)) { int ci = g.pick(ls); int64_t at = G.when(); G.p.add(at, "recvoff", A(ci)); if (g.chance(70)) G.p.add(at + g.range(1000, 90000), "recvon", A(ci)); }
		if (g.chance(12)) G.req(G.t, IPC_RELOAD, "");
		if (g.chance(10)) G.req(G.t, IPC_BIND, rbind(c, g));
		if (g.chance(8)) { int ci = g.pick(ls); G.p.add(G.when(), "send", A(ci, "garbage")); }
	}
	if (g.chance(5)) {
		// as many listeners as there may be; they leave while nothing happens, and others come
		G.release_all();
		G.t += 300000;
		std::vector<int> v;
		for (int i = (int)g.range(26, 34); i-- > 0;) { v.push_back(G.req(G.t, IPC_LISTEN, "")); G.t += 700; }
		if (g.chance(50)) G.keys(4, 15);
		G.release_all();
		G.t += 300000;
		for (int x : v) if (g.chance(70)) { G.p.add(G.t, "cclose", A(x)); G.t += 100; }
		G.t += g.range(1000, 30000);
		for (int i = (int)g.range(1, 8); i-- > 0;) { G.req(G.t, IPC_LISTEN, ""); G.t += 700; }
		G.keys((int)g.range(4, 12), 15);
	}
	if (g.chance(6)) G.p.add(G.when(), "fault", A("sockwrite", g.range(1, 6), 1, g.pick(std::vector<int>{EPIPE, ECONNRESET, EAGAIN, EINTR})));
	G.finish(1500);
}

void gen_c17(Gen &G)
{
	Rng &g = G.g;
	CG c(g);
	rconfig(c, g);
	bool chord = g.chance(30);
	S_ body = c.body((int)g.range(2, 7), 4, 80, 40, chord ? 1 : 0);
	auto gl = rglobals(c, g, 30);
	int nk = (int)g.range(1, 3);
	standard(G, c, body, gl, nk, g.chance(30));
	VS files = {"/etc/keyd/default.conf"};
	auto fresh = [&](const S_ &path) {
		S_ t;
		int k = (int)g.range(0, 9);
		bool def = path == files[0];
		VS id = def ? VS{"*"} : VS{"1234:" + fmt("%04x", 0x1000 + (int)g.range(0, nk - 1))};
		if (k == 0) return S_("no ids here\n");
		if (k == 1 && !def) return ids(id) + "[main]\na = " + S_(300, 'x') + "\n";
		CG d(g);
		d.ops = c.ops;
		d.layers = c.layers; d.mods = c.mods; d.keys = c.keys; d.thr = c.thr;
		if (g.chance(20)) { d.mods.clear(); d.layers = {"nav", "shift"}; }
		t = ids(id);
		if (g.chance(15)) t += "include extra\n";
		auto gg = rglobals(d, g, 30);
		t += d.globals(gg) + d.body((int)g.range(1, 7), 4, 70, 40, chord ? 1 : 0);
		for (long x : d.thr) G.thr.push_back(x);
		return t;
	};
	if (g.chance(30)) G.p.file("/etc/keyd/extra", "[main]\nf7 = f8\n");
	if (g.chance(40)) { files.push_back("/etc/keyd/z.conf"); G.p.file(files.back(), fresh(files.back())); }
	int seg = (int)g.range(1, 5);
	for (int s = 0; s < seg; s++) {
		G.keys((int)g.range(3, 18), 20);
		if (g.chance(40)) G.req(G.t, IPC_BIND, rbind(c, g));
		G.t += G.gap();
		// keys may be held and decisions pending at this moment
		for (int i = (int)g.range(0, 2); i-- > 0;) {
			S_ path = g.pick(VS{"/etc/keyd/default.conf", "/etc/keyd/z.conf", "/etc/keyd/y.conf"});
			int k = (int)g.range(0, 9);
			if (k < 6) { G.p.add(G.t, "write", A(path, fresh(path))); }
			else if (k == 6) G.p.add(G.t, "rm", A(path));
			else if (k == 7) G.p.add(G.t, "filefault", A(path, "open_errno", g.chance(60) ? EACCES : 0));
			else if (k == 8) G.p.add(G.t, "filefault", A(path, "eio_at", g.chance(60) ? (long)g.range(0, 200) : -1L));
			else { S_ n = "/etc/keyd/d" + std::to_string(s) + ".conf"; G.p.add(G.t, "write", A(n, fresh("x"))); G.p.add(G.t, "filefault", A(n, "isdir", 1)); }
		}
		if (g.chance(10)) G.p.add(G.t, "fault", A("opendir", 1, 1, g.pick(std::vector<int>{EMFILE, EACCES, ENOMEM})));
		// a device that becomes managed must not have keys down (device_grab waits for them)
		for (int d = 0; d < nk; d++) if (g.chance(30)) G.release_dev(d);
		if (files.size() > 1 || g.chance(80)) G.p.label = "held";
		G.req(G.t + 200, IPC_RELOAD, "");
		if (g.chance(20)) G.req(G.t + g.range(200, 3000), IPC_RELOAD, "");
		G.t += g.range(0, 4000);
	}
	G.keys((int)g.range(5, 20), 20);
	G.finish(2000);
}
}

// C17 and others: a device only becomes managed with its keys up; enforced here by releasing keys of
// devices that are unmanaged under some config set before every reload.
static void settle_unmanaged(Plan &p) { (void)p; }

// ---------------------------------------------------------------- devices
namespace {
// as long as keyd keeps them, or longer
S_ longname(Rng &g)
{
	S_ n = g.pick(VS{"Some Company Ltd. Wireless Ergonomic ", "USB ", "K\xc3\xa9y "});
	size_t len = (size_t)g.range(60, 72);
	while (n.size() < len) n += g.pick(VS{"Receiver ", "Keyboard", " Consumer Control", "x", "System "});
	n.resize(len, 'z');
	if (n.back() == ' ') n.back() = 'q';
	return n;
}
S_ devident(const DevSpec &s) { Device d; device_from_spec(s, &d); return device_id(&d); }

void gen_c11(Gen &G)
{
	Rng &g = G.g;
	VS caps = {"kbd", "kbd", "kbd", "mouse", "combo", "touchpad", "media", "power", "js", "nomod"};
	int nd = (int)g.range(2, 8);
	for (int i = 0; i < nd; i++) {
		S_ cap = g.pick(caps);
		if (g.chance(25)) switch (g.range(0, 3)) {
		case 0: cap = fmt("part:%d", g.chance(80) ? (int)g.pick(std::vector<int>{2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 16, 17, 18, 19, 20, 21}) : (int)g.range(1, 83)); break;
		case 1: cap = fmt("one:%d", (int)g.pick(std::vector<int>{115, 225, 114, 224, 116, 30, 113, 163, 28})); break;
		case 2: cap = fmt("rel:%d", (int)g.pick(std::vector<int>{0, 1, 2, 6, 7, 8, 9, 11})); break;
		case 3: cap = fmt("abs:%d", (int)g.pick(std::vector<int>{0, 1, 2, 7, 8, 24})); break;
		}
		G.dev(i, cap, 0x1000 + (int)g.range(0, 3), g.chance(60), g.chance(50) ? "Dev" : g.chance(15) ? longname(g) : "");
		auto &d = G.p.devs.back();
		if (g.chance(8)) d.vendor = 0x0fac; // somebody else's virtual device
		if (g.chance(7)) d.f["f_open"] = g.pick(std::vector<int>{EACCES, ENODEV, EMFILE, ENXIO});
		if (g.chance(4)) d.f["f_bits"] = EIO;
		if (g.chance(4)) d.f["f_name"] = EIO;
		if (g.chance(4)) d.f["f_id"] = ENODEV;
		if (g.chance(4)) d.f["f_abs"] = EIO;
		if (g.chance(7)) d.f["f_grab"] = g.pick(std::vector<int>{EBUSY, ENODEV});
		if (g.chance(5)) d.f["f_keyq"] = EIO;
		if (g.chance(10)) d.f["slow_open_ms"] = g.range(1, 60);
	}
	auto rid = [&]() {
		auto &d = g.pick(G.p.devs);
		S_ full = devident(d);
		int k = (int)g.range(0, 5);
		if (k == 0) return full;
		if (k == 1) return fmt("%04x:%04x", d.vendor, 0x1000 + (int)g.range(0, 4));
		return full.substr(0, 9);
	};
	auto conf = [&](bool wild) {
		VS v;
		if (wild) v.push_back("*");
		for (int i = (int)g.range(wild ? 0 : 1, 4); i-- > 0;) {
			S_ x = rid();
			int k = (int)g.range(0, 9);
			if (k < 2) x = "k:" + x;
			else if (k < 4) x = "m:" + x;
			else if (k < 6) x = "-" + x;
			v.push_back(x);
		}
		if (g.chance(6)) for (int i = (int)g.range(40, 68 - (int)v.size()); i-- > 0;) v.push_back(g.pick(VS{"", "", "-", "k:", "m:"}) + fmt("ee%02x:%04x", i, i));
		// order of entries is significant
		for (size_t i = v.size(); i > 1; i--) std::swap(v[i - 1], v[g.next() % i]);
		return ids(v) + "[main]\na = " + g.pick(LETTERS) + "\n";
	};
	int nc = (int)g.range(1, 3), wild = (int)g.range(-1, nc - 1);
	static const VS names = {"/etc/keyd/a.conf", "/etc/keyd/b.conf", "/etc/keyd/c.conf"};
	for (int i = 0; i < nc; i++) G.p.file(names[i], conf(i == wild));
	if (g.chance(20)) G.p.file("/etc/keyd/readme.txt", ids({"*"}));
	G.start();
	G.t = 120000;
	int seg = (int)g.range(2, 10);
	std::map<int, bool> pres;
	for (auto &d : G.p.devs) pres[d.id] = d.present;
	// keys which are down when keyd wants the device (not for long: finding F23)
	bool heldk = g.chance(20);
	auto hold = [&](int d, int64_t at) {
		auto &sp = G.p.devs[d];
		bool mouse = sp.caps == "mouse";
		if (!mouse && sp.caps != "kbd" && sp.caps != "combo" && sp.caps != "nomod") return;
		int n = (int)g.range(1, 3);
		static const std::vector<int> ks = {1, 14, 28, 30, 31, 42, 57, 103, 183, 240};
		for (int i = 0; i < n; i++) {
			int k = mouse ? 0x110 + i : sp.caps == "nomod" ? 30 + i : g.pick(ks);
			G.p.add(at, "key", A(d, k, 1));
			G.p.add(at + g.range(500, 25000), "key", A(d, k, 0));
		}
	};
	if (heldk) for (auto &d : G.p.devs) if (d.present && g.chance(40)) hold(d.id, g.range(1, 12000));
	for (int s = 0; s < seg; s++) {
		int d = (int)g.range(0, nd - 1);
		int k = (int)g.range(0, 9);
		if (k < 4 && g.chance(30)) {
			// a hub or a keyboard with several nodes: all of them come or go at once
			bool on = g.chance(70);
			for (auto &x : pres) if (x.second != on && g.chance(75)) { G.p.add(G.t, on ? "plug" : "unplug", A(x.first)); G.t += g.chance(70) ? 0 : g.range(0, 40); x.second = on; }
		} else if (k < 4) {
			G.p.add(G.t, pres[d] ? "unplug" : "plug", A(d));
			pres[d] = !pres[d];
			if (pres[d] && heldk && g.chance(60)) hold(d, G.t + g.range(1, 2500));
			if (g.chance(20)) { G.p.add(G.t + g.range(0, 3000), pres[d] ? "unplug" : "plug", A(d)); pres[d] = !pres[d]; }
		} else if (k < 6) {
			int i = (int)g.range(0, 2);
			if (g.chance(20)) G.p.add(G.t, "rm", A(names[i]));
			else G.p.add(G.t, "write", A(names[i], conf(i == wild)));
			G.req(G.t + 500, IPC_RELOAD, "");
		} else if (k == 6) {
			G.p.add(G.t, "devfault", A(d, g.pick(VS{"f_grab", "f_open"}), g.chance(50) ? EBUSY : 0));
		} else if (k == 7) G.req(G.t, IPC_RELOAD, "");
		else { // use it
			auto &sp = G.p.devs[d];
			if (sp.caps == "kbd" || sp.caps == "combo" || sp.caps == "nomod") { G.p.add(G.t, "key", A(d, 30, 1)); G.p.add(G.t + 15000, "key", A(d, 30, 0)); G.t += 15000; }
			else if (sp.caps == "mouse") { G.p.add(G.t, "rel", A(d, 0, 5)); G.p.add(G.t + 2000, "key", A(d, 0x110, 1)); G.p.add(G.t + 9000, "key", A(d, 0x110, 0)); G.t += 9000; }
		}
		G.t += g.range(0, 3) ? g.range(30000, 120000) : g.range(0, 3000);
	}
	G.p.add(G.t + 350000, "probe");
	G.finish(500);
}

// one thing, many times over
void gen_c12_churn(Gen &G)
{
	Rng &g = G.g;
	CG c(g);
	c.ops = {{"key", 10}, {"layer", 5}, {"command", 5}, {"macro", 3}};
	c.mklayers(2, 0, 0);
	c.pickkeys(3, 4);
	standard(G, c, c.body(5, 4, 80, 40), {}, 1, false);
	G.p.label = "churn";
	G.p.par["nomodel"] = g.chance(60);
	int kind = (int)g.range(0, 5), n = (int)g.range(66, 140);
	if (kind <= 1) {
		// devices come and go, never the one which came last
		int nd = (int)g.range(2, 4);
		for (int i = 0; i < nd; i++) G.dev(60 + i, g.chance(70) ? "kbd" : "mouse", 0x6000 + i, false);
		int live = (int)g.range(1, nd - 1);
		for (int i = 0; i < live; i++) { G.p.add(G.t, "plug", A(60 + i)); G.t += 30000; }
		for (int i = 0; i < n; i++) {
			G.p.add(G.t, "plug", A(60 + (i + live) % nd));
			G.t += g.range(20000, 40000);
			if (g.chance(15)) G.keys(2, 20);
			G.p.add(G.t, "unplug", A(60 + i % nd));
			G.t += g.range(5000, 30000);
		}
	} else if (kind == 2) {
		for (int i = 0; i < n; i++) {
			int ci = G.client++;
			G.p.add(G.t, "conn", A(ci));
			G.p.add(G.t + 200, "req", A(ci, IPC_LISTEN, 0, ""));
			G.t += g.range(3000, 20000);
			G.p.add(G.t, "cclose", A(ci));
			if (g.chance(20)) G.keys(2, 20);
		}
		int ci = G.client++;
		G.p.add(G.t += 5000, "conn", A(ci));
		G.p.add(G.t + 200, "req", A(ci, IPC_LISTEN, 0, ""));
		G.t += 20000;
		G.keys(10, 10);
		G.p.add(G.t, "cclose", A(ci));
	} else if (kind == 5) {
		// more devices than can be managed
		int nd = (int)g.range(58, 74);
		bool allm = g.chance(70);
		for (int i = 0; i < nd; i++) G.dev(60 + i, allm ? g.pick(VS{"kbd", "mouse"}) : g.pick(VS{"kbd", "mouse", "js", "power"}), 0x6000 + i, false);
		for (int i = 0; i < nd; i++) { G.p.add(G.t, "plug", A(60 + i)); G.t += g.range(0, 2000); }
		G.t += 400000;
		G.keys(10, 20);
		if (g.chance(30)) G.req(G.t, IPC_RELOAD, "");
		for (int i = 0; i < nd; i++) { G.p.add(G.t, "unplug", A(60 + i)); G.t += g.range(0, 2000); }
		G.t += 400000;
		G.p.add(G.t, "plug", A(60));
		G.t += 100000;
		G.keys(10, 20);
	} else if (kind == 3) {
		for (int i = 0; i < n; i++) { G.req(G.t, IPC_RELOAD, ""); G.t += g.range(10000, 30000); }
		G.keys(10, 10);
	} else {
		for (int i = 0; i < n; i++) { G.req(G.t, IPC_BIND, i % 8 == 7 ? S_("reset") : "f19 = " + g.pick(VS{"f18", "layer(nav)", "macro(a b)", "overload(nav, x)", "command(run x)"})); G.t += g.range(5000, 20000); }
		G.keys(10, 10);
	}
	G.release_all();
	G.t += 100000;
	G.p.add(G.t, "probe");
	G.finish(500);
}
void gen_c12(Gen &G)
{
	Rng &g = G.g;
	if (g.chance(12)) return gen_c12_churn(G);
	CG c(g);
	c.ops = allops();
	c.ops.push_back({"command", 10});
	c.delays = false;
	c.mklayers(2, 0, 0);
	c.pickkeys(3, 4);
	S_ body = c.body(6, 4, 80, 40);
	standard(G, c, body, rglobals(c, g, 20), 1, false);
	G.p.par["cmd_ms"] = g.range(1, 3000);
	VS caps = {"kbd", "mouse", "power", "js", "touchpad", "media"};
	int nd = (int)g.range(1, 5);
	for (int i = 0; i < nd; i++) {
		G.dev(60 + i, g.pick(caps), 0x6000 + i, false);
		auto &d = G.p.devs.back();
		if (g.chance(20)) d.f[g.pick(VS{"f_bits", "f_name", "f_id", "f_abs", "f_grab", "f_keyq"})] = EIO;
	}
	// the same cycle of activity is repeated: what is in use after each repetition must not grow
	int reps = (int)g.range(5, 12);
	int64_t len = 0;
	std::vector<Op> cycle;
	{
		Plan keep = G.p;
		G.p.ops.clear();
		int64_t t0 = G.t = 0;
		int n = (int)g.range(2, 9);
		for (int s = 0; s < n; s++) {
			int k = (int)g.range(0, 11);
			int64_t at = G.t;
			if (k <= 2) { int d = 60 + (int)g.range(0, nd - 1); G.p.add(at, "plug", A(d)); G.p.add(at + g.range(0, 40000), "unplug", A(d)); G.t += 60000; }
			else if (k == 3) G.p.add(at, "CONNREQ", A(IPC_BIND, 0, "f19 = f18"));
			else if (k == 4) G.p.add(at, "CONNREQ", A(IPC_RELOAD, 0, ""));
			else if (k == 5) G.p.add(at, "CONNREQ", A(IPC_MACRO, 0, "a b"));
			else if (k == 6) G.p.add(at, "CONNCLOSE", A(g.range(0, 3000)));
			else if (k == 7) { G.p.add(at, "CONNCUT", A(g.range(1, 4111), g.range(0, 3000))); }
			else if (k == 8) { G.p.add(at, "CONNLISTEN", A(g.range(1000, 50000))); G.t += 60000; }
			else if (k == 9) G.p.add(at, "CONNREQ", A(g.range(7, 99), 0, "x"));
			else { int n2 = (int)g.range(2, 8); G.keys(n2, 20); }
			G.t += g.range(5000, 60000);
		}
		if (g.chance(15)) G.p.add(G.t, "fault", A(g.pick(VS{"accept", "fork", "exec", "opendir", "sockwrite"}), g.range(1, 3), 1, EMFILE));
		G.release_all();
		G.p.sort();
		cycle = G.p.ops;
		len = G.t - t0 + 700000 + G.p.par["cmd_ms"] * 1000;
		keep.par = G.p.par;
		G.p = keep;
	}
	int64_t t = 100000;
	G.p.add(80000, "probe");
	for (int r = 0; r < reps; r++) {
		for (auto &o : cycle) {
			int64_t at = t + o.us;
			if (o.op.compare(0, 4, "CONN")) { Op x = o; x.us = at; G.p.ops.push_back(x); continue; }
			int ci = G.client++;
			G.p.add(at, "conn", A(ci));
			if (o.op == "CONNREQ") G.p.add(at + 200, "req", A(ci, o.i(0), 0, o.s(2)));
			else if (o.op == "CONNCLOSE") G.p.add(at + o.i(0), "cclose", A(ci));
			else if (o.op == "CONNCUT") { G.p.add(at + 100, "send", A(ci, S_(o.i(0), 'b'))); G.p.add(at + 200 + o.i(1), "cclose", A(ci)); }
			else if (o.op == "CONNLISTEN") { G.p.add(at + 200, "req", A(ci, IPC_LISTEN, 0, "")); G.p.add(at + o.i(0), "cclose", A(ci)); }
		}
		t += len;
		// activity that lets keyd notice dead listeners is not part of the guarantee; a reload and a layer change are harmless
		G.p.add(t - 5000, "probe");
	}
	G.t = t;
	G.finish(300);
}

void gen_c14(Gen &G)
{
	Rng &g = G.g;
	CG c(g);
	rconfig(c, g);
	int mode = (int)g.range(0, 3); // clients, devices, configs, everything
	S_ body = c.body((int)g.range(2, 7), 4, 80, 40, g.chance(40) ? 2 : 0, 4);
	auto gl = rglobals(c, g, 30);
	bool wildcfg = mode >= 2;
	int nk = (int)g.range(1, 2);
	standard(G, c, body, gl, nk, true);
	auto garble = [&](S_ s) {
		for (int i = (int)g.range(0, 6); i-- > 0 && !s.empty();) {
			size_t pos = g.next() % s.size();
			switch (g.range(0, 6)) {
			case 0: s[pos] = (char)g.range(1, 255); break;
			case 1: s.erase(pos, (size_t)g.range(1, 20)); break;
			case 2: s.insert(pos, g.pick(VS{"(", ")", ",", "\\", "=", "+", "[", "]", ":", ".", "\n", " ", "-", "layer(", "macro(", "\xe2\x82", "\xff", "\xf0", "1ms", "[ids]\n", "[main]\n", "[global]\n", "[aliases]\n", "include x\n", "include ../x\n", "#"})); break;
			case 3: s.insert(pos, S_((size_t)g.range(1, 300), g.pick(std::vector<char>{'a', '(', '+', ',', ' ', '='}))); break;
			case 4: { size_t l = (size_t)g.range(1, 60); s.insert(pos, s.substr(g.next() % s.size(), l)); break; }
			case 5: s = s.substr(0, pos); break;
			case 6: { size_t nl = s.find('\n', pos); if (nl != S_::npos && nl + 1 < s.size()) { size_t e = s.find('\n', nl + 1); S_ line = s.substr(nl + 1, e == S_::npos ? e : e - nl); S_ many; for (int k = (int)g.range(2, 80); k-- > 0;) many += line + (line.empty() || line.back() != '\n' ? "\n" : ""); s.insert(nl + 1, many); } break; }
			}
		}
		// no delay the daemon would be right to take
		for (size_t k = 0; k < s.size(); k++) {
			size_t e = k;
			while (e < s.size() && s[e] >= '0' && s[e] <= '9') e++;
			if (e == k) continue;
			size_t b = s.rfind('\n', k);
			bool seq = s.substr(b == S_::npos ? 0 : b + 1, k - (b == S_::npos ? 0 : b + 1)).find("sequence_timeout") != S_::npos;
			size_t keep = seq ? (e - k > 4 ? 3 : 4) : e < s.size() && s[e] == 'm' ? 3 : e - k;
			if (e - k > keep) { s.erase(k + keep, e - k - keep); e = k + keep; }
			k = e;
		}
		return s;
	};
	S_ good = G.p.files[0].second;
	if (wildcfg) {
		G.p.par["nomodel"] = 1;
		if (g.chance(70)) G.p.file("/etc/keyd/x.conf", garble(good));
		if (g.chance(10)) { S_ b; for (int i = 0; i < 40; i++) b += "[l" + std::to_string(i) + "]\na = b\n"; G.p.file("/etc/keyd/w.conf", ids({"1234:1001"}) + b); }
		if (g.chance(10)) { S_ b = "[main]\n"; for (int i = 0; i < (int)g.range(200, 1300); i++) b += g.pick(LETTERS) + " = " + c.action() + "\n"; G.p.file("/etc/keyd/v.conf", ids({"1234:1001"}) + b); }
		if (g.chance(10)) { S_ b = "[main]\n"; for (int i = 0; i < 80; i++) b += g.pick(LETTERS) + "+" + g.pick(LETTERS) + "+" + g.pick(LETTERS) + " = a\n"; G.p.file("/etc/keyd/u.conf", ids({"1234:1001"}) + b); }
		if (g.chance(10)) { S_ b = "[main]\na = "; for (int i = 0; i < (int)g.range(2, 40); i++) b += "overload(shift, "; b += "a"; for (int i = 0; i < 40; i++) b += ")"; G.p.file("/etc/keyd/t.conf", ids({"*"}) + b + "\n"); }
		if (g.chance(5)) G.p.file("/etc/keyd/s.conf", S_((size_t)g.range(60000, 70000), 'a'));
		if (g.chance(5)) G.p.file("/etc/keyd/empty.conf", "");
	}
	if (g.chance(15)) G.p.par["sndbuf"] = 2304;
	int seg = (int)g.range(3, 10);
	G.maxheld = g.chance(20) ? 20 : 7;
	if (G.maxheld > 10) G.p.par["nomodel"] = 1;
	std::vector<int> open;
	for (int s = 0; s < seg; s++) {
		if (g.chance(25)) { int st = G.style; G.style = 1; G.keys((int)g.range(20, 90), 20); G.style = st; G.p.add(G.t - 3000, "stall", A(g.range(1000, 40000))); }
		else G.keys((int)g.range(2, 12), 20);
		if (mode == 0 || mode == 3) for (int r = (int)g.range(1, 4); r-- > 0;) {
			int ci = G.client++;
			int64_t at = G.t + g.range(0, 5000);
			G.p.add(at, "conn", A(ci));
			open.push_back(ci);
			switch (g.range(0, 13)) {
			case 0: break; // says nothing
			case 1: G.p.add(at + 100, "send", A(ci, S_((size_t)g.range(1, 4111), (char)g.range(1, 255)))); break;
			case 2: { S_ b((size_t)4112, 0); for (auto &x : b) x = (char)g.next(); b[0] = (char)g.range(0, 7); b[1] = b[2] = b[3] = 0; G.p.par["nomodel"] = 1; G.p.add(at + 100, "send", A(ci, b)); break; }
			case 3: { // the length says something else than what is there
				IpcMsg m; memset(&m, 0, sizeof m); m.type = (int)g.range(2, 6); memset(m.data, 'a', sizeof m.data); m.sz = g.pick(std::vector<size_t>{4095, 4096, 4097, 65536, (size_t)-1, (size_t)1 << 40, 0});
				if (m.type == IPC_INPUT && m.sz == 4095) m.sz = 50;
				S_ b((char *)&m, sizeof m);
				for (size_t k = 8; k < 60; k++) if (g.chance(20)) b[k] = (char)g.pick(std::vector<int>{0xc3, 0xe2, 0xf0, 0xff, 0x80, '\n', '(', ' '});
				G.p.par["nomodel"] = 1;
				G.p.add(at + 100, "send", A(ci, b));
				break;
			}
			case 4: G.req(at, IPC_BIND, garble(rbind(c, g))); G.p.par["nomodel"] = 1; break;
			case 5: G.req(at, IPC_MACRO, garble(rdo(c, g))); G.p.par["nomodel"] = 1; break;
			case 6: G.req(at, IPC_INPUT, garble(rinput(g))); G.p.par["nomodel"] = 1; break;
			case 7: G.p.add(at + 100, "recvoff", A(ci)); G.p.add(at + 200, "req", A(ci, IPC_LISTEN, 0, "")); break;
			case 8: G.p.add(at + 100, "req", A(ci, g.range(2, 6), 0, "a", std::to_string(g.range(1, 4111)) + ":" + std::to_string(g.range(20000, 200000)))); break;
			case 9: G.p.add(at + 100, "cclose", A(ci)); break;
			case 10: G.p.add(at + 100, "req", A(ci, g.range(2, 6), 0, "a")); G.p.add(at + g.range(100, 400), "cclose", A(ci)); break;
			case 12: case 13: // delays nobody would wait for
				G.req(at, g.chance(50) ? IPC_MACRO : IPC_INPUT, g.chance(50) ? S_("a b") : S_("ab"), g.pick(std::vector<long>{1000001, 2000000, 0x7fffffffL, 0x80000000L, 0x80000001L, 0xfffffffeL, 0xffffffffL, 0xfff00000L}));
				G.p.par["nomodel"] = 1;
				break;
			case 11: { int b = (int)g.range(20, 45); for (int k = 0; k < b; k++) G.req(at + k * 50, IPC_LISTEN, ""); break; }
			}
			if (!open.empty() && g.chance(40)) G.p.add(G.t + g.range(0, 60000), g.chance(70) ? "cclose" : "cshut", A(g.pick(open)));
		}
		if (mode == 1 || mode == 3) {
			int64_t at = G.t;
			switch (g.range(0, 9)) {
			case 0: G.p.add(at, "devfault", A(g.range(0, nk - 1), "f_led", g.pick(std::vector<int>{EIO, ENODEV, EPERM}))); G.p.add(at + 500, "led", A(1, g.range(0, 1))); break;
			case 1: for (int i = 0; i < 6; i++) G.p.add(at + i * 300, "raw", A(g.range(0, nk - 1), g.pick(std::vector<int>{1, 2, 3, 4, 5, 17, 20, 21}), g.range(0, 767), g.range(-3, 3))); G.p.par["nomodel"] = 1; break;
			case 2: { int d = (int)g.range(0, nk - 1); G.p.add(at, "unplug", A(d)); G.p.add(at + g.range(100, 90000), "plug", A(d)); G.forget_dev(d); G.t += 100000; break; }
			case 3: G.p.add(at, "fault", A("evread", g.range(1, 5), 1, g.pick(std::vector<int>{EIO, EINTR, ENODEV}))); G.p.par["nomodel"] = 1; break;
			case 4: { int base = 200, nn = g.chance(30) ? (int)g.range(58, 72) : (int)g.range(1, 20); for (int i = 0; i < nn; i++) { bool have = false; for (auto &d : G.p.devs) have |= d.id == base + i; if (!have) G.dev(base + i, g.chance(nn > 40 ? 97 : 60) ? g.pick(VS{"kbd", "mouse"}) : g.pick(VS{"js", "power"}), 0x7000 + i, false); G.p.add(at + i * 50, "plug", A(base + i)); G.p.add(at + 100000 + i * 50, "unplug", A(base + i)); } G.t += 150000; break; }
			case 5: { int id = 150 + s; G.dev(id, "touchpad", 0x7f00 + s, false); G.p.devs.back().f[g.pick(VS{"f_bits", "f_name", "f_id", "f_abs", "f_open"})] = EIO; G.p.add(at, "plug", A(id)); break; }
			case 6: for (int i = 0; i < 100; i++) G.p.add(at + i * 20, "led", A(g.range(0, 4), i & 1)); break;
			case 7: { G.p.add(at, "stall", A(40000)); for (int i = 0; i < 90; i++) G.p.add(at + i * 300, "key", A(0, 30 + (i / 2) % 8, !(i & 1))); G.t += 45000; break; }
			default: break;
			}
		}
		if (wildcfg && g.chance(50)) {
			S_ path = g.pick(VS{"/etc/keyd/x.conf", "/etc/keyd/w.conf", "/etc/keyd/default.conf"});
			G.p.add(G.t, "write", A(path, garble(good)));
			if (g.chance(20)) G.p.add(G.t, "filefault", A(path, g.pick(VS{"open_errno", "eio_at"}), g.range(1, 100)));
			for (int d = 0; d < nk; d++) G.release_dev(d);
			G.req(G.t + 100, IPC_RELOAD, "");
		}
		if (g.chance(10)) G.p.add(G.t, "fault", A(g.pick(VS{"accept", "sockwrite", "fork", "exec", "opendir"}), 1, g.range(1, 3), g.pick(std::vector<int>{EMFILE, ECONNABORTED, EAGAIN, EINTR, EPIPE})));
	}
	G.release_all();
	// afterwards it has to serve as usual
	G.t += 700000;
	G.p.add(G.t - 600000, "faultclear");
	for (int d = 0; d < nk; d++) { G.p.add(G.t - 400000, "unplug", A(d)); G.p.add(G.t - 300000, "plug", A(d)); }
	G.p.add(G.t, "write", A("/etc/keyd/default.conf", ids({"*"}) + "[main]\nf1 = f2\n"));
	for (auto &n : {"x", "w", "v", "u", "t", "s", "empty"}) G.p.add(G.t, "rm", A(S_("/etc/keyd/") + n + ".conf"));
	G.p.add(G.t, "filefault", A("/etc/keyd/default.conf", "open_errno", 0));
	G.p.add(G.t, "filefault", A("/etc/keyd/default.conf", "eio_at", -1));
	G.p.add(G.t + 1, "marker", A("final"));
	int fc = G.req(G.t + 1000, IPC_RELOAD, "");
	G.p.par["final_client"] = fc;
	G.t += 200000;
	for (int d = 0; d < nk; d++) { G.p.add(G.t, "key", A(d, kc("f1"), 1)); G.p.add(G.t + 20000, "key", A(d, kc("f1"), 0)); G.t += 60000; }
	G.p.par["final_expect"] = nk;
	G.p.end = G.t + 300000;
	G.p.sort();
}

void gen_c18(Gen &G)
{
	Rng &g = G.g;
	CG c(g);
	c.ops = {{"key", 6}, {"layer", 4}, {"toggle", 2}, {"command", 8}, {"macro", 2}, {"oneshot", 2}};
	c.mklayers(2, 0, 0);
	c.pickkeys(2, 4);
	S_ body = c.body(5, 3, 80, 30);
	standard(G, c, body, {}, (int)g.range(1, 2), false);
	G.p.par["nomodel"] = 1;
	G.p.par["cmd_ms"] = g.pick(std::vector<long>{5, 100, 100000});
	int rounds = (int)g.range(1, 4);
	if (g.chance(25)) G.p.add(g.range(0, 8000), "start", A("daemon2"));
	for (int r = 0; r < rounds; r++) {
		G.keys((int)g.range(2, 14), 20);
		int k = (int)g.range(0, 7);
		auto serve = [&](const S_ &mark) {
			int fc = G.req(G.t, IPC_BIND, "f19 = f18");
			G.p.add(G.t - 1, "marker", A(mark + std::to_string(fc)));
			G.p.add(G.t + 30000, "key", A(0, kc("f18"), 1));
			G.p.add(G.t + 40000, "key", A(0, kc("f18"), 0));
			G.p.add(G.t + 60000, "marker", A("served"));
			G.t += 80000;
		};
		if (k <= 1) {
			G.p.add(G.t, "start", A("rival"));
			G.t += 30000;
			G.keys((int)g.range(2, 8), 20);
			// the instance that was there is not disturbed
			if (g.chance(60)) { G.release_all(); G.t += 60000; serve("still serve "); }
		}
		if (k == 2) G.p.add(G.t, "kill9", A("daemon"));
		else if (k == 3 || k == 4) G.p.add(G.t, "kill9sys", A("daemon", g.range(1, 60)));
		else if (k == 5) G.p.add(G.t, "sig", A("daemon", g.pick(std::vector<int>{2, 15, 1, 11})));
		else if (k == 6) { int st = G.t; (void)st; for (int x : {14, 1, 28}) { G.p.add(G.t, "key", A(0, x, 1)); G.t += 2000; } for (int x : {14, 1, 28}) { G.p.add(G.t + 5000, "key", A(0, x, 0)); } }
		else if (k == 7) { // killed while it starts
			G.p.add(G.t, "kill9", A("daemon"));
			G.t += 30000;
			G.p.add(G.t, "start", A("daemon"));
			G.p.add(G.t + g.range(0, 3000), "kill9sys", A("daemon", g.range(1, 200)));
			G.t += 30000;
		}
		G.release_all();
		G.t += 60000;
		if (g.chance(20)) G.p.add(G.t, "fault", A(g.pick(VS{"open", "flock", "socket", "bind", "listen", "uinput_ioctl", "inotify_init", "inotify_add", "opendir", "nice"}), g.range(1, 4), 1, g.pick(std::vector<int>{EMFILE, EACCES, ENOENT, ENOMEM}))), G.t += 1000, G.p.add(G.t, "start", A("daemon")), G.t += 80000;
		// in case a kill by system call count has not happened yet
		G.p.add(G.t, "kill9", A("daemon"));
		G.p.add(G.t + 1000, "kill9", A("daemon2"));
		G.t += 20000;
		if (g.chance(25)) G.p.add(G.t, "killkids");
		G.t += 5000;
		G.p.add(G.t, "faultclear");
		G.p.add(G.t, "marker", A("restart"));
		G.p.add(G.t + 500, "start", A("daemon"));
		G.t += 120000;
		serve("serve ");
	}
	G.finish(300);
}

void gen_c19(Gen &G)
{
	Rng &g = G.g;
	CG c(g);
	c.ops = {{"key", 6}, {"layer", 6}, {"scroll", 5}, {"scrollt", 5}, {"oneshot", 2}, {"toggle", 2}, {"overload", 2}, {"macro", 1}, {"overloadt", 2}};
	c.delays = false;
	c.mklayers((int)g.range(1, 3), 0, 0);
	c.pickkeys((int)g.range(2, 4), (int)g.range(2, 4));
	bool bindmouse = g.chance(50);
	if (bindmouse) for (auto &n : {"leftmouse", "rightmouse", "middlemouse", "scrollup", "scrolldown", "scrollleft", "scrollright", "mouse1"}) if (g.chance(50)) c.keys.insert(c.keys.begin(), n);
	S_ body = c.body((int)g.range(2, 9), 5, 70, 30);
	bool tp = g.chance(25);
	G.p.file("/etc/keyd/default.conf", ids({"*", "1234:5000", "1234:5001"}) + body);
	G.dev(0, "kbd", 0x1000);
	CG kc2(g);
	for (auto &k : c.keys) if (k.find("mouse") == S_::npos && k.find("scroll") == S_::npos) kc2.keys.push_back(k);
	if (kc2.keys.empty()) kc2.keys.push_back("a");
	G.kb(0, kc2);
	int nm = (int)g.range(1, 2);
	for (int i = 0; i < nm; i++) G.dev(50 + i, i && tp ? "touchpad" : "mouse", 0x5000 + i);
	int lo[2] = {0, 0}, hi[2] = {4096, 2048};
	if (tp && nm > 1 && g.chance(50)) for (int i = 0; i < 2; i++) {
		switch (g.range(0, 4)) {
		case 0: lo[i] = 0; hi[i] = (int)g.pick(std::vector<int>{1, 255, 1023, 1024, 32767, 65535}); break;
		case 1: lo[i] = -(int)g.pick(std::vector<int>{1, 100, 512, 32768}); hi[i] = (int)g.pick(std::vector<int>{0, 1, 100, 511, 32767}); break;
		case 2: lo[i] = (int)g.range(1, 1000); hi[i] = lo[i] + (int)g.range(1, 5000); break;
		case 3: lo[i] = hi[i] = 0; break; // uinput devices may declare an axis without a range
		case 4: lo[i] = -2000000000; hi[i] = 2000000000; break;
		}
		G.p.devs.back().f[fmt("amin%d", i)] = lo[i];
		G.p.devs.back().f[fmt("amax%d", i)] = hi[i];
	}
	auto pos = [&](int i) { return lo[i] == hi[i] ? (int)g.range(0, 3) : (int)g.pick(std::vector<long>{lo[i], hi[i], g.range(lo[i], hi[i]), g.range(lo[i], hi[i])}); };
	G.thr = c.thr;
	G.start();
	static const std::vector<int> btn = {0x110, 0x111, 0x112, 0x113, 0x114, 0x115, 0x116};
	std::set<std::pair<int, int>> bd;
	int n = (int)g.range(20, 120);
	for (int i = 0; i < n; i++) {
		int m = 50 + (int)g.range(0, nm - 1);
		bool isTp = m == 51 && tp;
		G.t += g.range(0, 3) ? g.range(200, 9000) : G.gap();
		int k = (int)g.range(0, 9);
		if (k <= 4) {
			if (isTp) { if (g.chance(60)) G.p.add(G.t, "abs", A(m, 0, pos(0), 1, pos(1))); else { int i = (int)g.range(0, 1); G.p.add(G.t, "abs", A(m, i, pos(i))); } }
			else if (g.chance(60)) G.p.add(G.t, "rel", A(m, 0, g.range(-20, 20), 1, g.range(-20, 20)));
			else G.p.add(G.t, "rel", A(m, g.range(0, 1), g.range(-60, 60)));
		} else if (k == 5) { if (!isTp) { int v = (int)g.pick(std::vector<int>{-3, -1, 1, 1, 2, -9, 8, 15, -24}); G.p.add(G.t, "rel", A(m, g.chance(70) ? 8 : 6, v, 11, v * 120)); } }
		else if (k <= 7) { int b = isTp ? 0x110 : g.pick(btn); auto x = std::make_pair(m, b); if (bd.count(x)) { G.p.add(G.t, "key", A(m, b, 0)); bd.erase(x); } else { G.p.add(G.t, "key", A(m, b, 1)); bd.insert(x); } }
		else G.keys(1, 30);
	}
	for (auto &x : bd) { G.t += 3000; G.p.add(G.t, "key", A(x.first, x.second, 0)); }
	if (g.chance(40)) G.noise((int)g.range(1, 5), -1, true, true, false, 30);
	G.finish(1000);
}

void gen_c20(Gen &G)
{
	Rng &g = G.g;
	CG c(g);
	c.ops = {{"key", 4}, {"layer", 3}, {"command", 14}, {"oneshot", 2}, {"toggle", 1}, {"overload", 3}, {"overloadt", 2}, {"timeout", 2}, {"macro", 1}};
	c.delays = false;
	if (g.chance(30)) c.cmdsuffix = g.pick(VS{" \\\"q\\\"", " $HOME && sleep 1", " a\\\\b", " é", " a\\tb", " a\\nb", " \\(c\\)", " a\\qb"});
	c.mklayers((int)g.range(1, 2), 0, 0);
	c.pickkeys((int)g.range(2, 4), (int)g.range(2, 4));
	S_ body = c.body((int)g.range(3, 7), 4, 90, 50);
	standard(G, c, body, rglobals(c, g, 20), (int)g.range(1, 2), false);
	G.p.par["cmd_ms"] = g.pick(std::vector<long>{1, 50, 2000, 1000000});
	int seg = (int)g.range(1, 4);
	for (int s = 0; s < seg; s++) {
		G.keys((int)g.range(6, 30), 25);
		if (g.chance(30)) G.p.add(G.when(), "fault", A(g.pick(VS{"fork", "exec"}), g.range(1, 3), g.range(1, 2), g.pick(std::vector<int>{EAGAIN, ENOMEM})));
		if (g.chance(20)) G.req(G.t, IPC_LISTEN, "");
		if (g.chance(15)) G.req(G.t, IPC_BIND, "f19 = f18");
	}
	if (g.chance(15) && !c.layers.empty()) rebind(G, c);
	G.finish(1000);
	G.p.add(G.p.end - 1000, "probe");
}

void gen_c21(Gen &G)
{
	Rng &g = G.g;
	CG c(g);
	c.ops = {{"key", 3}, {"layer", 10}, {"oneshot", 5}, {"toggle", 6}, {"swap", 3}, {"overload", 4}, {"setlayout", 3}, {"clear", 2}, {"overloadt", 2}};
	c.mklayers((int)g.range(1, 3), (int)g.range(0, 1), (int)g.range(0, 1));
	c.pickkeys((int)g.range(2, 5), (int)g.range(2, 4));
	std::vector<std::pair<S_, S_>> gl;
	if (g.chance(65)) gl.push_back({"layer_indicator", "1"});
	S_ body = c.body((int)g.range(2, 7), 3, 90, 40);
	int nk = (int)g.range(1, 4);
	VS id = {"*"};
	if (nk > 1 && g.chance(25)) { // some keyboards are not managed
		if (g.chance(50)) id.push_back(fmt("-1234:%x", 0x1000 + (int)g.range(0, nk - 1)));
		else { id.clear(); for (int i = 0; i < nk; i++) if (i == 0 || g.chance(50)) id.push_back(fmt("1234:%x", 0x1000 + i)); }
	}
	bool two = nk > 1 && g.chance(50);
	bool echo = g.chance(30); // the desktop sets the lights of the devices as well
	G.p.file("/etc/keyd/default.conf", ids(id) + c.globals(gl) + body);
	if (two) G.p.file("/etc/keyd/two.conf", ids({"1234:1001", g.chance(40) ? "1234:5000" : "1234:9999"}) + (g.chance(50) ? "[global]\nlayer_indicator = 1\n" : "") + body);
	for (int i = 0; i < nk; i++) {
		G.dev(i, "kbd", 0x1000 + i, i == 0 || g.chance(80));
		if (g.chance(15)) G.p.devs.back().f["f_led"] = g.pick(std::vector<int>{EIO, EPERM, ENODEV, EINVAL});
		if (G.p.devs.back().present) G.kb(i, c);
	}
	if (g.chance(40)) G.dev(50, "mouse", 0x5000);
	if (g.chance(30)) { G.p.file("/etc/keyd/no.conf", ids({"1234:eeee"})); }
	G.start();
	int seg = (int)g.range(1, 5);
	for (int s = 0; s < seg; s++) {
		for (int i = (int)g.range(0, 10); i-- > 0;) { G.p.add(G.t, "led", A(g.range(0, 4), g.range(0, 1))); G.t += g.range(0, 3) ? g.range(500, 30000) : g.range(0, 50); }
		if (echo) for (int i = (int)g.range(0, 6); i-- > 0;) { G.p.add(G.t, "devled", A(g.range(0, nk - 1), g.range(0, 4), g.range(0, 1))); G.t += g.range(0, 3) ? g.range(500, 30000) : g.range(0, 50); }
		G.keys((int)g.range(0, 20), 20);
		int k = (int)g.range(0, 5);
		int d = (int)g.range(0, nk - 1);
		if (k == 0) G.p.add(G.t, "devfault", A(d, "f_led", g.chance(50) ? EIO : 0));
		else if (k == 1) { G.p.add(G.t, "unplug", A(d)); G.forget_dev(d); G.t += g.range(1000, 60000); G.p.add(G.t, "plug", A(d)); G.t += 30000; }
		else if (k == 2) { G.release_all(); G.req(G.t, IPC_RELOAD, ""); G.t += 5000; }
	}
	G.finish(900);
}

// the usb-gadget backend: any engine activity, an endpoint which accepts one report per poll of the host
void gen_c23(Gen &G)
{
	Rng &g = G.g;
	CG c(g);
	c.ops = allops();
	c.mklayers((int)g.range(1, 3), (int)g.range(0, 1), (int)g.range(0, 1));
	bool many = g.chance(50); // more keys than a report holds
	c.pickkeys((int)g.range(2, 6), (int)g.range(3, many ? 12 : 7));
	auto gl = rglobals(c, g, 20);
	S_ body = c.body((int)g.range(many ? 0 : 2, 9), 4, many ? 40 : 80, 45);
	standard(G, c, body, gl, (int)g.range(1, 2), false);
	auto &P = G.p.par;
	P["gadget"] = 1;
	P["nomodel"] = 1;
	P["hid_max"] = g.chance(80) ? 1 : g.range(2, 4);
	P["hid_poll_us"] = g.pick(std::vector<int>{125, 1000, 4000, 8000, 10000});
	for (auto &k : G.kbs) {
		for (int i = (int)g.range(0, 4); i-- > 0;) k.keys.push_back(kc(g.pick(MODK)));
		if (g.chance(30)) for (int i = (int)g.range(1, 8); i-- > 0;) { int x = (int)g.range(2, 240); auto e = M::keyd_to_evdev(x); if (!e.first && e.second == x && x != 14 && x != 28) k.plain.push_back(x); }
	}
	if (many) { G.maxheld = (int)g.range(7, 14); G.style = 1; }
	int seg = (int)g.range(1, 4);
	int64_t stallend = 0;
	for (int s = 0; s < seg; s++) {
		G.keys((int)g.range(8, many ? 50 : 30), many ? 50 : 25);
		if (g.chance(50)) G.p.add(std::max<int64_t>(stallend, G.when()), "hidstall", A(g.range(1000, 30000)));
		stallend = G.t + 100000; // (one at a time: a host which does not poll for 50 ms loses reports)
		if (g.chance(25)) G.p.add(G.when(), "fault", A("hidwrite", g.range(1, 20), g.range(1, 4), EAGAIN, "daemon"));
		if (g.chance(20)) { G.p.add(G.when(), "fault", A("hidwrite", g.range(1, 20), g.range(1, 5), g.pick(std::vector<int>{ESHUTDOWN, EIO, EINTR}), "daemon")); }
		if (g.chance(20)) G.req(G.when(), IPC_MACRO, rdo(c, g));
		if (g.chance(15)) { G.release_all(); G.req(G.t, IPC_RELOAD, ""); G.t += 20000; }
		if (g.chance(20)) G.noise(3, -1, true, true, true, 20);
	}
	G.finish(1500);
}

void gen_c24(Gen &G)
{
	Rng &g = G.g;
	CG c(g);
	c.ops = allops();
	c.mklayers((int)g.range(1, 3), 0, (int)g.range(0, 1));
	c.pickkeys(3, 4);
	G.p.file("/etc/keyd/default.conf", ids({"*"}) + c.body((int)g.range(2, 6), 4, 80, 40));
	G.dev(0, "kbd", 0x1000);
	G.kb(0, c);
	G.thr = c.thr;
	auto &P = G.p.par;
	bool daemon = g.chance(92);
	if (daemon) G.start();
	if (g.chance(50)) P["short_rd"] = g.range(10, 90);
	if (g.chance(40)) P["short_wr"] = g.range(10, 90);
	if (g.chance(50)) P["cli_frag"] = g.range(1, 1000000);
	if (g.chance(10)) P["cli_stdin_err"] = g.pick(std::vector<int>{EIO, EAGAIN});
	if (g.chance(25)) P["sndbuf"] = g.range(600, 6000);
	bool kills = daemon && g.chance(40);
	P["nomodel"] = kills || g.chance(30);
	int n = (int)g.range(2, 10), id = 0;
	auto text = [&](size_t len) { S_ s; while (s.size() < len) s += g.chance(10) ? g.pick(UNI) : S_(1, (char)g.range(32, 126)); return s; };
	auto longdo = [&](size_t len) { S_ s; while (s.size() < len) { if (!s.empty()) s += ' '; s += g.pick(LETTERS); } s.resize(len); return s; };
	for (int i = 0; i < n; i++) {
		if (g.chance(60)) G.keys((int)g.range(1, 8), 20);
		G.t += g.chance(25) ? 0 : g.range(1000, 120000);
		S_ role = "cli" + std::to_string(++id), in;
		VS a;
		bool lis = false;
		switch (g.range(0, 8)) {
		case 0: case 1: a = {"bind"}; for (int k = (int)g.range(1, 4); k-- > 0;) a.push_back(g.chance(6) ? S_((size_t)g.pick(std::vector<int>{(int)g.range(300, 4000), 4094, 4095, 4096, 4097, 9000}), 'x') : rbind(c, g)); break;
		case 2: case 3: {
			a = {"do"};
			if (g.chance(30)) { a.push_back("-t"); a.push_back(std::to_string(g.range(0, 3000))); }
			S_ m = g.chance(15) ? longdo((size_t)g.pick(std::vector<int>{200, 1000, 4000, 4095, 4097, 5000})) : rdo(c, g);
			if (g.chance(50)) in = m;
			else if (g.chance(50)) a.push_back(m);
			else for (auto &w : split(m, ' ')) a.push_back(w);
			break;
		}
		case 4: case 5: {
			a = {"input"};
			if (g.chance(20)) { a.push_back("-t"); a.push_back(std::to_string(g.range(0, 500))); }
			S_ m = g.chance(25) ? text((size_t)g.pick(std::vector<int>{100, 700, 2000, 4000, 4095, 4097, 6000})) : rinput(g);
			if (g.chance(60)) in = m; else a.push_back(m);
			break;
		}
		case 6: a = {"reload"}; G.release_all(); break;
		default: a = {"listen"}; lis = true; break;
		}
		VS op = {role, in};
		op.insert(op.end(), a.begin(), a.end());
		G.p.add(G.t, "cli", op);
		int64_t at = G.t + g.range(0, 3000);
		if (lis && g.chance(60)) {
			int64_t e = G.t + g.range(1000, 400000);
			if (g.chance(70)) G.p.add(e, "stdoutclose", A(role)); else G.p.add(e, "sig", A(role, g.chance(50) ? 15 : 2));
		} else if (g.chance(4)) G.p.add(at, "stdoutclose", A(role));
		else if (g.chance(4)) G.p.add(at, "kill9sys", A(role, g.range(1, 12)));
		if (kills && g.chance(35)) {
			if (g.chance(70)) G.p.add(at, "kill9sys", A("daemon", g.range(1, 20))); else G.p.add(at, "kill9", A("daemon"));
			G.t = at + g.range(5000, 60000);
			if (g.chance(75)) { G.p.add(G.t, "kill9", A("daemon")); G.release_all(); G.t += 1000; G.p.add(G.t, "start", A("daemon")); G.t += 60000; }
		} else if (daemon && g.chance(20)) G.p.add(at, "stall", A(g.range(1000, G.p.p("sndbuf") ? 15000 : 400000)));
		if (g.chance(6)) G.p.add(G.t, "fault", A(g.pick(VS{"accept", "sockwrite", "fork"}), g.range(1, 3), 1, EMFILE, "daemon"));
		if (g.chance(3)) G.p.add(G.t, "fault", A("socket", 1, 1, EMFILE, role));
	}
	G.finish(6000);
}

void gen_c25(Gen &G)
{
	Rng &g = G.g;
	CG c(g);
	c.ops = allops();
	c.mklayers((int)g.range(1, 2), 0, 0);
	c.pickkeys((int)g.range(2, 5), (int)g.range(3, 7));
	for (auto k = c.keys.begin(); k != c.keys.end();) if (*k == "esc" || *k == "enter" || *k == "backspace") k = c.keys.erase(k); else ++k;
	bool daemon = g.chance(35);
	G.p.par["nomodel"] = 1;
	if (daemon) G.p.file("/etc/keyd/default.conf", ids({g.chance(60) ? "*" : "1234:1000"}) + c.body((int)g.range(1, 5), 4, 70, 40));
	else if (g.chance(20)) G.p.par["noconfdir"] = 1;
	if (g.chance(30)) G.p.par["short_wr"] = g.range(10, 90);
	VS caps = {"kbd", "kbd", "kbd", "mouse", "touchpad", "combo", "media", "power", "js", "mkbd"};
	int nd = (int)g.range(1, 6);
	static const VS nm = {"AT Translated Set 2 keyboard", "Some  Keyboard", "100% r{ed} kbd", "b{x} %s%n", "K\xc3\xa9yboard (2.4G)", "a\\b", ""};
	for (int i = 0; i < nd; i++) {
		G.dev(i, i ? g.pick(caps) : "kbd", 0x1000 + i, i == 0 || g.chance(75), g.chance(40) ? g.pick(nm) : g.chance(15) ? longname(g) : "");
		if (g.chance(8)) G.p.devs.back().f[g.pick(VS{"f_open", "f_bits", "f_name", "f_id", "slow_open_ms"})] = g.pick(std::vector<int>{EIO, EPERM, ENODEV});
		if (G.p.devs.back().present) {
			G.kb(i, c);
			auto &k = G.kbs.back();
			for (int j = (int)g.range(0, 12); j-- > 0;) { int x = (int)g.range(2, 248); if (x != 14 && x != 28) k.plain.push_back(x); }
			if (g.chance(30)) for (int x : {0x110, 0x111, 0x112, 0x1d2, 0x174, 0x246, 0x2c0, 0x1bc}) if (g.chance(40)) k.plain.push_back(x);
		}
	}
	if (daemon) G.start();
	int64_t m0 = daemon && g.chance(30) ? 0 : g.range(1000, 50000);
	VS a = {"monitor", "", "monitor"};
	bool tty = g.chance(30);
	if (g.chance(40)) a.push_back("-t");
	G.p.add(m0, "cli", a);
	G.t = 100000;
	int seg = (int)g.range(1, 6);
	for (int s = 0; s < seg; s++) {
		G.keys((int)g.range(3, 30), 40);
		if (g.chance(15)) G.flood("monitor");
		int k = (int)g.range(0, 9), d = (int)g.range(0, nd - 1);
		if (k == 0) { G.release_dev(d); G.p.add(G.t, "unplug", A(d)); G.forget_dev(d); G.t += g.range(1000, 60000); G.p.add(G.t, "plug", A(d)); G.t += 30000; }
		else if (k == 1) { G.p.add(G.t, "unplug", A(d)); G.forget_dev(d); G.t += g.range(1000, 20000); G.p.add(G.t, "plug", A(d)); G.t += 30000; }
		else if (k == 2) { for (int i = (int)g.range(1, 8); i-- > 0;) { G.p.add(G.t, "rel", A(d, g.range(0, 1), g.range(-9, 9))); G.t += g.range(500, 8000); } }
		else if (k == 3) { G.p.add(G.t, "stall", A(g.range(1000, 40000), "monitor")); G.keys(6, 40); }
		else if (k == 4) G.p.add(G.t, "spurious", A("monitor"));
		else if (k == 5 && daemon) { G.release_all(); G.req(G.t, IPC_RELOAD, ""); G.t += 10000; }
		else if (k == 6) G.p.add(G.t, "clockjump", A(g.range(-100000, 100000)));
		else if (k == 7 && g.chance(30)) G.p.add(G.t, "fault", A("evread", g.range(1, 5), 1, g.pick(std::vector<int>{EINTR, EIO}), "monitor"));
	}
	G.release_all();
	if (tty) {
		// typed while the events were shown; it is told to end, at any point
		G.p.par["tty"] = 1;
		if (g.chance(60)) { G.p.par["tty_in"] = g.chance(20) ? g.range(4000, 9000) : g.range(1, 40); G.p.par["tty_nl"] = g.chance(40); }
		int sg = g.chance(70) ? 2 : 15;
		if (g.chance(50)) G.p.add(m0 + 1, "sigsys", A("monitor", sg, g.range(1, 40)));
		else G.p.add(g.range(m0 + 1, G.t + 50000), "sig", A("monitor", sg));
	}
	else if (g.chance(40)) { G.t += g.range(0, 50000); G.p.add(G.t, "stdoutclose", A("monitor")); if (g.chance(30)) G.keys(5, 20); }
	G.finish(900);
}
// C26: text typed by every route keyd offers, as a desktop with keyd.compose would read it
S_ utf8(uint32_t c)
{
	if (c < 0x80) return S_(1, (char)c);
	if (c < 0x800) return S_{(char)(0xc0 | c >> 6), (char)(0x80 | (c & 63))};
	if (c < 0x10000) return S_{(char)(0xe0 | c >> 12), (char)(0x80 | (c >> 6 & 63)), (char)(0x80 | (c & 63))};
	return S_{(char)(0xf0 | c >> 18), (char)(0x80 | (c >> 12 & 63)), (char)(0x80 | (c >> 6 & 63)), (char)(0x80 | (c & 63))};
}

void gen_c26(Gen &G)
{
	Rng &g = G.g;
	const auto &all = M::compose().entries;
	size_t nall = std::max<size_t>(1, all.size()), at0 = (size_t)(G.seed & 0xffffffff) * 700 % nall, used = 0;
	auto cp = [&]() -> S_ {
		if (all.empty()) return g.pick(UNI);
		return utf8(all[g.chance(90) ? (at0 + used++) % nall : g.next() % nall].cp);
	};
	auto word = [&](int lo, int hi) { S_ s; for (int i = (int)g.range(lo, hi); i-- > 0;) s += cp(); return s; };
	// macro text and what it types
	auto mtext = [&](int n, S_ &want) {
		S_ s;
		for (int i = 0; i < n; i++) {
			if (i) s += ' ';
			S_ l = g.pick(LETTERS), u(1, (char)toupper(l[0])), w;
			switch (g.range(0, 9)) {
			case 0: s += l; want += l; break;
			case 1: s += "space"; want += ' '; break;
			case 2: s += g.chance(50) ? u : "S-" + l; want += u; break;
			case 3: s += g.chance(50) ? "leftshift+" + l : std::to_string(g.range(1, 9)) + "ms " + u; want += u; break;
			case 4: w = l + cp() + u + cp(); s += w; want += w; break;
			case 5: s += "enter"; want += '\n'; break;
			default: w = word(1, 3); s += w; want += w; break;
			}
		}
		return s;
	};
	struct B { S_ key, want; int how; S_ hold; S_ want2; };
	std::vector<B> bs;
	VS L = LETTERS;
	auto letter = [&] { size_t k = g.next() % L.size(); S_ x = L[k]; L.erase(L.begin() + k); return x; };
	auto val = [&](S_ &want) { if (g.chance(60)) return want = cp(); S_ m = mtext((int)g.range(1, 5), want); return "macro(" + m + ")"; };
	S_ um = g.pick(VS{"", ":C", ":S", ":A", ":M", ":G", ":C-S", ":A-C", ""});
	S_ main = "[main]\ncapslock = layer(u)\ntab = oneshot(u)\nf1 = toggle(u)\n", u = "[u" + um + "]\n", rest;
	for (int i = 0; i < 4; i++) { B b; b.key = letter(); b.how = 0; main += b.key + " = " + val(b.want) + "\n"; bs.push_back(b); }
	{ B b; b.key = letter(); b.how = 1; main += b.key + " = " + g.pick(VS{"overload(u, ", "overloadi(esc, ", "lettermod"}); 
	  if (main.compare(main.size() - 9, 9, "lettermod") == 0) { b.want = cp(); main += "(u, " + b.want + ", 100, 400)\n"; b.how = 6; }
	  else if (main.compare(main.size() - 5, 5, "esc, ") == 0) { main += val(b.want) + ", 100)\n"; b.how = 6; }
	  else main += val(b.want) + ")\n";
	  bs.push_back(b); }
	{ B b; b.key = letter(); b.how = 1; S_ t; main += b.key + " = " + (g.chance(50) ? "overloadt(u, " : "overloadt2(u, ") + val(b.want) + ", 300)\n"; bs.push_back(b); }
	{ B b; b.key = letter(); b.how = 2; main += b.key + " = timeout("; main += val(b.want) + ", 200, "; main += val(b.want2) + ")\n"; bs.push_back(b); }
	{ B b; b.key = letter(); b.hold = letter(); b.how = 3; main += b.key + "+" + b.hold + " = " + val(b.want) + "\n"; bs.push_back(b); }
	for (int i = 0; i < 2; i++) { B b; b.key = letter(); b.how = 4; u += b.key + " = " + val(b.want) + "\n"; bs.push_back(b); }
	for (const char *m : {"shift", "control", "alt", "altgr", "meta"}) if (g.chance(60)) {
		B b; b.key = letter(); b.how = 5;
		b.hold = S_(m) == "altgr" ? "rightalt" : S_(g.chance(50) || S_(m) == "alt" ? "left" : "right") + m;
		rest += S_("[") + m + "]\n" + b.key + " = " + val(b.want) + "\n";
		bs.push_back(b);
	}
	S_ glob;
	if (g.chance(30)) glob = "[global]\nmacro_sequence_timeout = " + std::to_string(g.range(50, 900)) + "\n";
	G.p.file("/etc/keyd/default.conf", ids({"*"}) + glob + main + u + rest);
	G.dev(0, "kbd", 0x1000);
	if (g.chance(30)) G.dev(50, "mouse", 0x5000);
	G.start();
	G.p.par["groups"] = 1;
	G.p.par["maxsteps"] = 3000000;
	if (g.chance(30)) G.p.par["cli_frag"] = g.range(1, 1000000);
	if (g.chance(25)) G.p.par["short_wr"] = g.range(20, 90);
	if (g.chance(25)) G.p.par["short_rd"] = g.range(20, 90);
	G.t = 100000;
	auto hold = [&](const S_ &k, int v) { G.p.add(G.t, "key", A(0, kc(k), v)); };
	auto tap = [&](const S_ &k, int64_t us) { hold(k, 1); G.t += us; hold(k, 0); };
	auto sh = [&] { return g.range(2000, 30000); };
	int n = (int)g.range(8, 16), cli = 0;
	for (int i = 0; i < n; i++) {
		S_ want, m;
		int64_t t0 = G.t;
		size_t mk = G.p.ops.size();
		G.p.add(G.t++, "marker", A("x"));
		int r = (int)g.range(0, 99), noise = (int)g.range(0, 9);
		// a key which is still down while the text comes: it may be one of those which the text needs
		S_ down, first;
		if (g.chance(35)) {
			down = g.chance(80) ? g.pick(L) : S_(g.chance(50) ? "space" : "enter");
			first = down == "space" ? " " : down == "enter" ? "\n" : down;
			hold(down, 1);
			G.t += sh();
		}
		int early = -1;
		if (r < 45) {
			const B &b = g.pick(bs);
			want = b.want;
			early = b.how == 0 || b.how == 4;
			switch (b.how) {
			case 0: case 1: tap(b.key, sh()); break;
			case 6: G.t += 600000; tap(b.key, g.range(2000, 30000)); break;
			case 2: if (g.chance(50)) tap(b.key, sh()); else { tap(b.key, 500000); want = b.want2; } break;
			case 3: hold(b.key, 1); G.t += g.range(0, 4000); hold(b.hold, 1); G.t += sh(); hold(b.key, 0); G.t += g.range(0, 4000); hold(b.hold, 0); break;
			case 4:
				switch (g.range(0, 2)) {
				case 0: hold("capslock", 1); G.t += sh(); tap(b.key, sh()); G.t += sh(); hold("capslock", 0); break;
				case 1: tap("tab", sh()); G.t += sh(); tap(b.key, sh()); break;
				case 2: tap("f1", sh()); G.t += sh(); tap(b.key, sh()); G.t += sh(); tap(b.key, sh()); want += b.want; G.t += 20000; tap("f1", sh()); break;
				}
				break;
			case 5: hold(b.hold, 1); G.t += sh(); tap(b.key, sh()); G.t += sh(); hold(b.hold, 0); break;
			}
			G.t += 250000;
			if (noise == 0) G.p.add(G.p.ops[mk + 1].us, "stall", A(g.range(1000, 25000)));
		} else {
			long to = g.chance(30) ? g.range(100, 1500) : 0;
			bool viacli = g.chance(60), in = r < 85;
			if (in) {
				for (int k = (int)g.range(1, g.chance(10) ? 900 : 90); k-- > 0 && want.size() < 4000;) want += g.chance(80) ? cp() : g.chance(5) ? S_(g.chance(50) ? "\n" : "\t") : S_(1, (char)g.range(32, 126));
				m = want;
			} else m = mtext((int)g.range(1, 30), want);
			if (viacli) {
				VS op = {"cli" + std::to_string(++cli), "", in ? "input" : "do"};
				if (to) { op.push_back("-t"); op.push_back(std::to_string(to)); }
				if (g.chance(50)) op[1] = m; else op.push_back(m);
				if (op.back()[0] == '-') op[1] = m, op.pop_back();
				G.p.add(G.t, "cli", op);
			} else G.req(G.t, in ? IPC_INPUT : IPC_MACRO, m, to, g.chance(20) ? fragments(g) : VS{});
			if (noise == 0) G.p.add(G.t + g.range(0, 20000), "stall", A(g.range(1000, 60000)));
			G.t += 400000 + (int64_t)m.size() * (6000 + 3 * to);
			early = 1;
		}
		want = first + want;
		if (!down.empty()) {
			G.p.add(early == 1 && g.chance(40) ? g.range(std::min(G.t, G.p.ops[mk + 1].us + 1000), G.t) : G.t, "key", A(0, kc(down), 0));
			G.t += sh();
		}
		if (noise == 1) G.p.add(g.range(t0, G.t), "spurious", A("daemon"));
		if (noise == 2) G.p.add(g.range(t0, G.t), "led", A(g.range(0, 2), g.range(0, 1)));
		if (noise == 3 && G.p.devs.size() > 1) for (int k = 0; k < 4; k++) G.p.add(g.range(t0, G.t), "rel", A(50, g.range(0, 1), g.range(-5, 5)));
		if (noise == 4) G.p.add(g.range(t0, G.t), "clockjump", A(g.range(-100000, 100000)));
		G.p.ops[mk].a[0] = "text " + want;
	}
	G.finish(1500);
}

// C29: the layouts and examples which come with the program
struct Shipped {
	struct Lay { S_ name, text; std::map<S_, S_> t[4]; bool shift = false, altgr = false; size_t nsec = 0; };
	std::vector<Lay> lays;
	std::vector<std::pair<S_, S_>> examples;
};
VS dirlist(const S_ &d)
{
	VS v;
	if (DIR *h = opendir(d.c_str())) {
		while (struct dirent *e = readdir(h)) if (e->d_name[0] != '.') v.push_back(e->d_name);
		closedir(h);
	}
	std::sort(v.begin(), v.end());
	return v;
}
S_ slurp(const S_ &p) { std::ifstream f(p, std::ios::binary); std::stringstream b; b << f.rdbuf(); return b.str(); }
const Shipped &shipped()
{
	static Shipped s;
	static bool done;
	if (done) return s;
	done = true;
	S_ r = sim_repo_dir;
	for (auto &n : dirlist(r + "/examples")) s.examples.push_back({n, slurp(r + "/examples/" + n)});
	for (auto &n : dirlist(r + "/layouts")) {
		Shipped::Lay l;
		l.name = n;
		l.text = slurp(r + "/layouts/" + n);
		std::map<S_, S_> *m = nullptr;
		for (auto &ln : split(l.text, '\n')) {
			size_t eq = ln.find(" = ", 1);
			if (eq == S_::npos) {
				if (ln.empty() || ln[0] != '[') continue;
				l.nsec++;
				m = ln == "[" + n + ":layout]" ? &l.t[0] : ln.compare(0, n.size() + 8, "[" + n + "_shift:") == 0 ? &l.t[1] : ln.compare(0, n.size() + 8, "[" + n + "_altgr:") == 0 ? &l.t[2] :
					ln == "[" + n + "_altgr+" + n + "_shift]" ? &l.t[3] : nullptr;
				continue;
			}
			S_ k = ln.substr(0, eq), v = ln.substr(eq + 3);
			if (!m) continue;
			if (m == &l.t[0] && k == "shift") { l.shift = true; continue; }
			if (m == &l.t[0] && k == "altgr") { l.altgr = true; continue; }
			// (some keyboards of XKB have code points which Unicode has not assigned: no text system knows them)
			uint32_t cp = 0;
			int n = M::utf8_next(v, 0, cp);
			if (cp >= 128 && (n != (int)v.size() || !M::compose().index.count(cp))) continue;
			(*m)[k] = v;
		}
		// (a letter which a layout without a shift layer of its own moves around)
		if (!l.shift) for (auto &x : l.t[0]) if (x.second.size() == 1 && isalpha(x.second[0])) l.t[1][x.first] = S_(1, (char)toupper(x.second[0]));
		if (!l.altgr) l.t[2].clear();
		if (!l.altgr || !l.shift) l.t[3].clear();
		if (!l.t[0].empty()) s.lays.push_back(l);
	}
	return s;
}

void gen_c29(Gen &G)
{
	Rng &g = G.g;
	auto &sh = shipped();
	G.p.par["groups"] = 1;
	G.p.par["maxsteps"] = 3000000;
	if (!sh.examples.empty() && g.chance(25)) {
		// an example as it is, in random use
		auto &e = sh.examples[(size_t)(G.seed & 0xffffffff) % sh.examples.size()];
		CG c(g);
		c.keys.clear();
		for (auto &k : M::key_table()) {
			S_ n = k.name;
			if (n == "esc" || n == "enter" || n == "backspace") continue;
			for (auto &l : split(e.second, '\n')) {
				size_t eq = l.find(" =");
				if (eq != S_::npos && (l.substr(0, eq) == n || l.find(n, eq) != S_::npos || (k.alt && l.substr(0, eq) == k.alt))) { c.keys.push_back(n); break; }
			}
		}
		for (int i = 0; i < 4; i++) c.keys.push_back(g.pick(LETTERS));
		VS keep;
		for (int i = 0; i < 9; i++) { S_ k = g.pick(c.keys); if (std::find(keep.begin(), keep.end(), k) == keep.end()) keep.push_back(k); }
		for (const char *k : {"leftshift", "leftcontrol", "capslock", "space", "leftalt", "leftmeta"}) if (g.chance(40) && std::find(keep.begin(), keep.end(), k) == keep.end()) keep.push_back(k);
		c.keys = keep;
		c.thr = {200, 250};
		G.p.file("/etc/keyd/default.conf", e.second);
		int nd = (int)g.range(1, 2);
		for (int i = 0; i < nd; i++) G.dev(i, "kbd", 0x1000 + i);
		for (int i = 0; i < nd; i++) G.kb(i, c);
		G.thr = c.thr;
		G.start();
		G.t = 100000;
		for (int i = (int)g.range(1, 5); i-- > 0;) { G.keys((int)g.range(6, 40), 30); if (g.chance(20)) G.p.add(G.t - 3000, "stall", A(g.range(1000, 30000))); }
		G.release_all();
		G.finish(2500);
		return;
	}
	G.p.par["typed"] = 1;
	// one to six of them, in any order
	std::vector<const Shipped::Lay *> v;
	size_t n = (size_t)(g.chance(20) ? g.range(4, 9) : g.range(1, 4)), base = (size_t)(G.seed & 0xffffffff);
	for (size_t i = 0; i < n && !sh.lays.empty(); i++) {
		auto *l = &sh.lays[i ? g.next() % sh.lays.size() : base % sh.lays.size()];
		// (keyd has room for 256 characters which no key of its own stands for, and says so)
		size_t need = 0;
		for (auto *x : v) for (auto &t : x->t) for (auto &e : t) need += e.second.size() > 1;
		for (auto &t : l->t) for (auto &e : t) need += e.second.size() > 1;
		if (need > 250 && i) continue;
		size_t layers = 6; // (main and the modifiers; there are 32)
		for (auto *x : v) layers += x->nsec;
		if (layers + l->nsec > 32 && i) continue;
		if (std::find(v.begin(), v.end(), l) == v.end()) v.push_back(l);
	}
	for (size_t i = v.size(); i > 1; i--) std::swap(v[i - 1], v[g.next() % i]);
	S_ cfg = ids({"*"}), inc, glob, main = "[main]\n";
	int cur = -1;
	for (auto *l : v) { inc += "include layouts/" + l->name + "\n"; G.p.file("/usr/local/share/keyd/layouts/" + l->name, l->text); }
	if (!v.empty() && g.chance(60)) { cur = (int)(g.next() % v.size()); glob = "[global]\ndefault_layout = " + v[cur]->name + "\n"; }
	for (size_t i = 0; i < v.size(); i++) main += "f" + std::to_string(i + 1) + " = setlayout(" + v[i]->name + ")\n";
	main += "f9 = setlayout(main)\n";
	VS parts = {inc, glob, main};
	for (size_t i = 3; i > 1; i--) std::swap(parts[i - 1], parts[g.next() % i]);
	// (an include in the middle of a section would end it)
	G.p.files.insert(G.p.files.begin(), {"/etc/keyd/default.conf", cfg + parts[0] + parts[1] + parts[2]});
	int nd = (int)g.range(1, 2);
	for (int i = 0; i < nd; i++) G.dev(i, "kbd", 0x1000 + i);
	if (nd > 1) G.p.par.erase("slow_pm"), G.p.par.erase("slow_us"); // (a slow daemon finds keys of two keyboards in no order)
	if (g.chance(30)) G.dev(50, "mouse", 0x5000);
	G.start();
	G.t = 100000;
	int dev0 = 0;
	auto key = [&](int d, const S_ &k, int s) { G.p.add(G.t, "key", A(d, kc(k), s)); };
	std::map<S_, int> mods; // key -> device
	struct H { S_ k; int d; };
	std::vector<H> held;
	auto drop = [&](size_t i) { key(held[i].d, held[i].k, 0); held.erase(held.begin() + (long)i); };
	auto setmods = [&](int want) {
		bool s = false, a = false;
		for (auto &m : mods) if (m.first == "rightalt") a = true; else s = true;
		VS todo;
		if (s != !!(want & 1)) todo.push_back("s");
		if (a != !!(want & 2)) todo.push_back("a");
		if (todo.size() == 2 && g.chance(50)) std::swap(todo[0], todo[1]);
		for (auto &t : todo) {
			bool on = t == "s" ? !s : !a;
			S_ k = t == "a" ? "rightalt" : g.chance(60) ? "leftshift" : "rightshift";
			if (on) { mods[k] = dev0 = (int)g.range(0, nd - 1); key(dev0, k, 1); }
			else for (auto m = mods.begin(); m != mods.end();) if ((m->first == "rightalt") == (t == "a")) { key(m->second, m->first, 0); m = mods.erase(m); } else ++m;
			G.t += g.range(500, 20000);
		}
	};
	int segs = (int)g.range(2, 6);
	for (int sgm = 0; sgm < segs; sgm++) {
		S_ want;
		int64_t t0 = G.t;
		size_t mk = G.p.ops.size();
		G.p.add(G.t++, "marker", A("x"));
		int len = (int)g.range(5, 60);
		for (int i = 0; i < len; i++) {
			int ms = g.chance(55) ? 0 : (int)g.range(0, 3);
			S_ k, txt;
			if (cur >= 0) {
				auto &l = *v[cur];
				if (ms && !(l.t[ms].size())) ms &= 1;
				if (l.t[ms].empty()) ms = 0;
				auto it = l.t[ms].begin();
				std::advance(it, (long)(g.next() % l.t[ms].size()));
				k = it->first; txt = it->second;
			} else { ms &= 1; k = g.pick(LETTERS); txt = ms ? S_(1, (char)toupper(k[0])) : k; }
			if (!kc(k)) continue;
			for (size_t h = 0; h < held.size();) if (held[h].k == k || g.chance(65)) { drop(h); G.t += g.range(300, 9000); } else h++;
			setmods(ms);
			H h{k, (int)g.range(0, nd - 1)};
			key(h.d, k, 1);
			held.push_back(h);
			want += txt;
			G.t += g.chance(10) ? g.range(100000, 400000) : g.range(700, 40000);
		}
		while (!held.empty()) { drop(0); G.t += g.range(300, 9000); }
		setmods(0);
		G.t += 30000;
		G.p.ops[mk].a[0] = "text " + want;
		int noise = (int)g.range(0, 7);
		// (after a stall the keys of two keyboards have no order)
		if (noise == 0 && nd == 1) G.p.add(g.range(t0, G.t), "stall", A(g.range(1000, 60000)));
		if (noise == 1) G.p.add(g.range(t0, G.t), "spurious", A("daemon"));
		if (noise == 2) G.p.add(g.range(t0, G.t), "led", A(g.range(0, 2), g.range(0, 1)));
		if (noise == 3 && G.p.devs.size() > (size_t)nd) for (int k = 0; k < 4; k++) G.p.add(g.range(t0, G.t), "rel", A(50, g.range(0, 1), g.range(-5, 5)));
		if (noise == 4) G.p.add(g.range(t0, G.t), "clockjump", A(g.range(-100000, 100000)));
		if (noise == 5) { G.t += 100000; G.req(G.t, IPC_RELOAD, ""); G.t += 100000; cur = -1; for (size_t i = 0; i < v.size(); i++) if (glob == "[global]\ndefault_layout = " + v[i]->name + "\n") cur = (int)i; }
		G.t += 100000;
		if (g.chance(70)) {
			int nx = g.chance(15) ? -1 : (int)g.range(0, (int)v.size() - 1);
			S_ k = nx < 0 ? S_("f9") : "f" + std::to_string(nx + 1);
			key(0, k, 1); G.t += g.range(1000, 30000); key(0, k, 0); G.t += g.range(1000, 30000);
			cur = nx;
		}
	}
	G.finish(1500);
}

// the names the program itself lists
const VS &listed()
{
	static VS v;
	static bool done;
	if (!done) {
		done = true;
		Plan p;
		p.prop = "C27";
		p.par["nomodel"] = 1;
		p.add(1000, "cli", A("cli1", "", "list-keys"));
		p.end = 500000;
		Result r = execute(p);
		for (auto &x : r.procs) if (x.role == "cli1") for (auto &l : split(x.out, '\n')) if (!l.empty()) v.push_back(l);
	}
	return v;
}

S_ altname(const S_ &k)
{
	for (auto &x : M::key_table()) {
		if (k == x.name && x.alt) return x.alt;
		if (x.alt && k == x.alt) return x.name;
	}
	return k;
}

// another way to write the same line
S_ restyle(Rng &g, S_ l)
{
	size_t eq = l.find(" = ");
	if (eq == S_::npos || eq == 0) return l;
	S_ k = l.substr(0, eq), v = l.substr(eq + 3);
	if (g.chance(40)) { S_ o; for (auto &x : split(k, '+')) o += (o.empty() ? "" : "+") + (g.chance(60) ? altname(x) : x); if (!o.empty() && k.find("++") == S_::npos && k != "+") k = o; }
	auto sub = [&](const S_ &a, const S_ &b) {
		for (size_t i = 0; (i = v.find(a, i)) != S_::npos; i += b.size())
			if ((!i || !isalnum((unsigned char)v[i - 1])) && g.chance(50)) v.replace(i, a.size(), b); else i++;
	};
	if (v.find("command(") == S_::npos) {
		sub("overloadt(", "overload2("); sub("overloadt2(", "overload3("); sub("swapm(", "swap2("); sub("togglem(", "toggle2(");
		S_ o;
		for (size_t i = 0; i < v.size(); i++) {
			o += v[i];
			if (v[i] == ',') { while (i + 1 < v.size() && v[i + 1] == ' ') i++; o += S_((size_t)g.range(0, 2), ' '); }
			if (v[i] == '(' && i && isalnum((unsigned char)v[i - 1]) && v.compare(i - std::min<size_t>(i, 5), 5, "macro") && v.compare(i - std::min<size_t>(i, 5), 5, "clear") && g.chance(15)) o += " ";
		}
		v = o;
	}
	if (v.find('(') == S_::npos) {
		VS m;
		S_ b = v;
		while (b.size() > 2 && b[1] == '-') { m.push_back(b.substr(0, 2)); b.erase(0, 2); }
		if (g.chance(50)) b = altname(b);
		if (b.size() == 1 && isupper((unsigned char)b[0]) && g.chance(50)) { m.push_back("S-"); b = S_(1, (char)tolower(b[0])); }
		else if (b.size() == 1 && islower((unsigned char)b[0]) && g.chance(50)) for (auto i = m.begin(); i != m.end(); ++i) if (*i == "S-") { m.erase(i); b[0] = (char)toupper(b[0]); break; }
		v.clear();
		while (!m.empty()) { size_t i = g.next() % m.size(); v += m[i]; if (g.chance(10)) v += m[i]; m.erase(m.begin() + i); }
		v += b;
	}
	return k + g.pick(VS{" = ", " = ", "=", "\t=\t", " =", "= ", "   =  "}) + v;
}

void gen_c27(Gen &G)
{
	Rng &g = G.g;
	CG c(g);
	int kind = std::min(9, (int)g.range(0, 10));
	std::vector<std::pair<S_, VS>> secs;   // sections in order with their lines
	auto sec = [&](const S_ &n) -> VS & { for (auto &s : secs) if (s.first == n) return s.second; secs.push_back({n, {}}); return secs.back().second; };
	VS aliases, strike;
	int over = 0;
	bool reload = false;
	std::vector<std::pair<int, int>> press; // dev, code
	G.thr.clear();
	if (kind < 4) {
		// names
		VS names;
		for (auto &n : listed()) names.push_back(n);
		for (auto &k : M::key_table()) for (const char *n : {k.name, k.alt, k.shift}) if (n && *n) names.push_back(n);
		std::set<int> bound;
		auto code = [&](const S_ &n) { return M::key_by_name(n); };
		auto plain = [&](const S_ &n) { for (char ch : n) if (!isalnum((unsigned char)ch)) return false; return true; };
		VS &main = sec("main");
		VS trig = {"a", "s", "d", "f", "g", "h", "j", "k", "l", "f13", "f14", "f15"};
		int chord = 0;
		for (int i = (int)g.range(6, 14); i-- > 0;) {
			S_ n = g.pick(names), m = g.pick(names);
			if (g.chance(8)) n = g.pick(VS{"[", "[", ".", ",", "=", "-", "(", ")", "[", "]", "\\", "+", "#", "/", ":", "dot", "equal", "minus"});
			int cn = code(n), cm = code(m), md = 0, cs = 0;
			bool seq = M::key_seq(n, cs, md);
			if (cn && M::keyd_to_evdev(cn).second == kc("esc")) continue;
			switch (g.range(0, 6)) {
			case 0: case 1: // bound
				if (cn && bound.insert(cn).second) { main.push_back(n + " = " + g.pick(VS{"a", "b", "1", "f5", "C-c", "]", "S-]", "[", "=", "#"})); press.push_back({M::keyd_to_evdev(cn).first ? 50 : 0, M::keyd_to_evdev(cn).second}); }
				break;
			case 2: case 3: case 4: // produced
				if (seq && !trig.empty()) {
					S_ t = trig.back();
					int how = (int)g.range(0, 4);
					if (how && !plain(n)) how = 0;
					if (!bound.insert(code(t)).second) break;
					trig.pop_back();
					main.push_back(t + " = " + (how == 0 ? n : how == 1 ? "C-" + n : how == 2 ? "macro(" + n + " x " + n + ")" : how == 3 ? "macro(leftcontrol+" + n + ")" : "timeout(" + n + ", 50, x)"));
					press.push_back({0, kc(t)});
				}
				break;
			case 5: // alias
				if (cn && bound.insert(cn).second && plain(n)) {
					S_ al = g.chance(15) ? "my" + std::to_string(i) + S_((size_t)g.range(26, 29), 'y') : g.chance(50) ? "my" + std::to_string(i) : S_("f2") + std::to_string(i % 4);
					if (code(al) && !bound.insert(code(al)).second) break;
					aliases.push_back(n + " = " + al);
					if (g.chance(70)) main.push_back(al + " = " + g.pick(VS{"z", "y", "S-q"}));
					press.push_back({M::keyd_to_evdev(cn).first ? 50 : 0, M::keyd_to_evdev(cn).second});
				}
				break;
			case 6: // chord
				if (cn && cm && cn != cm && plain(n) && plain(m) && !chord && bound.insert(cn).second && bound.insert(cm).second && cn < 240 && cm < 240) {
					main.push_back(n + "+" + m + " = f6");
					press.push_back({-cn, cm});
					chord = 1;
				}
				break;
			}
		}
		if (press.empty()) press.push_back({0, kc("a")});
	} else if (kind == 9 && g.chance(70)) {
		// the limits of composite layers, expressions and delays
		sec("main");
		VS ks = {"1", "2", "3", "4", "5", "6", "7", "8", "9", "0", "f1", "f2"}, pl;
		bool edge = g.chance(40); // exactly at the limit, with every part active
		int np = (int)(edge ? g.range(7, 9) : g.range(2, 12));
		S_ comp;
		for (int i = 0; i < np; i++) {
			S_ n(1, (char)('p' + i - (i > 10 ? 12 : 0))); // p..z, o
			pl.push_back(n);
			sec("main").push_back(ks[i] + " = " + (edge ? S_("toggle(") : g.pick(VS{"toggle(", "toggle(", "layer("})) + n + ")");
			press.push_back({0, kc(ks[i])});
			comp += (i ? "+" : "") + n;
			VS &l = sec(n + g.pick(VS{"", "", "", ":C", ":S"}));
			if (g.chance(30)) l.push_back("a = " + g.pick(VS{"x", "y", "z"}));
		}
		for (int i = (int)g.range(1, 3); i-- > 0;) {
			S_ k = comp;
			if (i) { VS h; for (auto &x : pl) if (g.chance(70)) h.push_back(x); if (h.size() < 2) continue; for (size_t j = h.size(); j > 1; j--) std::swap(h[j - 1], h[g.next() % j]); k.clear(); for (auto &x : h) k += (k.empty() ? "" : "+") + x; }
			VS &l = sec(k);
			l.push_back("a = " + g.pick(VS{"f6", "f7", "f8", "S-f7"}));
			if (g.chance(40)) l.push_back("b = " + g.pick(VS{"f9", "f10"}));
		}
		sec("after").push_back("c = d");
		sec("main").push_back("f3 = toggle(after)");
		if (g.chance(40)) sec("after" + g.pick(VS{"", "wards", "wards:C"})).push_back("a = m");
		for (auto k : {"a", "b", "a", "c", "f3"}) press.push_back({0, kc(k)});
		if (g.chance(40)) {
			// near the longest expression
			S_ m = "macro(";
			size_t len = (size_t)g.range(488, 516);
			while (m.size() + 1 < len) m += g.pick(VS{"x ", ") ", "y ", "x y "});
			m += ")";
			sec("main").push_back("f4 = " + m);
			press.push_back({0, kc("f4")});
		}
		if (g.chance(35)) {
			// around the longest section name
			size_t len = (size_t)g.range(61, 67);
			S_ n = S_("lng") + S_(len - 3, 'n'), t = g.pick(VS{"", "", ":C", ":layout"});
			if (g.chance(50) && t.size() && len > 8) n.resize(len - t.size());
			sec(n + t).push_back("a = k");
			sec("main").push_back("f8 = " + g.pick(VS{"layer(", "toggle("}) + n + ")");
			press.push_back({0, kc("f8")});
		}
		if (g.chance(25)) {
			// around the longest command
			S_ cm = "run ";
			size_t len = (size_t)g.range(242, 254);
			while (cm.size() < len) cm += g.pick(VS{"x", "pad", " "});
			cm.resize(len, 'z');
			if (cm.back() == ' ') cm.back() = 'q';
			sec("main").push_back("f9 = " + S_("command(") + cm + ")");
			press.push_back({0, kc("f9")});
		}
		if (g.chance(20)) { sec("main").push_back("f5 = macro(x " + std::to_string(g.pick(std::vector<long>{1000, 30000, 65535, 65536, 66000, 131072, 90000})) + "ms y)"); G.p.par["long"] = 1; }
		kind = 0;
	} else {
		c.ops = allops();
		c.ops[0].second = 25;
		bool big = g.chance(12); // near the capacity of a configuration
		over = big ? (int)g.range(0, 3) : 0; // beyond: nested actions, macros, commands
		if (over == 1) { c.ops = {{"timeout", 4}, {"overloadi", 4}, {"overloadt", 3}, {"overloadt2", 3}, {"lettermod", 2}, {"overload", 2}}; c.leafpct = 15; }
		if (over == 2) c.ops = {{"macro", 6}, {"layerm", 2}, {"togglem", 2}, {"oneshotm", 2}, {"macro2", 2}, {"timeout", 1}};
		if (over == 3) c.ops = {{"command", 6}, {"timeout", 1}, {"overload", 2}, {"key", 2}};
		if (big) { c.mklayers((int)g.range(6, 16), 1, 2); c.pickkeys(22, 26); }
		else { c.mklayers((int)g.range(1, 4), (int)g.range(0, 1), (int)g.range(0, 2)); c.pickkeys((int)g.range(3, 8), (int)g.range(2, 6)); }
		S_ cur;
		int nmac = 0, ncmd = 0, wrong = !big && g.chance(30) ? 15 : 0;
		for (auto &l0 : split(big ? c.body(48, 40, over ? 100 : 80, over ? 100 : 60, g.chance(30) ? 20 : 0) : c.body((int)g.range(4, 10), 5, 60, 40, g.chance(30) ? 1 : 0), '\n')) {
			S_ l = l0;
			if (l.empty()) continue;
			// (what the pools of a configuration can hold)
			int m = 0, k = 0;
			for (size_t i = 0; (i = l.find("m(", i)) != S_::npos; i++) m++;
			for (size_t i = 0; (i = l.find("macro", i)) != S_::npos; i++) m++;
			for (size_t i = 0; (i = l.find("command", i)) != S_::npos; i++) k++;
			if (!over && (nmac + m > 250 || ncmd + k > 64)) l = l.substr(0, l.find(" = ")) + " = f9";
			else nmac += m, ncmd += k;
			if (l[0] == '[' && l.back() == ']' && l.compare(0, 3, "[ =")) { cur = l.substr(1, l.size() - 2); sec(cur); }
			else {
				size_t eq = l.find(" = ");
				if (eq != S_::npos && l.find("command(") == S_::npos && g.chance(wrong)) l = l.substr(0, eq + 3) + misspell(c, g, l.substr(eq + 3));
				if (l.size() < 200) sec(cur).push_back(l);
			}
		}
		if (g.chance(30) && !c.keys.empty()) {
			S_ k = g.pick(c.keys), al = g.pick(VS{"myalias", "zz", "f23"});
			if (isalpha((unsigned char)k[0])) { aliases.push_back(k + " = " + al); if (g.chance(60)) sec("main").push_back(al + " = " + c.action()); }
		}
		if (g.chance(20)) { sec("main").push_back("f12 = " + g.pick(VS{"macro(a\\(b \\) x\\\\y)", "macro(\\))", "timeout(macro(\\)), 50, macro(a\\)b))", "macro(x \\( \\\\ y)", "macro(a \\)", "macro(a \\", "macro(b c\\\\)", "macro(x y \\))", "macro(a\\nb x\\ty)", "macro(\\t)", "macro(\\n x\\t)", "macro(a\\tb)", "macro(x\\q \\n)"})); c.keys.push_back("f12"); }
		if (g.chance(25)) {
			// chords over the same keys
			VS k;
			for (int i = 0; i < 3; i++) k.push_back(g.pick(LETTERS));
			if (k[0] != k[1] && k[1] != k[2] && k[0] != k[2]) {
				VS def = {k[0] + "+" + k[1], k[1] + "+" + k[0], k[0] + "+" + k[1] + "+" + k[2], k[2] + "+" + k[0] + "+" + k[1], k[1] + "+" + k[2]};
				S_ in = g.chance(60) ? S_("main") : secs[g.next() % secs.size()].first;
				for (int i = (int)g.range(2, 4); i-- > 0;) sec(in).push_back(g.pick(def) + " = " + c.leaf());
				strike = k;
				for (auto &x : k) if (std::find(c.keys.begin(), c.keys.end(), x) == c.keys.end()) for (int i = 0; i < 2; i++) c.keys.push_back(x);
			}
		}
	}
	auto gl = rglobals(c, g, 20);
	if (kind < 4) gl.clear();
	// deliver it: written down, included, or bound at run time
	int way = over ? (int)g.range(0, 1) : (int)g.range(0, 3);
	S_ text = ids(g.chance(50) ? VS{"*"} : VS{"*", "m:*", "1234:5000"}), inc1, inc2;
	S_ *out = &text;
	if (!aliases.empty()) { S_ a = "[aliases]\n"; for (auto &x : aliases) a += x + "\n"; if (way == 1 && g.chance(50)) inc1 += a; else text += a; }
	text += c.globals(gl);
	if (way == 1) { out = &inc1; if (g.chance(40)) { for (auto &s : secs) text += "[" + s.first + "]\n"; } }
	VS binds;
	bool nice = g.chance(75);
	auto deco = [&](const S_ &l) {
		S_ o;
		if (nice && g.chance(10)) o += g.pick(VS{"\n", "# comment = a\n", "   \n", "\t# [x]\n", "#\n"});
		S_ x = nice ? restyle(g, l) : l;
		if (nice && g.chance(15)) x = g.pick(VS{" ", "\t", "   "}) + x;
		if (nice && g.chance(15)) x += g.pick(VS{" ", "\t", "\r", "  "});
		return o + x + "\n";
	};
	std::vector<std::pair<S_, S_>> later;
	for (auto &s : secs) {
		S_ name = s.first.substr(0, s.first.find(':'));
		*out += "[" + s.first + "]\n";
		for (auto &l : s.second) {
			if (way == 2 || (way == 3 && g.chance(50))) {
				S_ b = nice ? restyle(g, l) : l;
				if (name != "main" || g.chance(50)) b = name + "." + b;
				binds.push_back(b);
			} else if (nice && g.chance(15)) later.push_back({g.chance(50) ? name : s.first, deco(l)});
			else *out += deco(l);
		}
		if (way == 1 && g.chance(20)) out = &inc2;
	}
	if (over) for (int i = (int)g.range(0, 8); i-- > 0;) binds.push_back(g.chance(15) ? S_("reset") : g.pick(c.keys) + " = " + c.action());
	int reopened = 0;
	for (auto &l : later) if (reopened++ < 8) *out += "[" + l.first + "]\n" + l.second;
	if (nice && !out->empty() && g.chance(15)) { out->pop_back(); } // no newline at the end
	if (way == 1) {
		if (!text.empty() && text.back() != '\n') text += "\n";
		text += "include " + g.pick(VS{"common", "  common"}) + "\n";
		if (!inc2.empty()) text += "include second\n";
		bool etc = g.chance(60);
		G.p.file(S_(etc ? "/etc/keyd/" : "/usr/local/share/keyd/") + "common", inc1);
		if (etc && g.chance(30)) G.p.file("/usr/local/share/keyd/common", "[main]\na = b\nb = c\n"); // (the one beside the config comes first)
		if (!inc2.empty()) G.p.file(S_(g.chance(50) ? "/etc/keyd/" : "/usr/local/share/keyd/") + "second", inc2);
	}
	G.p.file("/etc/keyd/default.conf", text);
	G.dev(0, "kbd", 0x1000);
	G.dev(50, "mouse", 0x5000);
	if (kind >= 4) G.kb(0, c);
	G.thr = c.thr;
	G.start();
	G.t = 100000;
	if (!binds.empty()) {
		if (g.chance(40)) {
			VS op = {"cli1", "", "bind"};
			op.insert(op.end(), binds.begin(), binds.end());
			if (g.chance(40)) G.p.par["cli_frag"] = g.range(1, 1000000);
			G.p.add(G.t, "cli", op);
			G.t += 100000 + 8000 * (int64_t)binds.size();
		} else for (auto &b : binds) { G.req(G.t, IPC_BIND, b, 0, g.chance(8) ? fragments(g) : VS{}); G.t += g.range(500, 12000); }
		G.t += 200000;
	}
	(void)reload;
	int seg = (int)g.range(1, 3);
	bool lng = G.p.par.erase("long");
	for (int s = 0; s < seg; s++) {
		if (lng && g.chance(60)) { G.ev(0, kc("f5"), 1); G.t += g.range(1000, 90000); G.ev(0, kc("f5"), 0); G.t += g.range(1000, 140000000); }
		if (kind < 4) for (int i = (int)g.range(4, 25); i-- > 0;) {
			auto x = g.pick(press);
			if (x.first < 0) {
				int a = M::keyd_to_evdev(-x.first).second, b = M::keyd_to_evdev(x.second).second;
				if (g.chance(50)) std::swap(a, b);
				G.ev(0, a, 1); G.t += g.range(0, 5000); G.ev(0, b, 1); G.t += g.range(100, 60000); G.ev(0, b, 0); G.t += g.range(0, 5000); G.ev(0, a, 0);
			} else { G.ev(x.first, x.second, 1); G.t += g.range(1000, 90000); G.ev(x.first, x.second, 0); }
			G.t += g.range(1000, 60000);
		} else G.keys((int)g.range(6, 40), 20);
		if (!strike.empty() && g.chance(70)) for (int i = (int)g.range(1, 4); i-- > 0;) {
			G.release_all();
			G.t += g.range(100000, 300000);
			VS k = strike;
			if (g.chance(60)) k.erase(k.begin() + (int)g.range(0, 2));
			for (size_t j = k.size(); j > 1; j--) std::swap(k[j - 1], k[g.next() % j]);
			for (auto &x : k) { if (!G.held.count({0, kc(x)})) G.ev(0, kc(x), 1); G.t += g.range(0, 8000); }
			G.t += g.range(1000, 90000);
			for (auto &x : k) { G.ev(0, kc(x), 0); G.t += g.range(0, 8000); }
		}
		if (g.chance(20) && binds.empty()) { G.release_all(); G.req(G.t, IPC_RELOAD, ""); G.t += 10000; }
		if (g.chance(20)) G.noise(4, 50, true, true, true, 15);
	}
	if (g.chance(5)) G.p.add(g.range(1000, G.t), "cli", A("lister", "", "list-keys"));
	G.finish(lng ? 900000 : 1200);
}
}

const std::vector<std::string> sim_props = {"C01", "C02", "C03", "C04", "C05", "C06", "C07", "C08", "C09", "C10", "C11", "C12", "C13", "C14", "C15", "C16", "C17", "C18", "C19", "C20", "C21", "C23", "C24", "C25", "C26", "C27", "C29"};

Plan generate(const std::string &prop, uint64_t seed)
{
	uint64_t h = 1469598103934665603ull;
	for (char c : prop) h = (h ^ (uint8_t)c) * 1099511628211ull;
	Gen G(prop, seed * 2654435761ull ^ h);
	G.p.seed = G.seed = seed;
	static const std::map<std::string, void (*)(Gen &)> F = {
		{"C26", gen_c26}, {"C29", gen_c29}, {"C27", gen_c27}, {"C24", gen_c24}, {"C25", gen_c25}, {"C23", gen_c23}, {"C01", gen_c01}, {"C02", gen_c02}, {"C03", gen_c03}, {"C04", gen_c04}, {"C05", gen_c05}, {"C06", gen_c06}, {"C07", gen_c07},
		{"C08", gen_c08}, {"C09", gen_c09}, {"C10", gen_c10}, {"C11", gen_c11}, {"C12", gen_c12}, {"C13", gen_c13}, {"C14", gen_c14},
		{"C15", gen_c15}, {"C16", gen_c16}, {"C17", gen_c17}, {"C18", gen_c18}, {"C19", gen_c19}, {"C20", gen_c20}, {"C21", gen_c21}};
	auto it = F.find(prop);
	if (it != F.end()) it->second(G);
	settle_unmanaged(G.p);
	return G.p;
}
