// Seeded search over schedules and faults, replay and minimisation.
#include "oracle.h"
#include <algorithm>
#include <atomic>
#include <chrono>
#include <fstream>
#include <iostream>
#include <sstream>
#include <csignal>
#include <fcntl.h>
#include <cstdlib>
#include <sys/mman.h>
#include <sys/time.h>
#include <sys/wait.h>
#include <unistd.h>

extern "C" void __asan_set_error_report_callback(void (*cb)(const char *));

namespace {
constexpr int MAXW = 64;
struct Slot {
	std::atomic<long> cur;
	char text[4096];
};
struct Shared {
	std::atomic<long> next, done, stop;
	Slot w[MAXW];
};
Shared *sh;
Slot *mine;

std::string slurp(const std::string &f)
{
	std::ifstream i(f);
	std::stringstream s;
	s << i.rdbuf();
	return s.str();
}
double wall()
{
	return std::chrono::duration<double>(std::chrono::steady_clock::now().time_since_epoch()).count();
}
void on_asan(const char *txt)
{
	if (!mine) return;
	// the first two lines tell what happened and where
	std::string s(txt), o;
	size_t p = s.find("ERROR: AddressSanitizer");
	if (p != std::string::npos) { size_t e = s.find('\n', p); o = s.substr(p, e - p); }
	p = s.find("#0 ");
	for (int i = 0; i < 6 && p != std::string::npos; i++) { size_t e = s.find('\n', p); o += " " + s.substr(p, e - p); p = s.find("#" + std::to_string(i + 1) + " ", e); }
	snprintf(mine->text, sizeof mine->text, "%s", o.c_str());
}
void on_hang(int)
{
	if (mine) snprintf(mine->text, sizeof mine->text, "the process computes without end (no system call for 10 s of CPU time)");
	_exit(98);
}
void arm()
{
	struct itimerval v = {};
	v.it_value.tv_sec = 10;
	setitimer(ITIMER_VIRTUAL, &v, nullptr);
}
uint64_t seed_of(uint64_t base, long i) { return (base << 32) + (uint64_t)i; }

std::string j(const std::string &s)
{
	std::string o = "\"";
	for (unsigned char c : s) {
		if (c == '"' || c == '\\') { o += '\\'; o += c; }
		else if (c < 32 || c > 126) o += fmt("\\u%04x", c);
		else o += c;
	}
	return o + "\"";
}

struct Found { long idx = -1; std::string what, tag; bool died = false; };

// Runs a plan in a child. Returns true (and the description) when it violates the property.
bool violates(const Plan &p, std::string &what, uint64_t *hash = nullptr)
{
	static Slot *slot = nullptr;
	static uint64_t *h;
	if (!slot) {
		char *m = (char *)mmap(nullptr, sizeof(Slot) + 64, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
		slot = (Slot *)m;
		h = (uint64_t *)(m + sizeof(Slot));
	}
	slot->text[0] = 0;
	*h = 0;
	fflush(stdout);
	pid_t pid = fork();
	if (!pid) {
		mine = slot;
		int fd = open("/dev/null", 1);
		dup2(fd, 2);
		arm();
		Result r = execute(p);
		*h = r.hash;
		Verdict v = judge(p, r);
		if (!v.f.empty()) { snprintf(slot->text, sizeof slot->text, "%s", v.f[0].what.c_str()); _exit(1); }
		_exit(0);
	}
	int st;
	waitpid(pid, &st, 0);
	if (hash) *hash = *h;
	if (WIFEXITED(st) && WEXITSTATUS(st) == 0) return false;
	what = slot->text;
	if (what.empty()) what = fmt("the simulated process died (status %x)", st);
	return true;
}

Plan minimise(Plan p, double secs, long &execs)
{
	double t0 = wall();
	std::string w;
	auto left = [&] { return wall() - t0 < secs; };
	// (a reduced plan must not show something of another kind than the original one)
	auto kind = [](const std::string &t) {
		for (auto k : {"without end", "AddressSanitizer", "spins", "died", "crash"}) if (t.find(k) != std::string::npos) return std::string(k);
		return std::string();
	};
	if (!violates(p, w)) return p;
	std::string k0 = kind(w);
	auto test = [&](const Plan &q) { execs++; return violates(q, w) && kind(w) == k0; };
	if (p.p("groups")) {
		// the actions after a marker belong together with it
		for (bool again = true; again && left();) {
			again = false;
			std::vector<size_t> b;
			for (size_t i = 0; i < p.ops.size(); i++) if (p.ops[i].op == "marker") b.push_back(i);
			b.push_back(p.ops.size());
			for (size_t n = std::max<size_t>(1, b.size() / 2); n >= 1 && !again && left(); n /= 2)
				for (size_t i = 0; i + n < b.size() && left(); i += n) {
					Plan q = p;
					q.ops.erase(q.ops.begin() + b[i], q.ops.begin() + b[i + n]);
					if (test(q)) { p = q; again = true; break; }
				}
		}
		return p;
	}
	bool progress = true;
	for (int round = 0; progress && round < 4 && left(); round++) {
		progress = false;
		// operations
		for (size_t n = std::max<size_t>(1, p.ops.size() / 2); left(); n /= 2) {
			for (size_t i = 0; i < p.ops.size() && left();) {
				Plan q = p;
				size_t e = std::min(p.ops.size(), i + n);
				bool keep = false;
				for (size_t k = i; k < e; k++) if (p.ops[k].op == "start" || p.ops[k].op == "marker") keep = true;
				if (keep && n > 1) { i += n; continue; }
				q.ops.erase(q.ops.begin() + i, q.ops.begin() + e);
				if (!keep && test(q)) { p = q; progress = true; } else i += n;
			}
			if (n <= 1) break;
		}
		// config lines
		for (size_t f = 0; f < p.files.size() && left(); f++) {
			auto lines = split(p.files[f].second, '\n');
			if (lines.size() > 400) continue;
			for (size_t i = 0; i < lines.size() && left();) {
				auto l2 = lines;
				l2.erase(l2.begin() + i);
				Plan q = p;
				std::string t;
				for (size_t k = 0; k < l2.size(); k++) t += (k ? "\n" : "") + l2[k];
				q.files[f].second = t;
				if (test(q)) { p = q; lines = l2; progress = true; } else i++;
			}
		}
		for (size_t f = 0; f < p.files.size() && left();) {
			Plan q = p;
			q.files.erase(q.files.begin() + f);
			if (test(q)) { p = q; progress = true; } else f++;
		}
		for (size_t d = 0; d < p.devs.size() && left();) {
			Plan q = p;
			int id = q.devs[d].id;
			q.devs.erase(q.devs.begin() + d);
			(void)id;
			if (test(q)) { p = q; progress = true; } else d++;
		}
		for (auto &k : {"slow_pm", "wake_hi", "sndbuf", "debug"}) {
			if (!p.par.count(k) || !left()) continue;
			Plan q = p;
			q.par.erase(k);
			if (test(q)) { p = q; progress = true; }
		}
		if (left() && p.p("uptime_ms") != 100000) { Plan q = p; q.par["uptime_ms"] = 100000; q.par["uptime_us"] = 0; if (test(q)) { p = q; progress = true; } }
	}
	return p;
}

struct Acc {
	long runs = 0, nontrivial = 0, gaveup = 0, nondet = 0, doubles = 0, died = 0;
	double sim_s = 0;
	std::map<std::string, long> st;
	std::set<uint64_t> hashes, states, sigs;
	std::vector<std::pair<long, std::string>> other;
};

uint64_t schedule_signature(const Result &r)
{
	// the order in which things happened, without times and values
	uint64_t h = 1469598103934665603ull;
	for (auto &l : r.log) {
		if (l.kind == L_CLOCK || l.kind == L_SLEEP || l.kind == L_POLLIN || l.kind == L_OUT) continue;
		uint32_t k = l.kind | (uint32_t)(uint8_t)l.proc << 8 | (uint32_t)(l.a & 0xffff) << 16;
		h = (h ^ k) * 1099511628211ull;
	}
	return h;
}

int worker(const std::string &prop, uint64_t base, long runs, double until, int id, const std::string &out, bool stopfirst)
{
	mine = &sh->w[id];
	int fd = open("/dev/null", 1);
	dup2(fd, 2);
	Acc a;
	std::vector<Found> found;
	FILE *f = fopen(out.c_str(), "a");
	for (;;) {
		if (sh->stop.load() && stopfirst) break;
		if (wall() > until) break;
		long i = sh->next.fetch_add(1);
		if (i >= runs) break;
		mine->cur = i;
		mine->text[0] = 0;
		arm();
		Plan p = generate(prop, seed_of(base, i));
		Result r = execute(p);
		Verdict v = judge(p, r);
		a.runs++;
		a.sim_s += r.end / 1e9;
		if (v.nontrivial) a.nontrivial++;
		if (v.fl.gaveup) a.gaveup++;
		for (auto &s : r.stat) a.st["fault:" + s.first] += s.second;
		for (auto &s : v.n) a.st["oracle:" + s.first] += s.second;
		a.st["model:steps"] += v.fl.steps;
		a.st["model:inputs"] += v.fl.inputs;
		a.st["model:outputs"] += v.fl.outputs;
		a.st["model:timers"] += v.fl.timers;
		a.st["model:branches"] += v.fl.branches;
		a.st["model:requests"] += v.fl.requests;
		a.st["model:reloads"] += v.fl.reloads;
		a.st["model:listener_writes"] += v.fl.lines;
		a.st["model:leds"] += v.fl.leds;
		a.st["model:commands"] += v.fl.execs;
		a.st["model:in_sync_to_the_end"] += v.fl.in_sync;
		a.st["syscalls"] += (long)r.steps;
		a.st["events"] += (long)r.log.size();
		if (v.nontrivial) a.hashes.insert(r.hash);
		a.sigs.insert(schedule_signature(r));
		if (a.states.size() < 400000) a.states.insert(v.fl.states.begin(), v.fl.states.end());
		if (i % 16 == 3) {
			a.doubles++;
			Result r2 = execute(p);
			if (r2.hash != r.hash) { a.nondet++; fprintf(f, "nondet %ld\n", i); fflush(f); }
		}
		for (auto &o : v.other) if (a.other.size() < 20) a.other.push_back({i, "[" + o.tag + "] " + o.what});
		if (!v.f.empty()) {
			sh->stop = 1;
			fprintf(f, "found %ld %s\n", i, pct(v.f[0].what).c_str());
			fflush(f);
		}
		mine->cur = -1;
		sh->done++;
	}
	mine->cur = -1;
	fprintf(f, "acc %ld %ld %ld %ld %ld %.3f\n", a.runs, a.nontrivial, a.gaveup, a.nondet, a.doubles, a.sim_s);
	for (auto &s : a.st) fprintf(f, "st %s %ld\n", pct(s.first).c_str(), s.second);
	for (uint64_t h : a.hashes) fprintf(f, "h %lx\n", h);
	for (uint64_t h : a.sigs) fprintf(f, "g %lx\n", h);
	for (uint64_t h : a.states) fprintf(f, "s %lx\n", h);
	for (auto &o : a.other) fprintf(f, "other %ld %s\n", o.first, pct(o.second).c_str());
	fclose(f);
	return 0;
}

int check(int argc, char **argv)
{
	std::string prop = argv[2], out = "/dev/stdout", dir = "/tmp";
	uint64_t base = 1;
	long runs = 100;
	double secs = 600, minsecs = 60;
	int jobs = 8, all = 0;
	for (int i = 3; i + 1 < argc; i += 2) {
		std::string k = argv[i], v = argv[i + 1];
		if (k == "--seed") base = strtoull(v.c_str(), 0, 10);
		if (k == "--runs") runs = atol(v.c_str());
		if (k == "--secs") secs = atof(v.c_str());
		if (k == "--jobs") jobs = std::min(MAXW, atoi(v.c_str()));
		if (k == "--out") out = v;
		if (k == "--replays") dir = v;
		if (k == "--min") minsecs = atof(v.c_str());
		if (k == "--all") all = atoi(v.c_str());
	}
	double t0 = wall(), until = t0 + secs;
	std::string tmp = dir + fmt("/.w%d-%s", getpid(), prop.c_str());
	std::vector<pid_t> pid(jobs);
	std::vector<Found> found;
	long died = 0;
	auto file = [&](int i) { return tmp + "." + std::to_string(i); };
	auto spawn = [&](int i) {
		fflush(stdout);
		sh->w[i].cur = -1;
		pid[i] = fork();
		if (!pid[i]) _exit(worker(prop, base, runs, until, i, file(i), !all));
	};
	for (int i = 0; i < jobs; i++) { unlink(file(i).c_str()); spawn(i); }
	int live = jobs;
	while (live) {
		int st;
		pid_t p = waitpid(-1, &st, 0);
		if (p < 0) break;
		int i = 0;
		while (i < jobs && pid[i] != p) i++;
		if (i == jobs) continue;
		live--;
		if (WIFEXITED(st) && WEXITSTATUS(st) == 0) continue;
		// the simulated code took the worker down with it
		died++;
		Found f;
		f.idx = sh->w[i].cur;
		f.what = sh->w[i].text[0] ? sh->w[i].text : fmt("the simulated process died (status %x)", st).c_str();
		f.died = true;
		if (f.idx >= 0) found.push_back(f);
		if (!all || died > 50) sh->stop = 1;
		if (!sh->stop || all) { if (died <= 50) { spawn(i); live++; } }
	}
	Acc a;
	for (int i = 0; i < jobs; i++) {
		std::ifstream in(file(i));
		std::string l;
		while (std::getline(in, l)) {
			auto t = split(l, ' ');
			if (t[0] == "found") { Found f; f.idx = atol(t[1].c_str()); f.what = t.size() > 2 ? unpct(t[2]) : ""; found.push_back(f); }
			else if (t[0] == "acc") { a.runs += atol(t[1].c_str()); a.nontrivial += atol(t[2].c_str()); a.gaveup += atol(t[3].c_str()); a.nondet += atol(t[4].c_str()); a.doubles += atol(t[5].c_str()); a.sim_s += atof(t[6].c_str()); }
			else if (t[0] == "st") a.st[unpct(t[1])] += atol(t[2].c_str());
			else if (t[0] == "h") a.hashes.insert(strtoull(t[1].c_str(), 0, 16));
			else if (t[0] == "g") a.sigs.insert(strtoull(t[1].c_str(), 0, 16));
			else if (t[0] == "s") a.states.insert(strtoull(t[1].c_str(), 0, 16));
			else if (t[0] == "other") a.other.push_back({atol(t[1].c_str()), t.size() > 2 ? unpct(t[2]) : ""});
		}
		unlink(file(i).c_str());
	}
	double wsearch = wall() - t0;
	std::sort(found.begin(), found.end(), [](const Found &x, const Found &y) { return x.idx < y.idx; });
	std::string viol;
	long mexec = 0, gone = 0;
	int reported = 0;
	for (auto &f : found) {
		if (all) { printf("FOUND %ld %s\n", f.idx, f.what.c_str()); continue; }
		Plan p = generate(prop, seed_of(base, f.idx));
		std::string what;
		uint64_t h1 = 0, h2 = 0;
		// a violation counts only if it replays exactly
		if (!violates(p, what, &h1) || !violates(p, what, &h2) || h1 != h2) { gone++; continue; }
		Plan q = minimise(p, minsecs, mexec);
		if (!violates(q, what, &h1)) { q = p; violates(q, what, &h1); }
		std::string path = dir + "/" + prop + "-" + std::to_string(p.seed) + ".plan";
		{
			std::ofstream o(path);
			o << "# violation of " << prop << ": " << pct(what) << "\n# found by seed " << p.seed << ", minimised from " << p.ops.size() << " to " << q.ops.size() << " actions\n" << q.str();
		}
		// the file has to reproduce it in a fresh process

		char self[4096];
		ssize_t n = readlink("/proc/self/exe", self, sizeof self - 1);
		self[n > 0 ? n : 0] = 0;
		int rc = system(fmt("'%s' replay '%s' >/dev/null 2>&1", self, path.c_str()).c_str());
		if (!WIFEXITED(rc) || WEXITSTATUS(rc) == 0) { std::ofstream o(path); o << p.str(); rc = system(fmt("'%s' replay '%s' >/dev/null 2>&1", self, path.c_str()).c_str()); }
		if (!WIFEXITED(rc) || WEXITSTATUS(rc) == 0) { gone++; continue; }
		viol += (viol.empty() ? "" : ", ") + fmt("{\"seed\": %llu, \"what\": ", (unsigned long long)p.seed) + j(what) + ", \"replay\": " + j(path) + fmt(", \"actions\": %zu, \"from\": %zu}", q.ops.size(), p.ops.size());
		printf("violation: %s (seed %llu, %zu of %zu actions, replay %s)\n", pct(what).c_str(), (unsigned long long)p.seed, q.ops.size(), p.ops.size(), path.c_str());
		if (++reported >= 1) break;
	}
	// sample cases
	std::string samples;
	for (long i = 0; i < 2; i++) {
		Plan p = generate(prop, seed_of(base, i));
		std::string s;
		for (auto &l : split(p.str(), '\n')) { if (s.size() > 1800) { s += "..."; break; } s += l.substr(0, 160) + "\n"; }
		samples += (i ? ", " : "") + j(s);
	}
	std::string st, oth;
	for (auto &s : a.st) st += (st.empty() ? "" : ", ") + j(s.first) + ": " + std::to_string(s.second);
	for (size_t i = 0; i < a.other.size() && i < 20; i++) oth += (i ? ", " : "") + fmt("[%ld, ", a.other[i].first) + j(a.other[i].second) + "]";
	std::ofstream o(out);
	o << "{\"prop\": " << j(prop) << ", \"runs\": " << a.runs << ", \"nontrivial\": " << a.nontrivial << ", \"distinct\": " << a.hashes.size() << ", \"schedules\": " << a.sigs.size()
	  << ", \"states\": " << a.states.size() << ", \"gaveup\": " << a.gaveup << ", \"doubles\": " << a.doubles << ", \"nondet\": " << a.nondet << ", \"died\": " << died
	  << ", \"unreproduced\": " << gone << fmt(", \"sim_s\": %.3f, \"wall_s\": %.3f, \"minimise_execs\": %ld", a.sim_s, wsearch, mexec)
	  << ", \"first_seed\": " << seed_of(base, 0) << ", \"found\": " << found.size() << ", \"violations\": [" << viol << "], \"other\": [" << oth << "], \"counts\": {" << st << "}, \"samples\": [" << samples << "]}\n";
	o.close();
	return viol.empty() ? 0 : 1;
}
}

int main(int argc, char **argv)
{
	__asan_set_error_report_callback(on_asan);
	signal(SIGVTALRM, on_hang);
	init_instances();
	sh = (Shared *)mmap(nullptr, sizeof(Shared), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
	std::string mode = argc > 1 ? argv[1] : "";
	if (mode == "gen" && argc > 3) {
		std::cout << generate(argv[2], strtoull(argv[3], 0, 10)).str();
		return 0;
	}
	if ((mode == "run" || mode == "replay") && argc > 2) {
		Plan p;
		std::string err;
		if (!Plan::parse(slurp(argv[2]), p, err)) { std::cerr << err << "\n"; return 2; }
		std::string what;
		if (mode == "replay") {
			bool v = violates(p, what);
			if (v) printf("reproduced: property %s: %s\n", p.prop.c_str(), pct(what).c_str());
			else printf("no violation\n");
			return v;
		}
		Result r = execute(p);
		std::cout << dump_log(r);
		Verdict v = judge(p, r);
		std::cout << fmt("hash %016lx steps %lu crash %s\n", r.hash, r.steps, r.crash.c_str());
		auto &f = v.fl;
		std::cout << fmt("sync %d gaveup %d policy %d steps %ld in %ld out %ld timers %ld branches %ld maxw %ld lines %ld execs %ld states %zu latched %d pending %d blocked %d\n", f.in_sync, f.gaveup, f.policy, f.steps, f.inputs, f.outputs, f.timers, f.branches, f.maxworlds, f.lines, f.execs, f.states.size(), f.latched, f.pending, r.blocked);
		for (auto &x : r.procs) std::cout << "proc " << x.role << " alive " << x.alive << " code " << x.code << " " << x.reason << "\n";
		for (auto &x : v.known) std::cout << "KNOWN " << x << "\n";
		for (auto &x : v.f) std::cout << "FINDING [" << x.tag << "] " << x.what << fmt(" at %.3f\n", x.t / 1e6);
		for (auto &x : v.other) std::cout << "other [" << x.tag << "] " << x.what << fmt(" at %.3f\n", x.t / 1e6);
		return v.f.empty() ? 0 : 1;
	}
	if (mode == "minimise" && argc > 3) {
		Plan p = generate(argv[2], strtoull(argv[3], 0, 10));
		std::string what;
		long n = 0;
		if (!violates(p, what)) { printf("# no violation\n"); return 1; }
		p = minimise(p, 60, n);
		violates(p, what);
		std::cout << "# " << pct(what) << "\n" << p.str();
		return 0;
	}
	if (mode == "hash" && argc > 4) { // event log hashes of a range of seeds
		for (long i = atol(argv[3]); i < atol(argv[4]); i++) { Result r = execute(generate(argv[2], seed_of(1, i))); printf("%ld %016lx\n", i, r.hash); }
		return 0;
	}
	if (mode == "check" && argc > 2) return check(argc, argv);
	std::cerr << "usage: sim check PROP [--seed N --runs N --secs T --jobs N --out F --replays DIR] | gen PROP SEED | run FILE | replay FILE | hash PROP A B\n";
	return 2;
}
