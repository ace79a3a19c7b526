#include "model.h"
#include "keytab.h"
extern "C" const char *sim_repo_dir;
#include <algorithm>
#include <unordered_map>

namespace M {

// ---------------------------------------------------------------- names
int key_by_name(const std::string &n)
{
	for (auto &k : KEYTAB)
		if (n == k.name || (k.alt && n == k.alt))
			return k.code;
	return 0;
}

std::map<int, std::string> key_names()
{
	std::map<int, std::string> m;
	for (auto &k : KEYTAB) m[k.code] = k.name;
	return m;
}

static int mod_letter(char c)
{
	switch (c) {
	case 'C': return MOD_CTRL;
	case 'M': return MOD_SUPER;
	case 'A': return MOD_ALT;
	case 'S': return MOD_SHIFT;
	case 'G': return MOD_ALTGR;
	}
	return 0;
}

bool key_seq(const std::string &str, int &code, int &mods)
{
	std::string s = str;
	if (s.empty())
		return false;
	mods = 0;
	while (s.size() > 1 && s[1] == '-') {
		int m = mod_letter(s[0]);
		if (!m)
			return false;
		mods |= m;
		s.erase(0, 2);
	}
	for (auto &k : KEYTAB) {
		if (k.shift && s == k.shift) {
			mods |= MOD_SHIFT;
			code = k.code;
			return true;
		}
		if (s == k.name || (k.alt && s == k.alt)) {
			code = k.code;
			return true;
		}
	}
	return false;
}

const std::vector<KeyTab> &key_table()
{
	static std::vector<KeyTab> v;
	if (v.empty()) for (auto &k : KEYTAB) v.push_back({k.code, k.name, k.alt, k.shift});
	return v;
}

static Compose load_compose()
{
	Compose c;
	FILE *f = fopen((std::string(sim_repo_dir) + "/data/keyd.compose").c_str(), "r");
	if (!f) { c.error = "no data/keyd.compose"; return c; }
	char buf[512];
	while (fgets(buf, sizeof buf, f)) {
		std::string l = buf;
		std::vector<int> keys;
		size_t i = 0;
		bool ok = true;
		for (;;) {
			while (i < l.size() && isspace((unsigned char)l[i])) i++;
			if (i >= l.size() || l[i] != '<') break;
			size_t e = l.find('>', i);
			if (e == std::string::npos) { ok = false; break; }
			std::string n = l.substr(i + 1, e - i - 1);
			int code = n == "Cancel" ? 223 : n.size() == 1 ? key_by_name(n) : 0;
			if (!code) ok = false;
			keys.push_back(code);
			i = e + 1;
		}
		size_t q = l.find('"', i), e = l.rfind('"');
		if (keys.empty() || q == std::string::npos || e <= q) { if (l.find_first_not_of(" \t\r\n") != std::string::npos && l[0] != '#' && l.compare(0, 7, "include")) c.error = "a line without meaning: " + l; continue; }
		if (!ok) continue;
		std::string s;
		for (size_t k = q + 1; k < e; k++) { if (l[k] == '\\' && k + 1 < e) k++; s += l[k]; }
		uint32_t cp;
		int n = utf8_next(s, 0, cp);
		if (!c.tree.emplace(keys, s).second) c.error = "two characters share a sequence: " + l;
		for (size_t k = 1; k < keys.size(); k++) c.prefixes.insert(std::vector<int>(keys.begin(), keys.begin() + k));
		if (n && (size_t)n == s.size()) {
			c.index[cp] = (int)c.entries.size();
			c.entries.push_back({cp, keys});
		}
	}
	fclose(f);
	for (auto &t : c.tree) if (c.prefixes.count(t.first)) c.error = "the sequence of " + t.second + " begins another one";
	if (c.index.size() != c.entries.size() && c.error.empty()) c.error = "a character has two sequences";
	return c;
}

const Compose &compose()
{
	static const Compose c = load_compose();
	return c;
}

int unicode_index(uint32_t cp)
{
	auto &c = compose();
	auto i = c.index.find(cp);
	return i == c.index.end() ? -1 : i->second;
}

void unicode_keys(int idx, int out[4])
{
	auto &k = compose().entries[(size_t)idx].keys;
	for (size_t i = 0; i < 4; i++) out[i] = i < k.size() ? k[i] : 0;
}

// one UTF-8 sequence the way keyd reads it: consumed bytes, 0 at the end
int utf8_next(const std::string &s, size_t i, uint32_t &cp)
{
	auto at = [&](size_t k) -> unsigned { return i + k < s.size() ? (unsigned char)s[i + k] : 0; };
	unsigned c = at(0);
	if (!c)
		return 0;
	if (c >= 0xF0 && at(1) && at(2) && at(3)) {
		cp = (c & 7) << 18 | (at(1) & 63) << 12 | (at(2) & 63) << 6 | (at(3) & 63);
		return 4;
	}
	if (c >= 0xE0 && at(1) && at(2)) {
		cp = (c & 15) << 12 | (at(1) & 63) << 6 | (at(2) & 63);
		return 3;
	}
	if (c >= 0xC0 && at(1)) {
		cp = (c & 31) << 6 | (at(1) & 63);
		return 2;
	}
	if (c >= 0xC0) {
		cp = 0xFFFD;
		return 1;
	}
	cp = c & 0x7f;
	return 1;
}

static bool timeval(const std::string &s)
{
	size_t i = 0;
	while (i < s.size() && isdigit((unsigned char)s[i])) i++;
	return i > 0 && s.substr(i) == "ms";
}

static std::vector<std::string> tokens(const std::string &s, char c)
{
	std::vector<std::string> r;
	std::string cur;
	for (char x : s) {
		if (x == c) {
			if (!cur.empty()) r.push_back(cur);
			cur.clear();
		} else
			cur += x;
	}
	if (!cur.empty()) r.push_back(cur);
	return r;
}

// macro text: key sequences, a+b holds, delays, literal text
bool parse_macro(const std::string &s, Macro &m, bool &unknown)
{
	int code, mods;
	unknown = false;
	m.e.clear();
	for (auto &tok : tokens(s, ' ')) {
		if (key_seq(tok, code, mods))
			m.e.push_back({MEnt::KEYSEQ, code, mods});
		else if (tok.find('+') != std::string::npos) {
			for (auto &k : tokens(tok, '+')) {
				if (timeval(k))
					m.e.push_back({MEnt::DELAY, atoi(k.c_str()), 0});
				else if (key_seq(k, code, mods))
					m.e.push_back({MEnt::HOLD, code, 0});
				else
					return false;
			}
			m.e.push_back({MEnt::RELEASE, 0, 0});
		} else if (timeval(tok))
			m.e.push_back({MEnt::DELAY, atoi(tok.c_str()), 0});
		else {
			uint32_t cp;
			int n;
			for (size_t i = 0; (n = utf8_next(tok, i, cp)); i += n) {
				if (n == 1 && cp < 128) {
					std::string ch(1, tok[i]);
					for (auto &k : KEYTAB)
						if (ch == k.name || (k.shift && ch == k.shift)) {
							m.e.push_back({MEnt::KEYSEQ, k.code, ch == k.name ? 0 : MOD_SHIFT});
							break;
						}
				} else {
					int idx = unicode_index(cp);
					if (idx >= 0)
						m.e.push_back({MEnt::UNICODE, idx, 0});
					else
						unknown = true;
				}
			}
		}
		if (m.e.size() > 256)
			return false;
	}
	return m.e.size() <= 256;
}

static std::string unescape(const std::string &s)
{
	std::string r;
	for (size_t i = 0; i < s.size(); i++) {
		if (s[i] != '\\') {
			r += s[i];
			continue;
		}
		if (i + 1 >= s.size())
			return r;
		char c = s[++i];
		if (c == 'n') r += '\n';
		else if (c == 't') r += '\t';
		else if (c == '\\' || c == ')' || c == '(') r += c;
		else { r += '\\'; r += c; }
	}
	return r;
}

// ---------------------------------------------------------------- configs
int Cfg::layer_idx(const std::string &n) const
{
	for (size_t i = 0; i < layers.size(); i++)
		if (layers[i]->name == n)
			return (int)i;
	return -1;
}

int Cfg::match(const std::string &id, int flags) const
{
	for (auto &x : ids)
		if (id.compare(0, x.first.size(), x.first) == 0) {
			if (x.second & 1)
				return 0;
			if (x.second & flags)
				return 2;
		}
	return wildcard ? 1 : 0;
}

static bool split_fn(const std::string &s, std::string &name, std::vector<std::string> &args)
{
	size_t p = s.find('(');
	args.clear();
	if (p == std::string::npos)
		return false;
	name = s.substr(0, p);
	size_t i = p + 1;
	while (i < s.size() && s[i] == ' ') i++;
	size_t start = i;
	for (;;) {
		int lvl = 0;
		bool end = false;
		for (; i < s.size(); i++) {
			if (s[i] == '\\' && i + 1 < s.size()) { i++; continue; }
			if (s[i] == '(') lvl++;
			else if (s[i] == ')') { if (--lvl == -1) { end = true; break; } }
			else if (s[i] == ',' && lvl == 0) { end = true; break; }
		}
		if (!end)
			return false;
		if (i != start) {
			if (args.size() >= 5)
				return false;
			args.push_back(s.substr(start, i - start));
		}
		if (s[i] == ')')
			return true;
		i++;
		while (i < s.size() && s[i] == ' ') i++;
		start = i;
	}
}

// 0 ok, -1 not a macro expression, 1 error
static int macro_expr(const std::string &s, Macro &m)
{
	int code, mods;
	bool unk;
	std::string t = s;
	if (s.size() >= 1024)
		return -1;
	if (t.compare(0, 6, "macro(") == 0 && t.back() == ')')
		t = unescape(t.substr(6, t.size() - 7));
	else if (!key_seq(t, code, mods)) {
		uint32_t cp;
		int n, chars = 0;
		for (size_t i = 0; (n = utf8_next(t, i, cp)); i += n) chars++;
		if (chars != 1)
			return -1;
	}
	return parse_macro(t, m, unk) ? 0 : 1;
}

enum ArgT { A_NONE, A_MACRO, A_LAYER, A_LAYOUT, A_TIME, A_SENS, A_ACT };
static const struct { const char *name; Op op; ArgT a[3]; } ACTIONS[] = {
	{"swap", SWAP, {A_LAYER}}, {"clear", CLEAR, {}}, {"oneshot", ONESHOT, {A_LAYER}}, {"toggle", TOGGLE, {A_LAYER}},
	{"clearm", CLEARM, {A_MACRO}}, {"swapm", SWAPM, {A_LAYER, A_MACRO}}, {"togglem", TOGGLEM, {A_LAYER, A_MACRO}},
	{"layerm", LAYERM, {A_LAYER, A_MACRO}}, {"oneshotm", ONESHOTM, {A_LAYER, A_MACRO}}, {"layer", LAYER, {A_LAYER}},
	{"overload", OVERLOAD, {A_LAYER, A_ACT}}, {"overloadt", OVERLOADT, {A_LAYER, A_ACT, A_TIME}},
	{"overloadt2", OVERLOADT2, {A_LAYER, A_ACT, A_TIME}}, {"overloadi", OVERLOADI, {A_ACT, A_ACT, A_TIME}},
	{"timeout", TIMEOUT, {A_ACT, A_TIME, A_ACT}}, {"macro2", MACRO2, {A_TIME, A_TIME, A_MACRO}}, {"setlayout", LAYOUT, {A_LAYOUT}},
	{"scrollt", SCROLLT, {A_SENS}}, {"scroll", SCROLL, {A_SENS}}, {"overload2", OVERLOADT, {A_LAYER, A_ACT, A_TIME}},
	{"overload3", OVERLOADT2, {A_LAYER, A_ACT, A_TIME}}, {"toggle2", TOGGLEM, {A_LAYER, A_MACRO}}, {"swap2", SWAPM, {A_LAYER, A_MACRO}},
};

static bool parse_act(const Cfg &c, const std::string &s, ActP &res)
{
	auto d = std::make_shared<Act>();
	res = d;
	int code, mods;
	if (s.empty())
		return true;
	if (key_seq(s, code, mods)) {
		const char *layer = code == 42 ? "shift" : code == 29 ? "control" : code == 125 ? "meta" : code == 56 ? "alt" : code == 100 ? "altgr" : nullptr;
		if (layer) {
			d->op = LAYER;
			d->layer = c.layer_idx(layer);
			return true;
		}
		d->op = KEYSEQ;
		d->code = code;
		d->mods = mods;
		return true;
	}
	if (s.compare(0, 8, "command(") == 0 && s.back() == ')') {
		if (s.size() > 256)
			return false;
		if (c.pool[2] >= 64)
			return false;
		c.pool[2]++;
		d->op = COMMAND;
		d->cmd = unescape(s.substr(8, s.size() - 9));
		return true;
	}
	Macro m;
	int r = macro_expr(s, m);
	if (r == 1)
		return false;
	if (r == 0) {
		if (c.pool[1] >= 256)
			return false;
		c.pool[1]++;
		d->op = MACRO;
		d->m = std::make_shared<Macro>(m);
		return true;
	}
	std::string fn;
	std::vector<std::string> args;
	if (!split_fn(s, fn, args))
		return false;
	if (fn == "lettermod") {
		if (args.size() != 4)
			return false;
		std::string t = "overloadi(" + args[1] + ", overloadt2(" + args[0] + ", " + args[1] + ", " + args[3] + "), " + args[2] + ")";
		if (!split_fn(t, fn, args))
			return false;
	}
	for (auto &a : ACTIONS) {
		if (fn != a.name)
			continue;
		size_t n = 0;
		while (n < 3 && a.a[n]) n++;
		if (args.size() != n)
			return false;
		d->op = a.op;
		int nact = 0, nt = 0;
		for (size_t i = 0; i < n; i++) nact += a.a[i] == A_ACT, nt += a.a[i] == A_TIME;
		for (size_t i = n; i-- > 0;) { // (the last argument is stored first)
			const std::string &x = args[i];
			switch (a.a[i]) {
			case A_LAYER:
				d->layer = c.layer_idx(x);
				if (x == "main" || d->layer < 0 || c.layers[d->layer]->type == Layer::LAYOUT)
					return false;
				break;
			case A_LAYOUT:
				d->layer = c.layer_idx(x);
				if (d->layer < 0 || (d->layer && c.layers[d->layer]->type != Layer::LAYOUT))
					return false;
				break;
			case A_ACT: {
				ActP sub;
				if (!parse_act(c, x, sub))
					return false;
				if (c.pool[0] >= 1024)
					return false;
				c.pool[0]++;
				(--nact ? d->a2 : d->a1) = sub;
				break;
			}
			case A_SENS: d->sens = (int16_t)atoi(x.c_str()); break;
			case A_TIME: (--nt ? d->t2 : d->t1) = (uint16_t)atoi(x.c_str()); break;
			case A_MACRO: {
				Macro mm;
				if (c.pool[1] >= 256 || macro_expr(x, mm))
					return false;
				c.pool[1]++;
				d->m = std::make_shared<Macro>(mm);
				break;
			}
			default: break;
			}
		}
		return true;
	}
	return false;
}

static void kvp(const std::string &s, std::string &k, std::string &v, bool &has)
{
	size_t i = 0;
	has = false;
	v.clear();
	if (!s.empty() && s[0] == '=')
		i = 1;
	size_t eq = s.find('=', i);
	if (eq == std::string::npos) {
		k = s;
		return;
	}
	size_t e = eq;
	while (e > 0 && (s[e - 1] == ' ' || s[e - 1] == '\t') && e > i) e--;
	k = s.substr(0, e);
	size_t b = eq + 1;
	while (b < s.size() && (s[b] == ' ' || s[b] == '\t')) b++;
	v = s.substr(b);
	has = true;
}

bool cfg_bind(Cfg &c, const std::string &exp)
{
	if (exp.size() >= 512)
		return false;
	std::string s = exp, lname = "main", k, v;
	bool has;
	size_t dot = s.find('.'), par = s.find('('), eq = s.find('=', 1);
	if (dot != std::string::npos && dot != 0 && (par == std::string::npos || dot < par) && (eq == std::string::npos || dot < eq)) {
		lname = s.substr(0, dot);
		s = s.substr(dot + 1);
	}
	kvp(s, k, v, has);
	int idx = c.layer_idx(lname);
	if (idx < 0)
		return false;
	ActP d;
	if (!parse_act(c, has ? v : "", d))
		return false;
	auto l = std::make_shared<Layer>(*c.layers[idx]);
	if (k.find('+') != std::string::npos) {
		std::vector<int> keys;
		for (auto &t : tokens(k, '+')) {
			int code = key_by_name(t);
			if (!code || keys.size() >= 8)
				return false;
			keys.push_back(code);
		}
		if (keys.empty())
			return false;
		bool found = false;
		for (auto &ch : l->chords) {
			size_t n = 0;
			for (int x : keys)
				if (std::count(ch.keys.begin(), ch.keys.end(), x)) n++;
			if (n == keys.size() && ch.keys.size() == n) {
				ch.d = d;
				found = true;
				break;
			}
		}
		if (!found) {
			if (l->chords.size() >= 64)
				return false;
			l->chords.push_back({keys, d});
		}
	} else {
		bool found = false;
		for (auto &a : c.aliases)
			if (a.second == k) {
				l->keymap[a.first] = d;
				found = true;
			}
		if (!found) {
			int code = key_by_name(k);
			if (!code)
				return false;
			l->keymap[code] = d;
		}
	}
	c.layers[idx] = l;
	return true;
}

static bool add_layer(Cfg &c, const std::string &sec)
{
	if (sec.size() > 64)
		return false;
	auto t = tokens(sec, ':');
	if (t.empty())
		return false;
	if (c.layer_idx(t[0]) >= 0)
		return true;
	if (c.layers.size() >= 32)
		return false;
	auto l = std::make_shared<Layer>();
	l->name = t[0];
	std::string type = t.size() > 1 ? t[1] : "";
	if (t[0].find('+') != std::string::npos) {
		l->type = Layer::COMPOSITE;
		if (!type.empty())
			return false;
		for (auto &n : tokens(t[0], '+')) {
			int i = c.layer_idx(n);
			if (i < 0 || l->parts.size() >= 8)
				return false;
			l->parts.push_back(i);
		}
	} else if (type == "layout")
		l->type = Layer::LAYOUT;
	else if (!type.empty()) {
		int m = 0;
		bool ok = type.size() % 2 == 1;
		for (size_t i = 0; ok && i < type.size(); i++)
			if (i % 2) ok = type[i] == '-';
			else if (mod_letter(type[i])) m |= mod_letter(type[i]);
			else ok = false;
		if (ok)
			l->mods = m;
	}
	c.layers.push_back(l);
	return true;
}

static bool cfg_text(Cfg &c, const std::string &txt)
{
	struct Sec { std::string name; std::vector<std::pair<std::string, std::pair<bool, std::string>>> e; };
	std::vector<Sec> secs;
	for (size_t i = 0; i < txt.size();) {
		size_t nl = txt.find('\n', i);
		if (nl == std::string::npos) nl = txt.size();
		std::string line = txt.substr(i, nl - i);
		i = nl + 1;
		while (!line.empty() && isspace((unsigned char)line[0])) line.erase(0, 1);
		while (!line.empty() && isspace((unsigned char)line.back())) line.pop_back();
		if (line.empty() || line[0] == '#')
			continue;
		if (line[0] == '[' && line.back() == ']' && line[line.find_first_not_of(" \t", 1)] != '=') {
			if (secs.size() >= 32)
				return false;
			secs.push_back({line.substr(1, line.size() - 2).substr(0, 255), {}});
			continue;
		}
		if (secs.empty() || secs.back().e.size() >= 1024)
			return false;
		std::string k, v;
		bool has;
		kvp(line, k, v, has);
		secs.back().e.push_back({k, {has, v}});
	}
	for (auto &s : secs) {
		if (s.name == "ids") {
			for (auto &e : s.e) {
				const std::string &k = e.first;
				if (c.ids.size() >= 64)
					continue;
				if (k == "*") c.wildcard = true;
				else if (k.compare(0, 2, "m:") == 0) c.ids.push_back({k.substr(2).substr(0, 63), 2});
				else if (k.compare(0, 2, "k:") == 0) c.ids.push_back({k.substr(2).substr(0, 63), 4});
				else if (k[0] == '-') c.ids.push_back({k.substr(1).substr(0, 63), 1});
				else if (k.size() < 63) c.ids.push_back({k, 6});
			}
		} else if (s.name == "aliases") {
			for (auto &e : s.e) {
				int code = key_by_name(e.first), other;
				const std::string &n = e.second.second;
				if (!e.second.first || !code || n.size() >= 32)
					continue;
				if ((other = key_by_name(n))) {
					auto a = std::make_shared<Act>();
					a->op = KEYSEQ;
					a->code = other;
					auto l = std::make_shared<Layer>(*c.layers[0]);
					l->keymap[code] = a;
					c.layers[0] = l;
				}
				c.aliases[code] = n;
			}
		} else if (s.name == "global") {
			for (auto &e : s.e) {
				if (!e.second.first)
					continue;
				long v = atoi(e.second.second.c_str());
				const std::string &k = e.first;
				if (k == "macro_timeout") c.macro_timeout = v;
				else if (k == "macro_sequence_timeout") c.macro_seq = v;
				else if (k == "disable_modifier_guard") c.noguard = (uint8_t)v;
				else if (k == "oneshot_timeout") c.oneshot_timeout = v;
				else if (k == "chord_hold_timeout") c.chord_hold = v;
				else if (k == "chord_timeout") c.chord_interkey = v;
				else if (k == "default_layout") c.default_layout = e.second.second.substr(0, 63);
				else if (k == "macro_repeat_timeout") c.macro_repeat = v;
				else if (k == "layer_indicator") c.indicator = (uint8_t)v;
				else if (k == "overload_tap_timeout") c.tap_timeout = v;
			}
		} else
			add_layer(c, s.name);
	}
	for (auto &s : secs) {
		if (s.name == "ids" || s.name == "aliases" || s.name == "global")
			continue;
		auto t = tokens(s.name, ':');
		if (t.empty())
			continue;
		for (auto &e : s.e) {
			if (!e.second.first || !cfg_bind(c, t[0] + "." + e.first + " = " + e.second.second))
				c.errors.push_back(t[0] + "." + e.first);
		}
	}
	return true;
}

static const char *DEFAULTS =
	"[aliases]\nleftshift = shift\nrightshift = shift\nleftalt = alt\nrightalt = altgr\nleftmeta = meta\nrightmeta = meta\n"
	"leftcontrol = control\nrightcontrol = control\n[main:layout]\nshift = layer(shift)\nalt = layer(alt)\naltgr = layer(altgr)\n"
	"meta = layer(meta)\ncontrol = layer(control)\n[control:C]\n[shift:S]\n[meta:M]\n[alt:A]\n[altgr:G]\n";

CfgP cfg_load(const Files &fs, const std::string &path)
{
	auto it = fs.find(path);
	if (it == fs.end())
		return nullptr;
	std::string txt;
	const std::string &d = it->second;
	std::string dir = path.substr(0, path.rfind('/'));
	for (size_t i = 0; i < d.size();) {
		size_t nl = d.find('\n', i);
		std::string line = d.substr(i, nl == std::string::npos ? nl : nl - i);
		if (line.size() + 1 > 256)
			return nullptr;
		i = nl == std::string::npos ? d.size() : nl + 1;
		if (line.compare(0, 8, "include ") == 0) {
			std::string inc = line.substr(8);
			while (!inc.empty() && inc[0] == ' ') inc.erase(0, 1);
			if (inc.find('.') != std::string::npos)
				continue;
			auto f = fs.find(dir + "/" + inc);
			if (f == fs.end()) f = fs.find("/usr/local/share/keyd/" + inc);
			if (f == fs.end())
				continue;
			txt += f->second;
			if (!f->second.empty() && f->second.back() != '\n') txt += '\n';
		} else
			txt += line + "\n";
		if (txt.size() >= 65535)
			return nullptr;
	}
	auto c = std::make_shared<Cfg>();
	c->path = path;
	cfg_text(*c, DEFAULTS);
	c->errors.clear();
	if (!cfg_text(*c, txt))
		return nullptr;
	return c;
}

// ---------------------------------------------------------------- engine
static const struct { int mask, key; } MODS[] = {{MOD_ALT, 56}, {MOD_ALTGR, 100}, {MOD_SHIFT, 42}, {MOD_SUPER, 125}, {MOD_CTRL, 29}};

Kbd::Kbd(CfgP c) : orig(c), cfg(c), ls(c->layers.size())
{
	std::copy_n(c->pool, 3, pool);
	ls[0].active = 1;
	for (size_t i = 0; i < ls.size(); i++)
		if (!c->default_layout.empty() && L(i).type == Layer::LAYOUT && L(i).name == c->default_layout) {
			ls[i].active = 1;
			ls[i].at = 1;
			break;
		}
}

Kbd::Ent *Kbd::find(int code)
{
	for (auto &e : cache)
		if (e.code == code)
			return &e;
	return nullptr;
}

bool Kbd::store(int code, const Ent *e)
{
	Ent *slot = nullptr;
	for (auto &x : cache) {
		if (x.code == code) { slot = &x; break; }
		if (!x.code) slot = &x;
	}
	if (!slot)
		return false;
	if (!e)
		slot->code = 0;
	else {
		*slot = *e;
		slot->code = code;
	}
	return true;
}

void Kbd::send(int code, int st)
{
	if (code == K_NOOP || code == K_EXT)
		return;
	if (st)
		last_out = code;
	if (ks[code] != (bool)st) {
		ks[code] = st;
		o->key(code, st);
	}
}

void Kbd::clear_mod(int code)
{
	bool guard = last_out == code && (code == 125 || code == 56 || code == 100) && !inhibit && !cfg->noguard;
	if (guard && !ks[29]) {
		send(29, 1);
		send(code, 0);
		send(29, 0);
	} else
		send(code, 0);
}

void Kbd::set_mods(int mods)
{
	for (auto &m : MODS) {
		if (m.mask & mods) {
			if (!ks[m.key]) send(m.key, 1);
		} else if (ks[m.key])
			clear_mod(m.key);
	}
}

void Kbd::update_mods(int ex, int mods)
{
	for (size_t i = 0; i < ls.size(); i++) {
		if (!ls[i].active)
			continue;
		bool excluded = (int)i == ex;
		if (!excluded && ex >= 0 && L(ex).type == Layer::COMPOSITE)
			excluded = std::count(L(ex).parts.begin(), L(ex).parts.end(), (int)i) > 0;
		if (!excluded)
			mods |= L(i).mods;
	}
	set_mods(mods);
}

void macro_play(Sink *o, const Macro &m, long seq)
{
	std::vector<int> held;
	for (auto &e : m.e) {
		switch (e.type) {
		case MEnt::HOLD:
			held.push_back(e.code);
			o->key(e.code, 1);
			break;
		case MEnt::RELEASE:
			for (int c : held) o->key(c, 0);
			held.clear();
			break;
		case MEnt::UNICODE: {
			int k[4];
			unicode_keys(e.code, k);
			for (int c : k) {
				o->key(c, 1);
				o->key(c, 0);
			}
			break;
		}
		case MEnt::KEYSEQ:
			for (auto &x : MODS)
				if (e.mods & x.mask) o->key(x.key, 1);
			if (e.mods && seq) o->delay(seq);
			o->key(e.code, 1);
			o->key(e.code, 0);
			for (auto &x : MODS)
				if (e.mods & x.mask) o->key(x.key, 0);
			break;
		case MEnt::DELAY:
			o->delay(e.code * 1000L);
			break;
		}
		if (seq) o->delay(seq);
	}
}

void Kbd::run_macro(int dl, const MacroP &m)
{
	if (m->e.size() == 1 && m->e[0].type == MEnt::KEYSEQ) {
		if (ks[m->e[0].code]) send(m->e[0].code, 0);
		update_mods(dl, m->e[0].mods);
		send(m->e[0].code, 1);
		send(m->e[0].code, 0);
	} else {
		update_mods(dl, 0);
		macro_play(o, *m, cfg->macro_seq);
	}
}

void Kbd::lookup(int code, ActP &d, int &dl)
{
	d = nullptr;
	if (code >= K_CHORD1 && code <= K_CHORDMAX) {
		d = ac[code - K_CHORD1].d;
		dl = ac[code - K_CHORD1].layer;
		return;
	}
	auto bound = [&](int i) -> ActP {
		auto it = L(i).keymap.find(code);
		return it == L(i).keymap.end() || !it->second->op ? nullptr : it->second;
	};
	long best = 0;
	for (size_t i = 0; i < ls.size(); i++)
		if (ls[i].active)
			if (ActP a = bound(i))
				if (ls[i].at >= best) {
					best = ls[i].at;
					d = a;
					dl = (int)i;
				}
	size_t most = 0;
	for (size_t i = 0; i < ls.size(); i++) {
		const Layer &l = L(i);
		if (l.type != Layer::COMPOSITE || l.parts.size() <= most)
			continue;
		bool all = true;
		for (int p : l.parts) all = all && ls[p].active;
		ActP a = bound(i);
		if (all && a) {
			d = a;
			dl = (int)i;
			most = l.parts.size();
		}
	}
	if (!d) {
		auto a = std::make_shared<Act>();
		a->op = KEYSEQ;
		a->code = code;
		d = a;
		dl = 0;
	}
}

void Kbd::activate(int code, int idx)
{
	ls[idx].at = clock++;
	ls[idx].active++;
	if (Ent *e = find(code))
		e->layer = idx;
	o->layer(*this, idx, 1);
}

void Kbd::deactivate(int idx)
{
	ls[idx].active--;
	o->layer(*this, idx, 0);
}

void Kbd::clear_oneshot()
{
	for (size_t i = 0; i < ls.size(); i++)
		while (ls[i].depth) {
			deactivate(i);
			ls[i].depth--;
		}
	latch = 0;
	oneshot_to = 0;
}

void Kbd::clear()
{
	clear_oneshot();
	for (size_t i = 1; i < ls.size(); i++)
		if (L(i).type != Layer::LAYOUT && ls[i].toggled) {
			ls[i].toggled = 0;
			deactivate(i);
		}
	amacro = nullptr;
	for (int i = 0; i < 256; i++)
		if (ks[i]) {
			o->key(i, 0);
			ks[i] = 0;
		}
}

void Kbd::setlayout(int idx)
{
	clear();
	for (size_t i = 1; i < ls.size(); i++)
		if (L(i).type == Layer::LAYOUT)
			ls[i].active = 0;
	if (idx) {
		ls[idx].at = 1;
		ls[idx].active = 1;
	}
	o->layer(*this, idx, 1);
}

long Kbd::timeout(long t) const
{
	long best = 0;
	auto add = [&](long e) {
		long r = e > t ? e - t : 2;
		if (!best || r < best) best = r;
	};
	if (ch.st == DISAMB) add(ch.last + cfg->chord_interkey);
	else if (ch.st == HOLDT) add(ch.last + cfg->chord_hold);
	if (pk.code)
		add(pk.expire);
	else {
		if (oneshot_to) add(oneshot_to);
		if (amacro && macro_to) add(macro_to);
	}
	return best;
}

void Kbd::act(int code, const ActP &d, int dl, int pressed, long t)
{
	int idx = d->layer;
	if (pressed && (d->op == LAYERM || d->op == ONESHOTM || d->op == TOGGLEM))
		run_macro(dl, d->m);
	switch (d->op) {
	case NONE: break;
	case KEYSEQ:
		if (pressed) {
			if (ks[d->code]) send(d->code, 0);
			update_mods(dl, d->mods);
			send(d->code, 1);
			clear_oneshot();
		} else {
			send(d->code, 0);
			update_mods(-1, 0);
		}
		if (!d->mods || d->mods == MOD_SHIFT)
			last_simple = t;
		break;
	case SCROLL:
		scroll.sens = d->sens;
		scroll.active = pressed;
		break;
	case SCROLLT:
		scroll.sens = d->sens;
		if (pressed) scroll.active = !scroll.active;
		break;
	case OVERLOADI:
		if (pressed) {
			ActP a = t - last_simple >= d->t1 ? d->a2 : d->a1;
			if (Ent *e = find(code)) e->d = a;
			act(code, a, dl, 1, t);
		}
		break;
	case OVERLOADT:
	case OVERLOADT2:
		if (pressed) {
			auto l = std::make_shared<Act>();
			l->op = LAYER;
			l->layer = idx;
			pk.code = code;
			pk.b = d->op == OVERLOADT2 ? UNINT_TAP2 : UNINT;
			pk.dl = dl;
			pk.a1 = d->a1;
			pk.a2 = l;
			pk.expire = t + d->t1;
		}
		break;
	case TIMEOUT:
		if (pressed) {
			pk.a1 = d->a1;
			pk.a2 = d->a2;
			pk.code = code;
			pk.dl = dl;
			pk.expire = t + d->t1;
			pk.b = INT1;
		}
		break;
	case LAYOUT:
		if (pressed) setlayout(idx);
		break;
	case LAYERM:
	case LAYER:
		if (pressed) activate(code, idx);
		else deactivate(idx);
		inhibit = last_code == code;
		update_mods(-1, 0);
		inhibit = false;
		break;
	case CLEARM:
	case CLEAR:
		if (pressed) {
			clears++;
			clear();
			if (d->op == CLEARM) {
				run_macro(dl, d->m);
				update_mods(-1, 0);
			}
		}
		break;
	case OVERLOAD:
		if (pressed) {
			ov_start = t;
			activate(code, idx);
			update_mods(-1, 0);
		} else {
			deactivate(idx);
			update_mods(-1, 0);
			if (last_code == code && (!cfg->tap_timeout || t - ov_start < cfg->tap_timeout)) {
				if (d->a1->op == MACRO) {
					run_macro(dl, d->a1->m);
					update_mods(dl, 0);
				} else {
					// the nested action is struck like a key of its own
					Ent e;
					e.d = d->a1;
					e.dl = dl;
					store(code, &e);
					act(code, d->a1, dl, 1, t);
					event(code, 0, t);
				}
			}
		}
		break;
	case ONESHOTM:
	case ONESHOT:
		if (pressed) {
			activate(code, idx);
			update_mods(dl, 0);
			latch = 1;
		} else if (latch) {
			ls[idx].depth++;
			if (cfg->oneshot_timeout)
				oneshot_to = t + cfg->oneshot_timeout;
		} else {
			deactivate(idx);
			update_mods(-1, 0);
		}
		break;
	case MACRO2:
	case MACRO:
		if (pressed) {
			long to = d->op == MACRO2 ? d->t1 : cfg->macro_timeout;
			macro_iv = d->op == MACRO2 ? d->t2 : cfg->macro_repeat;
			clear_oneshot();
			run_macro(dl, d->m);
			amacro = d->m;
			amacro_dl = dl;
			macro_to = to ? t + to : 0;
		}
		break;
	case TOGGLEM:
	case TOGGLE:
		if (pressed) {
			ls[idx].toggled = !ls[idx].toggled;
			if (ls[idx].toggled) activate(code, idx);
			else deactivate(idx);
			clear_oneshot();
			update_mods(-1, 0);
		}
		break;
	case COMMAND:
		if (pressed) {
			o->cmd(d->cmd);
			clear_oneshot();
			update_mods(-1, 0);
		}
		break;
	case SWAP:
	case SWAPM:
		if (pressed) {
			if (ls[dl].toggled) {
				deactivate(dl);
				ls[dl].toggled = 0;
				if (!ls[idx].toggled) {
					activate(0, idx);
					ls[idx].toggled = 1;
				}
				update_mods(-1, 0);
			} else if (ls[dl].depth) {
				deactivate(dl);
				ls[dl].depth--;
				activate(0, idx);
				ls[idx].depth++;
				update_mods(-1, 0);
			} else {
				Ent *hit = nullptr;
				for (auto &e : cache) {
					if (!e.code || !e.d)
						continue;
					Op k = e.d->op;
					bool held = k == LAYER || k == LAYERM || k == OVERLOAD || k == ONESHOT || k == ONESHOTM;
					if (held && e.layer == dl && e.layer != 0 && L(e.layer).type == Layer::NORMAL) {
						hit = &e;
						break;
					}
				}
				if (hit) {
					auto l = std::make_shared<Act>();
					l->op = LAYER;
					l->layer = idx;
					hit->d = l;
					deactivate(dl);
					activate(hit->code, idx);
					update_mods(-1, 0);
				}
			}
			if (d->op == SWAPM) run_macro(dl, d->m);
		} else if (d->op == SWAPM && d->m->e.size() == 1 && d->m->e[0].type == MEnt::KEYSEQ) {
			send(d->m->e[0].code, 0);
			update_mods(-1, 0);
		}
		break;
	}
	if (pressed)
		last_code = code;
}

int Kbd::chord_match()
{
	bool full = false, part = false;
	long best = -1;
	if (ch.q.empty())
		return 0;
	for (size_t i = 0; i < ls.size(); i++) {
		if (!ls[i].active)
			continue;
		for (auto &c : L(i).chords) {
			size_t n = 0;
			bool ok = true;
			for (auto &e : ch.q)
				if (e.pressed) {
					n++;
					ok = ok && std::count(c.keys.begin(), c.keys.end(), e.code);
				}
			if (!ok || !n)
				continue;
			if (n == c.keys.size()) {
				if (best <= ls[i].at) {
					ch.mlayer = (int)i;
					ch.match = c;
					full = true;
					best = ls[i].at;
				}
			} else
				part = true;
		}
	}
	return full ? (part ? 3 : 2) : part ? 1 : 0;
}

bool Kbd::resolve()
{
	size_t off = 0;
	ch.st = RESOLVING;
	if (ch.match) {
		Chord c = *ch.match;
		for (size_t i = 0; i < ac.size(); i++)
			if (!ac[i].on) {
				ac[i].on = true;
				ac[i].keys = c.keys;
				ac[i].d = c.d;
				ac[i].layer = ch.mlayer;
				off = c.keys.size();
				event(K_CHORD1 + (int)i, 1, ch.last);
				break;
			}
	}
	std::vector<KeyEv> rest(ch.q.begin() + off, ch.q.end());
	process(rest);
	ch.st = INACTIVE;
	return true;
}

bool Kbd::handle_chord(int code, int pressed, long t)
{
	if (code && !pressed)
		for (size_t i = 0; i < ac.size(); i++) {
			if (!ac[i].on)
				continue;
			bool found = false;
			int left = 0;
			for (int &k : ac[i].keys) {
				if (k == code) { k = 0; found = true; }
				if (k) left++;
			}
			if (found) {
				if (!left) {
					ac[i].on = false;
					event(K_CHORD1 + (int)i, 0, t);
				}
				return true;
			}
		}
	auto settle = [&](int m) {
		ch.last = t;
		if (m == 2) {
			if (cfg->chord_hold) ch.st = HOLDT;
			else return resolve();
		} else
			ch.st = DISAMB;
		return true;
	};
	switch (ch.st) {
	case RESOLVING:
		return false;
	case INACTIVE: {
		ch.q.clear();
		ch.match.reset();
		if (code) ch.q.push_back({code, pressed, t});
		int m = chord_match();
		return m ? settle(m) : false;
	}
	case DISAMB: {
		if (!code) {
			if (t - ch.last < cfg->chord_interkey)
				return false;
			if (ch.match && cfg->chord_hold > cfg->chord_interkey) {
				ch.st = HOLDT;
				return true;
			}
			return resolve();
		}
		if (pressed)
			for (auto &e : ch.q)
				if (e.code == code)
					return true;
		ch.q.push_back({code, pressed, t});
		int m = pressed ? chord_match() : 0;
		if (!m) {
			ch.match.reset();
			return resolve();
		}
		return settle(m);
	}
	case HOLDT:
		if (!code)
			return t - ch.last >= cfg->chord_hold ? resolve() : false;
		ch.q.push_back({code, pressed, t});
		if ((!pressed && std::count(ch.match->keys.begin(), ch.match->keys.end(), code)) || ch.q.size() == 32) {
			ch.match.reset();
			return resolve();
		}
		return true;
	}
	return false;
}

bool Kbd::handle_pending(int code, int pressed, long t)
{
	if (!pk.code)
		return false;
	auto queued = [&](int c) { for (auto &e : pk.q) if (e.code == c) return true; return false; };
	if (code) {
		// releases of keys struck before the undecided key are delivered at once
		if (!pressed && code != pk.code && !queued(code))
			return false;
		pk.q.push_back({code, pressed, t});
	}
	ActP a;
	if (t >= pk.expire) a = pk.a2;
	else if (code == pk.code) a = pk.a1;
	else if (code && pressed && pk.b == INT1) a = pk.a1;
	else if (code && !pressed && pk.b == UNINT_TAP2) a = pk.a2;
	if ((!a || !a->op) && pk.q.size() == 32) a = pk.a2;
	if (a && a->op) {
		auto q = std::move(pk.q);
		int c = pk.code, dl = pk.dl;
		pk.q.clear();
		pk.code = 0;
		Ent e;
		e.d = a;
		e.dl = dl;
		store(c, &e);
		act(c, a, dl, 1, t);
		auto st = ch.st; // what was held back is older than an undecided chord
		if (st != INACTIVE) ch.st = RESOLVING;
		process(q);
		if (st != INACTIVE) ch.st = st;
	}
	return true;
}

long Kbd::event(int code, int pressed, long t)
{
	if (handle_chord(code, pressed, t) || handle_pending(code, pressed, t))
		return timeout(t);
	if (oneshot_to && t >= oneshot_to) {
		clear_oneshot();
		update_mods(-1, 0);
	}
	if (amacro) {
		if (code) {
			amacro = nullptr;
			update_mods(-1, 0);
		} else if (macro_to && t >= macro_to) {
			run_macro(amacro_dl, amacro);
			macro_to = macro_iv ? t + macro_iv : 0;
		}
	}
	if (code) {
		ActP d;
		int dl = 0;
		if (pressed) {
			if (find(code))
				return timeout(t);
			lookup(code, d, dl);
			Ent e;
			e.d = d;
			e.dl = dl;
			if (!store(code, &e))
				return timeout(t);
		} else {
			Ent *e = find(code);
			if (!e)
				return timeout(t);
			d = e->d;
			dl = e->dl;
			store(code, nullptr);
		}
		act(code, d, dl, pressed, t);
	}
	return timeout(t);
}

long Kbd::process(const std::vector<KeyEv> &ev)
{
	long to = 0, at = 0;
	for (size_t i = 0; i < ev.size();) {
		if (to > 0 && at <= ev[i].ts) {
			to = event(0, 0, at);
			at += to;
		} else {
			to = event(ev[i].code, ev[i].pressed, ev[i].ts);
			at = ev[i].ts + to;
			i++;
		}
	}
	return to;
}

bool Kbd::bind(const std::string &exp)
{
	if (exp == "reset") {
		bool busy = pk.code || amacro || ch.st != INACTIVE;
		for (auto &e : cache) busy |= e.code != 0;
		cfg = orig;
		if (!busy) std::copy_n(orig->pool, 3, pool); // (what keys held down refer to is kept)
		return true;
	}
	auto c = std::make_shared<Cfg>(*cfg);
	std::copy_n(pool, 3, c->pool);
	bool ok = cfg_bind(*c, exp);
	std::copy_n(c->pool, 3, pool);
	if (!ok)
		return false;
	cfg = c;
	return true;
}

int Kbd::latched_mods() const
{
	int m = 0;
	for (size_t i = 0; i < ls.size(); i++)
		if (ls[i].active) m |= L(i).mods;
	return m;
}

bool Kbd::any_layer() const
{
	for (size_t i = 1; i < ls.size(); i++)
		if (ls[i].active && L(i).type != Layer::LAYOUT)
			return true;
	return false;
}

template <class T> static void mix(uint64_t &h, T v) { h = (h ^ (uint64_t)v) * 1099511628211ull; h ^= h >> 29; }

uint64_t Kbd::hash() const
{
	uint64_t h = 77;
	mix(h, (uintptr_t)cfg.get());
	mix(h, pool[0] * 65536 + pool[1] * 256 + pool[2]);
	// relative activation order is enough, but absolute is simpler and deterministic
	for (auto &l : ls) { mix(h, l.at); mix(h, l.active * 65536 + l.toggled * 256 + l.depth); }
	for (auto &e : cache) if (e.code) { mix(h, e.code); mix(h, (uintptr_t)e.d.get()); mix(h, e.dl * 64 + e.layer); }
	for (int i = 0; i < 256; i++) if (ks[i]) mix(h, i);
	mix(h, last_out * 65536 + last_code * 4 + latch);
	mix(h, (uintptr_t)amacro.get()); mix(h, macro_to); mix(h, oneshot_to); mix(h, macro_iv); mix(h, ov_start); mix(h, last_simple);
	for (auto &a : ac) { mix(h, a.on); if (a.on) { for (int k : a.keys) mix(h, k); mix(h, (uintptr_t)a.d.get()); } }
	mix(h, ch.st); mix(h, ch.q.size()); mix(h, ch.last); mix(h, ch.match ? 1 : 0);
	for (auto &e : ch.q) { mix(h, e.code * 2 + e.pressed); mix(h, e.ts); }
	mix(h, pk.code); if (pk.code) { mix(h, pk.expire); mix(h, pk.b); for (auto &e : pk.q) { mix(h, e.code * 2 + e.pressed); mix(h, e.ts); } mix(h, (uintptr_t)pk.a1.get()); mix(h, (uintptr_t)pk.a2.get()); }
	mix(h, scroll.x); mix(h, scroll.y); mix(h, scroll.active * 65536 + scroll.sens);
	mix(h, clock); mix(h, lo); mix(h, hi);
	return h;
}

// ---------------------------------------------------------------- world
// the state without times: what kinds of situations a run reached
uint64_t Kbd::abstract() const
{
	uint64_t h = 99;
	for (auto &l : ls) mix(h, (l.active > 2 ? 2 : l.active) * 16 + l.toggled * 4 + (l.depth > 2 ? 2 : l.depth));
	int n = 0;
	for (auto &e : cache) if (e.code) n++;
	mix(h, n);
	mix(h, pk.code ? 1 + pk.b + 4 * std::min<size_t>(pk.q.size(), 3) : 0);
	mix(h, ch.st * 8 + std::min<size_t>(ch.q.size(), 4));
	for (auto &a : ac) mix(h, a.on);
	mix(h, (amacro ? 1 : 0) + (oneshot_to ? 2 : 0) + (latch ? 4 : 0) + (scroll.active ? 8 : 0) + (lo ? 16 : 0) + (macro_to ? 32 : 0));
	mix(h, ks.count());
	return h;
}

static std::bitset<1024> kbd_codes()
{
	std::bitset<1024> b;
	for (auto &k : KEYTAB) b[k.code] = 1;
	b[0x174] = 1; // KEY_ZOOM
	b[0x246] = 1; // KEY_VOICECOMMAND
	return b;
}

std::pair<int, int> keyd_to_evdev(int code)
{
	switch (code) {
	case 249: return {1, 0x110};
	case 250: return {1, 0x112};
	case 251: return {1, 0x111};
	case 252: return {1, 0x113};
	case 253: return {1, 0x114};
	case 178: return {1, 0x116};
	case 255: return {1, 0x115};
	case 177: return {0, 0x174};
	case 222: return {0, 0x246};
	}
	return {0, code};
}

int evdev_to_keyd(int c)
{
	if (c < 256)
		return c;
	if (c >= 0x1d2 && c <= 0x1dd)
		return 183 + (c - 0x1d2); // shifted function keys
	if (c >= 0x100 && c <= 0x109)
		return 183 + (c - 0x100);
	switch (c) {
	case 0x110: return 249;
	case 0x111: return 251;
	case 0x112: return 250;
	case 0x113: return 252;
	case 0x114: return 253;
	case 0x115: return 255;
	case 0x116: return 178;
	case 0x117: return 188;
	case 0x1d0: return 254;
	case 0x174: return 177;
	case 0x246: return 222;
	case 0x1bc: return 191; case 0x1bd: return 192; case 0x1be: return 193;
	case 0x1e5: return 183; case 0x176: return 184; case 0x232: return 185; case 0x27a: return 186;
	case 0x214: return 187; case 0x213: return 188; case 0x168: return 189;
	case 0x1a6: return 183; case 0x1a7: return 184; case 0x1a8: return 185; case 0x1a9: return 186; case 0x1aa: return 187;
	case 0x1ab: return 188; case 0x1ac: return 189; case 0x1ad: return 190; case 0x1ae: return 191;
	}
	if (c >= 0x140 && c <= 0x14f)
		return K_NOOP;
	return -1;
}

void World::emit(int dev, int type, int code, int val)
{
	if (type == 1) {
		if (down[dev][code] == (bool)val)
			return;
		down[dev][code] = val;
	} else if (type == 2) {
		if (!val)
			return;
	} else if (type == 3) {
		int &cur = absst[code];
		if (cur == val)
			return;
		cur = val;
	}
	out.push_back({Exp::OUT, dev, type, code, val, ""});
}

void World::vk(int code, int st)
{
	static const std::bitset<1024> ok = kbd_codes();
	auto e = keyd_to_evdev(code);
	if (e.first) out.push_back({Exp::DELAY, 0, 1000, 0, 0, ""});
	else if (!ok[e.second]) return;
	emit(e.first, 1, e.second, st);
}

void World::wheel(int x, int y)
{
	emit(1, 2, 8, y);
	emit(1, 2, 6, x);
}

void World::key(int code, int st)
{
	bool held = ks[code], mod = code == 29 || code == 97 || code == 42 || code == 54 || code == 56 || code == 100 || code == 125 || code == 126;
	ks[code] = st;
	switch (code) {
	case K_SDOWN: if (st) wheel(0, -1); break;
	case K_SUP: if (st) wheel(0, 1); break;
	case K_SRIGHT: if (st) wheel(1, 0); break;
	case K_SLEFT: if (st) wheel(-1, 0); break;
	default:
		if (st && held && !mod) vk(code, 0); // (or it could not be struck)
		vk(code, st);
	}
}

void World::delay(long us) { if (us) out.push_back({Exp::DELAY, (int)us, (int)us, 0, 0, ""}); }
void World::cmd(const std::string &c) { out.push_back({Exp::EXEC, 0, 0, 0, 0, c}); }

void World::layer(const Kbd &k, int idx, int st)
{
	if (k.cfg->indicator && binding) {
		int ki = (int)(&k - kbds.data());
		int on = k.any_layer();
		for (auto &b : *binding)
			if (b.second == ki) out.push_back({Exp::LED, b.first, 1, on, 0, ""});
	}
	const Layer &l = k.L(idx);
	out.push_back({Exp::LINE, 0, 0, 0, 0, (l.type == Layer::LAYOUT ? "/" : st ? "+" : "-") + l.name + "\n"});
}

uint64_t World::hash() const
{
	uint64_t h = policy + 1;
	for (auto &k : kbds) mix(h, k.hash());
	mix(h, active);
	for (int i = 0; i < 256; i++) if (ks[i]) mix(h, i);
	for (int d = 0; d < 2; d++)
		for (int i = 0; i < 1024; i++) if (down[d][i]) mix(h, d * 1024 + i);
	return h;
}
}
