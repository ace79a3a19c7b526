// Executable reference model of the remapping daemon (an independent implementation of the
// documented semantics on value types: no indices into tables, no fixed size arrays, no I/O).
#pragma once
#include "plan.h"
#include <array>
#include <bitset>
#include <optional>

namespace M {

enum Op : uint8_t {
	NONE = 0, KEYSEQ, ONESHOT, ONESHOTM, LAYERM, SWAP, SWAPM, LAYER, LAYOUT, CLEAR, CLEARM, OVERLOAD, OVERLOADT,
	OVERLOADT2, OVERLOADI, TOGGLE, TOGGLEM, MACRO, MACRO2, COMMAND, TIMEOUT, SCROLLT, SCROLL
};
enum { MOD_ALT = 1, MOD_SUPER = 2, MOD_SHIFT = 4, MOD_CTRL = 8, MOD_ALTGR = 16 };
enum { K_NOOP = 195, K_EXT = 196, K_CHORD1 = 197, K_CHORDMAX = 199, K_SLEFT = 202, K_SRIGHT = 203, K_SUP = 149, K_SDOWN = 148 };

struct MEnt { enum T { KEYSEQ, HOLD, RELEASE, UNICODE, DELAY } type; int code = 0, mods = 0; };
struct Macro { std::vector<MEnt> e; };
using MacroP = std::shared_ptr<const Macro>;
struct Act;
using ActP = std::shared_ptr<const Act>;
struct Act {
	Op op = NONE;
	int code = 0, mods = 0, layer = 0;
	long t1 = 0, t2 = 0;
	int sens = 0;
	ActP a1, a2;
	MacroP m;
	std::string cmd;
};
struct Chord { std::vector<int> keys; ActP d; };
struct Layer {
	std::string name;
	enum { NORMAL, LAYOUT, COMPOSITE } type = NORMAL;
	int mods = 0;
	std::map<int, ActP> keymap;
	std::vector<Chord> chords;
	std::vector<int> parts;
};
struct Cfg {
	mutable int pool[3] = {0, 0, 0}; // nested actions, macros and commands stored so far
	std::string path;
	std::vector<std::shared_ptr<const Layer>> layers;
	std::map<int, std::string> aliases;
	bool wildcard = false;
	std::vector<std::pair<std::string, int>> ids; // flags: 1 excluded 2 mouse 4 keyboard
	long macro_timeout = 600, macro_repeat = 50, macro_seq = 0, oneshot_timeout = 0, tap_timeout = 0, chord_interkey = 50, chord_hold = 0;
	bool indicator = false, noguard = false;
	std::string default_layout;
	std::vector<std::string> errors;   // rejected lines
	int layer_idx(const std::string &n) const;
	int match(const std::string &id, int flags) const;
};
using CfgP = std::shared_ptr<const Cfg>;

int key_by_name(const std::string &n);
std::map<int, std::string> key_names();
bool key_seq(const std::string &s, int &code, int &mods);
bool parse_macro(const std::string &s, Macro &m, bool &unknown);
bool cfg_bind(Cfg &c, const std::string &exp);
// reads a config file from `fs`; null when the file is rejected
using Files = std::map<std::string, std::string>;
CfgP cfg_load(const Files &fs, const std::string &path);
int unicode_index(uint32_t cp);
// data/keyd.compose of the repository under test
struct Compose {
	struct E { uint32_t cp; std::vector<int> keys; };
	std::vector<E> entries;
	std::map<uint32_t, int> index;
	std::map<std::vector<int>, std::string> tree; // what a sequence of keys gives
	std::set<std::vector<int>> prefixes;
	std::string error;                            // how it is ambiguous
};
const Compose &compose();
struct KeyTab { int code; const char *name, *alt, *shift; };
const std::vector<KeyTab> &key_table();
void unicode_keys(int idx, int out[4]);
int utf8_next(const std::string &s, size_t i, uint32_t &cp);

struct Kbd;
struct Sink {
	virtual void key(int code, int st) = 0;
	virtual void delay(long us) = 0;
	virtual void cmd(const std::string &c) = 0;
	virtual void layer(const Kbd &k, int idx, int st) = 0;
	virtual ~Sink() {}
};
struct KeyEv { int code; int pressed; long ts; };

struct Kbd {
	CfgP orig, cfg;
	int pool[3] = {0, 0, 0};
	struct LS { long at = 0; int active = 0, toggled = 0, depth = 0; };
	std::vector<LS> ls;
	struct Ent { int code = 0; ActP d; int dl = 0, layer = 0; };
	std::array<Ent, 16> cache;
	std::bitset<256> ks;
	int last_out = 0, last_code = 0, latch = 0;
	bool inhibit = false;
	MacroP amacro; int amacro_dl = 0;
	long macro_to = 0, oneshot_to = 0, macro_iv = 0, ov_start = 0, last_simple = 0;
	struct AC { bool on = false; std::vector<int> keys; ActP d; int layer = 0; };
	std::array<AC, 3> ac;
	enum CS { RESOLVING, INACTIVE, DISAMB, HOLDT };
	struct { std::vector<KeyEv> q; std::optional<Chord> match; int mlayer = 0; long last = 0; CS st = INACTIVE; } ch;
	enum PB { INT1, UNINT, UNINT_TAP2 };
	struct { int code = 0, dl = 0; long expire = 0; PB b = INT1; std::vector<KeyEv> q; ActP a1, a2; } pk;
	struct { int x = 0, y = 0, sens = 0; bool active = false; } scroll;
	long clock = 2; // activation order
	int clears = 0; // clear() actions performed
	// deadline window known to the daemon
	long lo = 0, hi = 0;
	Sink *o = nullptr;

	explicit Kbd(CfgP c);
	long process(const std::vector<KeyEv> &ev);
	bool bind(const std::string &exp);
	int latched_mods() const;
	bool any_layer() const;
	uint64_t hash() const;
	uint64_t abstract() const;

	long event(int code, int pressed, long t);
	bool handle_chord(int code, int pressed, long t);
	bool handle_pending(int code, int pressed, long t);
	void act(int code, const ActP &d, int dl, int pressed, long t);
	void send(int code, int st);
	void clear_mod(int code);
	void set_mods(int mods);
	void update_mods(int ex, int mods);
	void run_macro(int dl, const MacroP &m);
	void lookup(int code, ActP &d, int &dl);
	void activate(int code, int idx);
	void deactivate(int idx);
	void clear_oneshot();
	void clear();
	void setlayout(int idx);
	bool resolve();
	int chord_match();
	Ent *find(int code);
	bool store(int code, const Ent *e);
	long timeout(long t) const;
	const Layer &L(int i) const { return *cfg->layers[i]; }
};
void macro_play(Sink *o, const Macro &m, long seq_us);

struct Exp {
	enum K { OUT, DELAY, EXEC, LINE, INIT, LED, REPLY } k;
	int a = 0, b = 0, c = 0, d = 0;
	std::string s;
};

using Bind = std::shared_ptr<std::vector<std::pair<int, int>>>; // device, keyboard index

struct World : Sink {
	int policy = 0;
	std::vector<Kbd> kbds;
	int active = -1;
	std::bitset<256> ks;
	std::bitset<1024> down[2];
	std::map<int, int> absst;
	std::vector<Exp> out;
	Bind binding;
	void key(int code, int st) override;
	void delay(long us) override;
	void cmd(const std::string &c) override;
	void layer(const Kbd &k, int idx, int st) override;
	void vk(int code, int st);
	void emit(int dev, int type, int code, int val);
	void wheel(int x, int y);
	uint64_t hash() const;
};

// ---------------------------------------------------------------- following a run
struct Finding { std::string tag, what; ns t; };
struct FollowOpts {
	bool stop_on_output = true;
	bool check_late = true;
	bool model = true;                  // false: only what can be told without predicting the output
};
struct Follow {
	std::vector<Finding> findings;      // tag "" = output of the remapping differs
	bool in_sync = true;                // outputs matched until the end
	bool started = false, ended = false;
	int latched = 0;                    // modifiers of layers still active at the end
	bool any_layer = false;
	std::vector<int> expect_down;       // keys the model holds down at the end
	long steps = 0, inputs = 0, outputs = 0, timers = 0, branches = 0, maxworlds = 0, requests = 0, reloads = 0, lines = 0, leds = 0, execs = 0;
	std::set<uint64_t> states;          // distinct abstract states visited
	ns last_reload = -1, desync = -1;
	bool gaveup = false, pending = false;
	int policy = 0;
	struct Quiet { ns t; bool sync; int latched; bool pending; };
	std::vector<Quiet> quiet;           // state of the model at the 'marker quiet' notes
	std::vector<std::pair<size_t, std::vector<CfgP>>> loads; // log index, configs in force from then on
};
Follow follow(const Plan &p, const Result &r, const FollowOpts &o = {});
int evdev_to_keyd(int code); // -1 unsupported
std::pair<int, int> keyd_to_evdev(int code); // device, code
}
