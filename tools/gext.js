'use strict';
/* C28: deterministic simulation of the GNOME Shell extensions in data/.
 *
 *   node --experimental-vm-modules gext.js search REPO BASE FIRST STRIDE SECONDS     one JSON object on stdout
 *   node --experimental-vm-modules gext.js run REPO PLAN                             executes one plan
 *
 * The extensions run unmodified inside a simulated shell: its modules (GLib, Gio, Shell, Main), the fifo, the mapper at the other
 * end and the main loop's order of events are decided by a seeded plan. */
const vm = require('node:vm'), fs = require('node:fs'), crypto = require('node:crypto');
const REPO = process.argv[3];
const OLD = REPO + '/data/gnome-extension/extension.js', NEW = REPO + '/data/gnome-extension-45/extension.js';
const SRC = {};
for (const [k, f] of [['42', OLD], ['45', NEW]]) SRC[k] = fs.readFileSync(f, 'utf8');

// mulberry32 over a seed of arbitrary length
function Rng(seed) {
	let a = crypto.createHash('sha256').update(String(seed)).digest().readUInt32LE(0);
	const f = () => { a = (a + 0x6D2B79F5) | 0; let t = Math.imul(a ^ (a >>> 15), 1 | a); t = (t + Math.imul(t ^ (t >>> 7), 61 | t)) ^ t; return ((t ^ (t >>> 14)) >>> 0) / 4294967296; };
	return { f, n: k => Math.floor(f() * k), pick: l => l[Math.floor(f() * l.length)], chance: p => f() < p };
}

const norm = l => l.replace(/[\r\n ]+/g, ' ').trimEnd();

class Emitter {
	constructor() { this.h = []; this.next = 1; }
	connect(sig, cb) { this.h.push({ id: this.next, sig, cb }); return this.next++; }
	connect_after(sig, cb) { return this.connect(sig, cb); }
	disconnect(id) {
		const n = this.h.length; this.h = this.h.filter(x => x.id !== id);
		if (n === this.h.length) throw new Error('no such handler');
	}
	connectObject(...a) {
		const o = a[a.length - 1];
		for (let i = 0; i + 1 < a.length;) {
			const id = this.connect(a[i], a[i + 1]);
			this.h[this.h.length - 1].o = o; i += 2;
			if (typeof a[i] === 'number' && i + 1 < a.length) i++;
			void id;
		}
	}
	disconnectObject(o) { this.h = this.h.filter(x => x.o !== o); }
	emit(sim, sig, ...a) {
		for (const x of [...this.h]) if (x.sig === sig) {
			try { x.cb(this, ...a); } catch (e) { if (e === sim.stop) throw e; sim.rec('exception', String(e && e.message || e)); }
		}
	}
}

class Sim {
	constructor(plan) {
		this.plan = plan; this.rng = Rng('run' + plan.seed + plan.chunks);
		this.log = []; this.stat = {}; this.finding = null; this.stop = { stop: 1 };
		this.loop = [];                 // what the main loop has to call some time
		this.fifo = null;               // { buf, writers, mapper }
		this.path = plan.noruntime ? '/run/user/1000/keyd.fifo' : '/run/user/77/keyd.fifo';
		this.mapper = null;             // { id, open }
		this.nmap = 0;
		this.win = null; this.wins = {};
		this.enabled = false;
		this.events = [];               // what the extension has been told: { line, must, read }
		this.lines = [];                // lines read by mappers
		this.opens = [];                // fifo opens which wait for a reader
		this.openfail = 0;
		this.part = ''; this.checks = 0; this.steps = 0;
		this.wanted = false; this.userkill = false;
	}
	count(k, n = 1) { this.stat[k] = (this.stat[k] || 0) + n; }
	rec(...a) { this.log.push(a.join(' ')); }
	fail(what) { if (!this.finding) this.finding = 'gnome ' + this.plan.v + ': ' + what; }

	// -- the mapper at the other end
	mapperStart() {
		if (this.mapper) { this.rec('mapper already running'); return; }
		if (!this.fifo) { this.rec('mapper: no fifo'); this.fail('the mapper is started before its fifo exists'); return; }
		this.mapper = { id: ++this.nmap, open: false };
		this.rec('mapper start', this.mapper.id);
		const m = this.mapper;
		this.later('mapper opens', () => { if (this.mapper === m) { m.open = true; this.fifo.keep = true; } });
	}
	mapperKill() {
		if (!this.mapper) return;
		this.rec('mapper dies');
		this.mapper = null;
		if (this.part && this.fifo.buf.length && this.fifo.writers.size) this.skip = true;        // (the rest of a line is left for the next one)
		this.part = '';
		if (!this.fifo.writers.size) this.dropBuf();
		else if (this.fifo.buf.length) this.lost();
	}
	lost() { for (const e of this.events) e.excused = true; }
	dropBuf() { this.skip = false; if (this.fifo.buf.length) this.lost(); this.fifo.buf = Buffer.alloc(0); }
	mapperRead() {
		if (!this.mapper || !this.mapper.open || !this.fifo.buf.length) return;
		const n = Math.min(this.fifo.buf.length, this.rng.pick([1, 3, 10, 4096, 4096]));
		this.part += this.fifo.buf.subarray(0, n).toString('latin1'); this.fifo.buf = this.fifo.buf.subarray(n);
		this.rec('mapper reads', n);
		let k;
		while ((k = this.part.indexOf('\n')) >= 0) {
			this.line(Buffer.from(this.part.slice(0, k), 'latin1').toString('utf8'));
			this.part = this.part.slice(k + 1);
		}
	}
	line(l) {
		if (this.skip) { this.skip = false; return; }
		this.rec('line', JSON.stringify(l));
		this.count('lines');
		const t = l.indexOf('\t');
		if (t < 0) return this.fail('the mapper was sent ' + JSON.stringify(l) + ', which is not a class and a title');
		this.lines.push(norm(l));
	}
	// What was read is what was called for: in order, each at most once, none missing which had to arrive.
	match() {
		const E = this.events, L = this.lines, last = E.length - 1;
		const need = i => !E[i].excused && (E[i].must || i === last);
		// reach[j]: the first j lines can be explained by the events so far
		let reach = new Array(L.length + 1).fill(false); reach[0] = true;
		for (let i = 0; i <= last; i++) {
			const next = new Array(L.length + 1).fill(false);
			for (let j = 0; j <= L.length; j++) {
				if (!reach[j]) continue;
				if (!need(i)) next[j] = true;
				if (j < L.length && norm(E[i].line) === L[j]) next[j + 1] = true;
			}
			reach = next;
		}
		if (!reach[L.length]) this.fail('the focus was given to ' + JSON.stringify(E.map(e => e.line).slice(-4)) + ', the mapper was told of ' + JSON.stringify(L.slice(-4)));
		this.events = []; this.lines = [];
	}

	// -- the main loop
	later(what, cb) { this.loop.push({ what, cb }); }
	ready() {
		const r = this.loop.map((x, i) => i);
		// an open of the fifo for writing completes when there is a reader
		return r;
	}
	step() {
		const c = [];
		if (this.loop.length) c.push('loop');
		if (this.opens.length && (this.openfail || (this.mapper && this.mapper.open))) c.push('open');
		if (this.mapper && this.mapper.open && this.fifo.buf.length) c.push('read');
		if (!c.length) return false;
		if (++this.steps > 5000) { this.fail('the shell is kept busy for ever'); throw this.stop; }
		const k = this.rng.pick(c);
		if (k === 'read') this.mapperRead();
		else if (k === 'open') {
			const o = this.opens.shift(), bad = this.openfail > 0;
			if (bad) { this.openfail--; this.count('fault:open_failed'); this.lost(); }
			let s = null;
			if (!bad) { s = new Stream(this); this.fifo.writers.add(s); }
			this.rec('fifo opened', bad ? 'error' : 'ok');
			this.call(() => o.cb(o.file, { s, o }));
		} else {
			const x = this.loop.splice(this.rng.chance(0.7) ? 0 : this.rng.n(this.loop.length), 1)[0];
			this.rec('loop', x.what);
			this.call(x.cb);
		}
		return true;
	}
	call(f) { try { f(); } catch (e) { if (e === this.stop) throw e; this.rec('exception', String(e && e.message || e)); } }
	// (what was promised is kept before anything else happens)
	async tick() { for (let i = 0; i < 4; i++) await null; }
	async settle() { await this.tick(); while (!this.finding && this.step()) await this.tick(); }
	async check() {
		await this.settle();
		if (this.finding) return;
		this.checks++;
		if (this.wanted && !this.userkill && !this.mapper) return this.fail('the extension is enabled, but no mapper runs');
		if (!this.wanted && this.mapper && !this.mapper.user) return this.fail('the extension is disabled, but its mapper still runs');
		if (!this.enabled || !this.mapper || !this.mapper.open) return;
		this.match();
	}
	healthy() { return this.fifo && this.mapper && this.mapper.open && this.fifo.writers.size > 0 && !this.loop.length; }
	told(line) {
		this.count('focus_changes');
		if (!this.enabled) return;
		this.events.push({ line, must: this.healthy() });
	}

	// -- what happens
	async apply(o) {
		this.rec('op', o.op); this.count('op:' + o.op);
		switch (o.op) {
		case 'open': this.wins[o.w] = { cls: o.cls, title: o.title, get_wm_class() { return this.cls; }, get_title() { return this.title; }, get_wm_class_instance() { return this.cls; } }; break;
		case 'title': if (this.wins[o.w]) this.wins[o.w].title = o.title; break;
		case 'focus':
			this.win = o.w === null || !this.wins[o.w] ? null : this.wins[o.w];
			this.told(this.win ? this.win.cls + '\t' + this.win.title : 'root\t');
			this.tracker.emit(this, 'notify::focus-app');
			break;
		case 'modal':
			this.told('system-modal\t' + o.title);
			this.stage = o.title;
			this.layout.emit(this, 'system-modal-opened');
			break;
		case 'lock': if (this.enabled) { this.call(() => this.ext.disable()); this.enabled = false; this.wanted = false; this.userkill = false; this.lost(); } break;
		case 'unlock': if (!this.enabled) this.enable(); break;
		case 'kill': if (this.mapper) { this.count('fault:mapper_killed'); this.userkill = true; this.mapperKill(); } break;
		case 'restart': if (this.wanted && !this.mapper) { this.mapperStart(); this.userkill = false; } break;
		case 'openfail': this.openfail += o.n; break;
		case 'wait': for (let i = 0; i < o.n; i++) { if (!this.step()) break; await this.tick(); } break;
		case 'settle': await this.check(); break;
		}
	}
	enable() { this.enabled = true; this.wanted = true; this.userkill = false; this.call(() => this.ext.enable()); }
	command(cmd) {
		this.rec('command', cmd);
		if (/mkfifo/.test(cmd)) {
			if (cmd.includes(this.path)) { if (!this.fifo) this.fifo = { buf: Buffer.alloc(0), writers: new Set() }; }
			else this.fail('the fifo is made in the wrong place: ' + cmd);
			return '';
		}
		if (/(^|[ /])id\b/.test(cmd)) return '1000\n';
		if (/pkill|killall/.test(cmd)) { this.mapperKill(); return ''; }
		if (/keyd-application-mapper/.test(cmd)) { this.mapperStart(); return ''; }
		return '';
	}
}

class Stream {
	constructor(sim) { this.sim = sim; this.closed = false; }
	put(x) {
		const s = this.sim;
		if (this.closed) throw new Error('Stream is already closed');
		const b = typeof x === 'string' ? Buffer.from(x, 'utf8') : Buffer.from(x.get_data ? x.get_data() : x);
		if (!s.mapper || !s.mapper.open) { s.count('fault:broken_pipe'); s.rec('write: broken pipe'); s.fifo.writers.delete(this); throw new Error('Error writing to file descriptor: Broken pipe'); }
		s.fifo.buf = Buffer.concat([s.fifo.buf, b]);
		s.rec('write', b.length);
		return b.length;
	}
	write(x) { return this.put(x); }
	write_all(x) { return [true, this.put(x)]; }
	write_bytes(x) { return this.put(x); }
	flush() { return true; }
	is_closed() { return this.closed; }
	close() { if (!this.closed) { this.closed = true; this.sim.fifo.writers.delete(this); } return true; }
	close_async(p, c, cb) { this.close(); if (cb) this.sim.later('closed', () => cb(this, {})); }
	close_finish() { return true; }
	write_async(x, p, c, cb) { let r = {}; if (typeof cb !== 'function') return (async () => this.put(x))(); try { r.n = this.put(x); } catch (e) { r.e = e; } this.sim.later('written', () => cb(this, r)); }
	write_all_async(x, p, c, cb) { this.write_async(x, p, c, cb); }
	write_bytes_async(x, p, c, cb) { this.write_async(x, p, c, cb); }
	write_finish(r) { if (r.e) throw r.e; return r.n; }
	write_bytes_finish(r) { return this.write_finish(r); }
	write_all_finish(r) { return [true, this.write_finish(r)]; }
}

function shell(sim) {
	const enc = s => Buffer.from(s, 'utf8');
	let src = 0; const gone = new Set();
	const timer = (cb) => { const id = ++src; const go = () => { if (gone.has(id)) return; if (cb() === true) sim.later('source', go); }; sim.later('source', go); return id; };
	const fn = a => a.filter(x => typeof x === 'function')[0];
	const GLib = {
		getenv: n => n === 'XDG_RUNTIME_DIR' ? (sim.plan.noruntime ? null : '/run/user/77') : n === 'HOME' ? '/home/u' : null,
		get_user_runtime_dir: () => sim.plan.noruntime ? '/run/user/1000' : '/run/user/77',
		spawn_command_line_sync: c => [true, enc(sim.command(c)), enc(''), 0],
		spawn_command_line_async: c => { sim.command(c); return true; },
		spawn_sync: (d, argv) => [true, enc(sim.command(argv.join(' '))), enc(''), 0],
		spawn_async: (d, argv) => { sim.command(argv.join(' ')); return [true, 1]; },
		spawn_check_wait_status: () => true, spawn_check_exit_status: () => true, spawn_close_pid() {}, child_watch_add: (...a) => timer(fn(a)),
		path_is_absolute: p => p[0] === '/', path_get_dirname: p => p.replace(/\/[^/]*$/, ''), path_get_basename: p => p.replace(/.*\//, ''),
		build_filenamev: a => a.join('/'), file_test: () => !!sim.fifo, FileTest: { EXISTS: 16, IS_REGULAR: 1 },
		idle_add: (...a) => timer(fn(a)), timeout_add: (...a) => timer(fn(a)), timeout_add_seconds: (...a) => timer(fn(a)), source_remove: id => { gone.add(id); return true; },
		PRIORITY_DEFAULT: 0, PRIORITY_LOW: 300, PRIORITY_HIGH: -100, PRIORITY_DEFAULT_IDLE: 200, SOURCE_REMOVE: false, SOURCE_CONTINUE: true,
		Bytes: class { constructor(x) { this.x = typeof x === 'string' ? enc(x) : x; } get_data() { return this.x; } },
		Source: { remove: id => { gone.add(id); return true; } }, SpawnFlags: { SEARCH_PATH: 4, DEFAULT: 0 },
	};
	const mkfile = path => ({
		get_path: () => path, query_exists: () => path === sim.path && !!sim.fifo,
		append_to_async(fl, pr, c, cb) {
			sim.rec('open fifo');
			if (path !== sim.path) sim.fail('opens ' + path);
			sim.count('opens');
			if (typeof cb === 'function') sim.opens.push({ file: this, cb });
			else return new Promise((ok, no) => sim.opens.push({ file: this, cb: (f, r) => r.s ? ok(r.s) : no(new Error('could not open')) }));
		},
		append_to_finish(r) { if (!r.s) throw new Error('could not open'); return r.s; },
		append_to() { if (!sim.mapper || !sim.mapper.open) { sim.fail('the shell hangs opening the fifo'); throw sim.stop; } const s = new Stream(sim); sim.fifo.writers.add(s); return s; },
	});
	const Gio = {
		File: { new_for_path: mkfile }, FileCreateFlags: { NONE: 0 }, _promisify() {}, Cancellable: class { cancel() {} is_cancelled() { return false; } },
		IOErrorEnum: {}, SubprocessFlags: { NONE: 0 },
		Subprocess: class {
			constructor(o) { if (o && o.argv) this.run(o.argv); }
			static new(argv) { const p = new Gio.Subprocess(); p.run(argv); return p; }
			run(argv) { sim.command(argv.join(' ')); }
			init() { return true; } wait() { return true; } wait_check() { return true; } force_exit() {} send_signal() {} get_successful() { return true; }
			wait_async(c, cb) { if (cb) sim.later('waited', () => cb(this, {})); } wait_check_async(c, cb) { this.wait_async(c, cb); } wait_finish() { return true; } wait_check_finish() { return true; }
		},
	};
	sim.tracker = new Emitter(); sim.layout = new Emitter(); sim.stage = '';
	const Shell = { WindowTracker: { get_default: () => sim.tracker } };
	const Main = { layoutManager: sim.layout, notify() {}, notifyError() {} };
	const global_ = {
		display: new Emitter(), stage: { get_title: () => sim.stage }, window_manager: new Emitter(), workspace_manager: new Emitter(),
		get_current_time: () => 0, log() {}, get_window_actors: () => [],
	};
	Object.defineProperty(global_.display, 'focus_window', { get: () => sim.win });
	global_.display.get_focus_window = () => sim.win;
	const log = (...a) => sim.rec('log', ...a);
	const GObject = { registerClass: (a, b) => b || a, Object: class {} };
	const ctx = { global: global_, log, logError: log, print: log, printerr: log, console: { log, warn: log, error: log, debug: log, info: log }, TextDecoder, TextEncoder, Uint8Array };
	const gi = { GLib, Gio, Shell, GObject, Meta: {}, St: {}, Clutter: {} };
	return { GLib, Gio, Shell, Main, gi, ctx };
}

class Extension { constructor(m) { this.metadata = m || {}; this.uuid = 'keyd'; this.dir = {}; this.path = '/'; } getSettings() { return new Emitter(); } enable() {} disable() {} }
let script42 = null;

async function execute(plan) {
	const sim = new Sim(plan), sh = shell(sim);
	try {
		if (plan.v === '42') {
			if (!script42) script42 = new vm.Script(SRC['42'] + '\n;({ init: typeof init === "function" ? init : null, enable: typeof enable === "function" ? enable : null, disable: typeof disable === "function" ? disable : null });');
			const meta = { uuid: 'keyd', metadata: {}, dir: {}, path: '/' };
			sh.ctx.imports = { gi: sh.gi, ui: { main: sh.Main }, misc: { extensionUtils: { getCurrentExtension: () => meta } }, byteArray: { toString: x => Buffer.from(x).toString('utf8'), fromString: x => Buffer.from(x, 'utf8') }, lang: { bind: (o, f) => f.bind(o) }, mainloop: {}, signals: {} };
			const top = script42.runInContext(vm.createContext(sh.ctx));
			const e = top.init ? top.init(meta) : null;
			sim.ext = e && typeof e === 'object' ? e : { enable: top.enable, disable: top.disable };
		} else {
			const c = vm.createContext(sh.ctx);
			const m = new vm.SourceTextModule(SRC['45'], { context: c });
			await m.link(spec => {
				let ns;
				if (spec.startsWith('gi://')) ns = { default: sh.gi[spec.slice(5).split('?')[0]] || {} };
				else if (spec.endsWith('/ui/main.js')) ns = sh.Main;
				else if (spec.endsWith('/extensions/extension.js')) ns = { Extension, gettext: x => x };
				else ns = {};
				const s = new vm.SyntheticModule(Object.keys(ns), function () { for (const k of Object.keys(ns)) this.setExport(k, ns[k]); }, { context: c });
				return s;
			});
			await m.evaluate();
			sim.ext = new m.namespace.default({ uuid: 'keyd', name: 'keyd' });
		}
		sim.enable();
		for (const o of plan.ops) { await sim.apply(o); await sim.tick(); if (sim.finding) break; }
		if (!sim.finding) await sim.check();
	} catch (e) {
		if (e !== sim.stop) sim.fail('the extension died of ' + (e && e.name + ': ' + e.message));
	}
	const h = crypto.createHash('sha256').update(JSON.stringify([sim.log, sim.finding])).digest('hex').slice(0, 16);
	return { finding: sim.finding, h, sim };
}

const CLASSES = ['kitty', 'firefox', 'Org.gnome.Nautilus', 'a b', 'Ümlaut', 'x'];
const TITLES = ['', 'foo', 'New Tab - X', '日本語 title', 'find me', 'a\tb', 'two\nlines', 'and\nthree\nlines\n', 'x\ny\tz', '\n', 'foo', 'a "quoted" $(title) `x` \\n', 'long '.repeat(40)];
function generate(seed) {
	const r = Rng(seed), plan = { prop: 'C28', seed, v: r.pick(['42', '45']), chunks: r.n(1 << 30), ops: [] };
	if (r.chance(0.2)) plan.noruntime = 1;
	const ops = plan.ops, nw = 1 + r.n(4);
	for (let i = 0; i < nw; i++) ops.push({ op: 'open', w: i, cls: r.pick(CLASSES), title: r.pick(TITLES) });
	const wait = () => { const k = r.f(); if (k < 0.4) ops.push({ op: 'settle' }); else if (k < 0.7) ops.push({ op: 'wait', n: 1 + r.n(4) }); };
	if (r.chance(0.6)) wait();
	const locks = r.chance(0.5), kills = r.chance(0.6), n = r.pick([3, 8, 15, 40]);
	for (let i = 0; i < n; i++) {
		const k = r.f();
		if (k < 0.55) ops.push({ op: 'focus', w: r.chance(0.1) ? null : r.n(nw) });
		else if (k < 0.65) ops.push({ op: 'title', w: r.n(nw), title: r.pick(TITLES) });
		else if (k < 0.72) ops.push({ op: 'modal', title: r.pick(['', 'Authentication', 'gnome-shell']) });
		else if (k < 0.82 && locks) ops.push({ op: r.pick(['lock', 'unlock', 'unlock']) });
		else if (k < 0.97 && kills) ops.push({ op: r.pick(['kill', 'restart', 'restart']) });
		else if (k >= 0.97 && r.chance(0.5)) ops.push({ op: 'openfail', n: 1 });
		wait();
	}
	if (locks) ops.push({ op: 'unlock' });
	if (kills) ops.push({ op: 'restart' }, { op: 'settle' });
	for (let i = r.n(3); i >= 0; i--) { ops.push({ op: 'focus', w: r.n(nw) }); if (r.chance(0.5)) ops.push({ op: 'settle' }); }
	return plan;
}

async function minimise(plan, what) {
	const kind = w => w.replace(/"(\\.|[^"])*"/g, '').slice(0, 60);
	let ops = plan.ops, n = 2, ex = 0;
	const bad = async p => { const f = (await execute(p)).finding; ex++; return f && kind(f) === kind(what); };
	while (ops.length > 1 && ex < 2000) {
		const step = Math.max(1, Math.floor(ops.length / n)); let hit = false;
		for (let a = 0; a < ops.length; a += step) {
			const q = Object.assign({}, plan, { ops: ops.slice(0, a).concat(ops.slice(a + step)) });
			if (await bad(q)) { ops = q.ops; plan = q; n = Math.max(2, n - 1); hit = true; break; }
		}
		if (!hit) { if (step === 1) break; n = Math.min(ops.length, n * 2); }
	}
	return plan;
}

async function main() {
	if (process.argv[2] === 'gen') return console.log(JSON.stringify(generate(process.argv[4])));
	if (process.argv[2] === 'run') {
		const plan = JSON.parse(fs.readFileSync(process.argv[4], 'utf8'));
		const { finding, h, sim } = await execute(plan);
		for (const l of sim.log) console.log('  ' + l);
		console.log('hash ' + h);
		console.log(finding ? 'reproduced: ' + finding : 'not reproduced');
		process.exitCode = finding ? 1 : 0;
		return;
	}
	const [base, first, stride, secs] = process.argv.slice(4).map(Number);
	const res = { runs: 0, nontrivial: 0, double: 0, nondet: 0, hashes: [], scheds: [], stat: {}, versions: {}, viol: [] };
	const hs = new Set(), ss = new Set(), t0 = Date.now();
	let i = first;
	while (Date.now() - t0 < secs * 1000 && res.viol.length < 1) {
		const seed = String(BigInt(base) * (1n << 32n) + BigInt(i));
		if (process.env.GEXT_PROGRESS) fs.writeFileSync(process.env.GEXT_PROGRESS, seed);
		const plan = generate(seed), { finding, h, sim } = await execute(plan);
		if (i % 50 === 0) { res.double++; if ((await execute(plan)).h !== h) res.nondet++; }
		res.runs++; res.versions[plan.v] = (res.versions[plan.v] || 0) + 1;
		for (const k in sim.stat) res.stat[k] = (res.stat[k] || 0) + sim.stat[k];
		res.stat.checks = (res.stat.checks || 0) + sim.checks;
		if (sim.checks > 1 && sim.stat.lines) { res.nontrivial++; hs.add(h); }
		ss.add(crypto.createHash('sha256').update(sim.log.map(l => l.split(' ').slice(0, 2).join(' ')).join()).digest('hex').slice(0, 16));
		if (finding) {
			const m = await minimise(plan, finding), a = await execute(m), b = await execute(m);
			if (a.finding && a.h === b.h) res.viol.push([a.finding, m]); else res.nondet++;
		}
		i += stride;
	}
	res.hashes = [...hs]; res.scheds = [...ss];
	res.sample = generate(String(BigInt(base) * (1n << 32n)));
	console.log(JSON.stringify(res));
}
main().catch(e => { console.error(e); process.exitCode = 2; });
