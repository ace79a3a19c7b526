# What the evidence of each check says about itself: how cases are made, what is real and what is a stub.
REAL = ["keyd daemon: every file of /repo/src and src/vkbd/uinput.c, compiled unmodified from the working tree (libc calls redirected at link level)"]
STUB = ["Linux kernel: evdev, uinput, inotify, unix sockets, flock, processes, signals, clock (the simulator's models of them)",
        "file system: in-memory, with read and open errors", "IPC clients: scripted, byte-exact protocol", "shell commands: recorded, not executed",
        "libc heap: simulator allocator under ASAN"]
ASSUME = ["the simulated kernel behaves as Linux does for the calls keyd makes (each model is described in DESIGN.md)",
          "simulated runs are a sample: a clean batch is evidence, not proof",
          "the reference model follows the documented behaviour; where the manual is silent it follows the behaviour of the pinned version"]
NT = " A case is one seeded plan (config, devices, timed input, client traffic, faults, jitter) executed once; it counts as non-trivial when the daemon started and was driven through more than three main-loop steps, and as distinct by the hash of its whole event log."
def L(rule, real=REAL, stub=STUB, assume=ASSUME):
    return {"rule": rule + NT, "real": real, "stub": stub, "assume": assume}
LEVELS = {
 "C01": L("Configs mix every binding kind; input presses, releases, reloads, rebinds, unplugs and ends with every physical key up; then nothing but the modifiers of latched layers may be down on the virtual devices."),
 "C02": L("Several keyboards, bursts, duplicates, repeats, batching and stalls; what reaches the virtual devices must be the input stream."),
 "C03": L("Layer stacks, composites, layouts and rebinding between press and release; lockstep with the reference model."),
 "C04": L("Modifier layers, composites, macros as actions; lockstep with the reference model and modifier/guard bookkeeping."),
 "C05": L("All tap/hold actions with gaps around their timeouts, foreign keys, foreign devices; lockstep with the reference model."),
 "C06": L("Oneshot stacks, oneshot_timeout, mouse clicks; lockstep with the reference model."),
 "C07": L("toggle/swap/clear/setlayout/layer sequences; lockstep with the reference model and listener streams."),
 "C08": L("Overlapping chords, hold timeouts, interrupting keys; lockstep with the reference model."),
 "C09": L("Macros with holds, delays, unicode, repeats and interruptions; lockstep with the reference model."),
 "C10": L("Every timeout kind with noise from other devices, clients, hotplug, stalls, spurious wake-ups and large uptimes; every deadline has to be served when it is due."),
 "C11": L("Random [ids] sections and device populations, hotplug, failing opens and grabs; an independent matcher decides which devices have to be grabbed."),
 "C12": L("Cycles of plug/unplug, clients, reloads and commands; descriptors, allocations and zombies counted by the simulated kernel after each cycle."),
 "C13": L("Orders of backspace, escape, enter over devices, remaps, LEDs, unplugs; the daemon ends exactly on the panic sequence."),
 "C14": L("Hostile clients, devices, configs and failing calls; afterwards the daemon is alive, answers and remaps."),
 "C15": L("The real protocol with concurrent clients, fragmentation, stalls and disconnects; one truthful reply per request, one effect."),
 "C16": L("Listeners which read, stall, die or crowd; the lines written are the layer history."),
 "C17": L("Reloads at arbitrary points with changed, broken, unreadable files; behaviour afterwards is that of a fresh start on the files."),
 "C18": L("Second instances, kill -9 at any system call, surviving command children, restarts; exactly one serving daemon."),
 "C19": L("Managed mice and touchpads: motion, wheel, scroll mode, clicks mixed with keys; conservation, order and reference model."),
 "C20": L("command() presses with failing fork and exec, slow children and descriptors; exactly one execution per press."),
 "C21": L("LED traffic from the desktop, failing LED writes, hotplug, layer_indicator; LED history of every managed device."),
 "C22": {"rule": "Random app.conf files, windows, focus/title/app_id/close notifications, edits of app.conf (replaced, truncated, missing), SIGUSR1 and failing keyd commands for the wlroots, cosmic, gnome, X and kde backends; byte streams cut at random points. Whenever the script waits with nothing in flight, its last command must be the one an independent matcher computes for the focused window. A case is one seeded plan executed once; it counts as non-trivial when commands were issued and more than one check was made, and as distinct by the hash of its event log.",
          "real": ["scripts/keyd-application-mapper, executed unmodified from the working tree"],
          "stub": ["Wayland compositor (wire protocol of the two toplevel protocols), gnome extension fifo, X server and Xlib, kwin/dbus/GLib, select, sockets, signals, the keyd command"],
          "assume": ["the stubs send what real compositors send", "simulated runs are a sample: a clean batch is evidence, not proof"]},
 "C23": L("The usb-gadget build with an endpoint which is busy for seconds or fails to take reports, bursts and unplugs; every report the host reads must be a key state that was reached, in order, and the last one the final state.", ["keyd daemon with src/vkbd/usb-gadget.c, unmodified; the backend's entry points are wrapped to record what it is asked to report"]),
 "C24": L("The real client processes (bind, do, input with arguments or stdin, reload, listen) beside a real daemon, or none, which fragments, stalls, fails to accept or to write, is killed at any system call and restarted; what is sent, printed and returned is compared with the bytes on the wire.", ["keyd client code (main, ipc, stdin handling) and the daemon, unmodified"]),
 "C25": L("The real monitor process alone or beside a daemon: typing on several devices, unplugging with keys held, event loss in the kernel, read errors, stalls, a closing pipe; lines printed are compared with the events read, line by line.", ["keyd monitor with its event loop and device code, unmodified; the daemon where a plan has one"]),
 "C26": L("Text with every codepoint of the compose file in turn, sent by the real client (arguments or standard input) or as fragmented requests, or bound to keys in layers with modifiers, taps, holds, oneshots, chords and macros, with stalls and foreign events; the virtual keyboard is read by a simulated desktop which knows data/keyd.compose and must show exactly the text."),
 "C27": L("All key names in every place where a name can stand, and random configurations up to capacity in random spellings, delivered as a file, through includes, over repeated sections, or by bind requests and the real client; lockstep with the reference model and its own parser."),
 "C29": L("One to five of the shipped layouts included together, chosen by default_layout and setlayout, every key alone, with shift, AltGr and both, on one or two keyboards, with earlier keys still held, reloads and foreign events; a simulated desktop which knows data/keyd.compose must read the listed characters. The shipped examples under random use in lockstep with the reference model.", ["keyd daemon (all of src/), unmodified, with the files of layouts/ and examples/"]),
 "C28": {"rule": "Windows, focus changes, titles (with tabs, newlines, quotes), system dialogs, locking and unlocking the screen, the mapper killed and restarted, the fifo failing to open, in either extension; the main loop's order of completions and the sizes the mapper reads are random. What the mapper has read must be what it had to be told. A case is one seeded plan executed once; it counts as non-trivial when lines were read and more than one check was made, and as distinct by the hash of its event log.",
          "real": ["data/gnome-extension/extension.js and data/gnome-extension-45/extension.js, executed unmodified from the working tree in node"],
          "stub": ["gnome-shell: its modules (GLib, Gio, Shell, Main, Extension), signals and main loop; the fifo; the mapper process"],
          "assume": ["the stubs do what gnome-shell does, titles and classes are strings", "simulated runs are a sample: a clean batch is evidence, not proof"]},
}
