// Frozen copy of the documented key names (code, name, alternative name, shifted name).
static const struct { int code; const char *name, *alt, *shift; } KEYTAB[] = {
	{1, "esc", "escape", 0},
	{2, "1", 0, "!"},
	{3, "2", 0, "@"},
	{4, "3", 0, "#"},
	{5, "4", 0, "$"},
	{6, "5", 0, "%"},
	{7, "6", 0, "^"},
	{8, "7", 0, "&"},
	{9, "8", 0, "*"},
	{10, "9", 0, "("},
	{11, "0", 0, ")"},
	{12, "-", "minus", "_"},
	{13, "=", "equal", "+"},
	{14, "backspace", 0, 0},
	{15, "tab", 0, 0},
	{16, "q", 0, "Q"},
	{17, "w", 0, "W"},
	{18, "e", 0, "E"},
	{19, "r", 0, "R"},
	{20, "t", 0, "T"},
	{21, "y", 0, "Y"},
	{22, "u", 0, "U"},
	{23, "i", 0, "I"},
	{24, "o", 0, "O"},
	{25, "p", 0, "P"},
	{26, "[", "leftbrace", "{"},
	{27, "]", "rightbrace", "}"},
	{28, "enter", 0, 0},
	{29, "leftcontrol", 0, 0},
	{30, "a", 0, "A"},
	{31, "s", 0, "S"},
	{32, "d", 0, "D"},
	{33, "f", 0, "F"},
	{34, "g", 0, "G"},
	{35, "h", 0, "H"},
	{36, "j", 0, "J"},
	{37, "k", 0, "K"},
	{38, "l", 0, "L"},
	{39, ";", "semicolon", ":"},
	{40, "'", "apostrophe", "\""},
	{41, "`", "grave", "~"},
	{42, "leftshift", 0, 0},
	{43, "\\", "backslash", "|"},
	{44, "z", 0, "Z"},
	{45, "x", 0, "X"},
	{46, "c", 0, "C"},
	{47, "v", 0, "V"},
	{48, "b", 0, "B"},
	{49, "n", 0, "N"},
	{50, "m", 0, "M"},
	{51, ",", "comma", "<"},
	{52, ".", "dot", ">"},
	{53, "/", "slash", "?"},
	{54, "rightshift", 0, 0},
	{55, "kpasterisk", 0, 0},
	{56, "leftalt", 0, 0},
	{57, "space", 0, 0},
	{58, "capslock", 0, 0},
	{59, "f1", 0, 0},
	{60, "f2", 0, 0},
	{61, "f3", 0, 0},
	{62, "f4", 0, 0},
	{63, "f5", 0, 0},
	{64, "f6", 0, 0},
	{65, "f7", 0, 0},
	{66, "f8", 0, 0},
	{67, "f9", 0, 0},
	{68, "f10", 0, 0},
	{69, "numlock", 0, 0},
	{70, "scrolllock", 0, 0},
	{71, "kp7", 0, 0},
	{72, "kp8", 0, 0},
	{73, "kp9", 0, 0},
	{74, "kpminus", 0, 0},
	{75, "kp4", 0, 0},
	{76, "kp5", 0, 0},
	{77, "kp6", 0, 0},
	{78, "kpplus", 0, 0},
	{79, "kp1", 0, 0},
	{80, "kp2", 0, 0},
	{81, "kp3", 0, 0},
	{82, "kp0", 0, 0},
	{83, "kpdot", 0, 0},
	{84, "iso-level3-shift", 0, 0},
	{85, "zenkakuhankaku", 0, 0},
	{86, "102nd", 0, 0},
	{87, "f11", 0, 0},
	{88, "f12", 0, 0},
	{89, "ro", 0, 0},
	{90, "katakana", 0, 0},
	{91, "hiragana", 0, 0},
	{92, "henkan", 0, 0},
	{93, "katakanahiragana", 0, 0},
	{94, "muhenkan", 0, 0},
	{95, "kpjpcomma", 0, 0},
	{96, "kpenter", 0, 0},
	{97, "rightcontrol", 0, 0},
	{98, "kpslash", 0, 0},
	{99, "sysrq", 0, 0},
	{100, "rightalt", 0, 0},
	{101, "linefeed", 0, 0},
	{102, "home", 0, 0},
	{103, "up", 0, 0},
	{104, "pageup", 0, 0},
	{105, "left", 0, 0},
	{106, "right", 0, 0},
	{107, "end", 0, 0},
	{108, "down", 0, 0},
	{109, "pagedown", 0, 0},
	{110, "insert", 0, 0},
	{111, "delete", 0, 0},
	{112, "macro", 0, 0},
	{113, "mute", 0, 0},
	{114, "volumedown", 0, 0},
	{115, "volumeup", 0, 0},
	{116, "power", 0, 0},
	{117, "kpequal", 0, 0},
	{118, "kpplusminus", 0, 0},
	{119, "pause", 0, 0},
	{120, "scale", 0, 0},
	{121, "kpcomma", 0, 0},
	{122, "hangeul", 0, 0},
	{123, "hanja", 0, 0},
	{124, "yen", 0, 0},
	{125, "leftmeta", 0, 0},
	{126, "rightmeta", 0, 0},
	{127, "compose", 0, 0},
	{128, "stop", 0, 0},
	{129, "again", 0, 0},
	{130, "props", 0, 0},
	{131, "undo", 0, 0},
	{132, "front", 0, 0},
	{133, "copy", 0, 0},
	{134, "open", 0, 0},
	{135, "paste", 0, 0},
	{136, "find", 0, 0},
	{137, "cut", 0, 0},
	{138, "help", 0, 0},
	{139, "menu", 0, 0},
	{140, "calc", 0, 0},
	{141, "setup", 0, 0},
	{142, "sleep", 0, 0},
	{143, "wakeup", 0, 0},
	{144, "file", 0, 0},
	{145, "sendfile", 0, 0},
	{146, "deletefile", 0, 0},
	{147, "xfer", 0, 0},
	{148, "scrolldown", 0, 0},
	{149, "scrollup", 0, 0},
	{150, "www", 0, 0},
	{151, "msdos", 0, 0},
	{152, "coffee", 0, 0},
	{153, "display", 0, 0},
	{154, "cyclewindows", 0, 0},
	{155, "mail", 0, 0},
	{156, "bookmarks", 0, 0},
	{157, "computer", 0, 0},
	{158, "back", 0, 0},
	{159, "forward", 0, 0},
	{160, "closecd", 0, 0},
	{161, "ejectcd", 0, 0},
	{162, "ejectclosecd", 0, 0},
	{163, "nextsong", 0, 0},
	{164, "playpause", 0, 0},
	{165, "previoussong", 0, 0},
	{166, "stopcd", 0, 0},
	{167, "record", 0, 0},
	{168, "rewind", 0, 0},
	{169, "phone", 0, 0},
	{170, "iso", 0, 0},
	{171, "config", 0, 0},
	{172, "homepage", 0, 0},
	{173, "refresh", 0, 0},
	{174, "exit", 0, 0},
	{175, "move", 0, 0},
	{176, "edit", 0, 0},
	{177, "zoom", 0, 0},
	{178, "mouseback", 0, 0},
	{179, "kpleftparen", 0, 0},
	{180, "kprightparen", 0, 0},
	{181, "new", 0, 0},
	{182, "redo", 0, 0},
	{183, "f13", 0, 0},
	{184, "f14", 0, 0},
	{185, "f15", 0, 0},
	{186, "f16", 0, 0},
	{187, "f17", 0, 0},
	{188, "f18", 0, 0},
	{189, "f19", 0, 0},
	{190, "f20", 0, 0},
	{191, "f21", "prog1", 0},
	{192, "f22", "prog2", 0},
	{193, "f23", "prog3", 0},
	{194, "f24", "prog4", 0},
	{195, "noop", 0, 0},
	{200, "playcd", 0, 0},
	{201, "pausecd", 0, 0},
	{202, "scrollleft", 0, 0},
	{203, "scrollright", 0, 0},
	{204, "dashboard", 0, 0},
	{205, "suspend", 0, 0},
	{206, "close", 0, 0},
	{207, "play", 0, 0},
	{208, "fastforward", 0, 0},
	{209, "bassboost", 0, 0},
	{210, "print", 0, 0},
	{211, "hp", 0, 0},
	{212, "camera", 0, 0},
	{213, "sound", 0, 0},
	{214, "question", 0, 0},
	{215, "email", 0, 0},
	{216, "chat", 0, 0},
	{217, "search", 0, 0},
	{218, "connect", 0, 0},
	{219, "finance", 0, 0},
	{220, "sport", 0, 0},
	{221, "shop", 0, 0},
	{222, "voicecommand", 0, 0},
	{223, "cancel", 0, 0},
	{224, "brightnessdown", 0, 0},
	{225, "brightnessup", 0, 0},
	{226, "media", 0, 0},
	{227, "switchvideomode", 0, 0},
	{228, "kbdillumtoggle", 0, 0},
	{229, "kbdillumdown", 0, 0},
	{230, "kbdillumup", 0, 0},
	{231, "send", 0, 0},
	{232, "reply", 0, 0},
	{233, "forwardmail", 0, 0},
	{234, "save", 0, 0},
	{235, "documents", 0, 0},
	{236, "battery", 0, 0},
	{237, "bluetooth", 0, 0},
	{238, "wlan", 0, 0},
	{239, "uwb", 0, 0},
	{240, "unknown", 0, 0},
	{241, "next", 0, 0},
	{242, "prev", 0, 0},
	{243, "cycle", 0, 0},
	{244, "auto", 0, 0},
	{245, "off", 0, 0},
	{246, "wwan", 0, 0},
	{247, "rfkill", 0, 0},
	{248, "micmute", 0, 0},
	{249, "leftmouse", 0, 0},
	{250, "middlemouse", 0, 0},
	{251, "rightmouse", 0, 0},
	{252, "mouse1", 0, 0},
	{253, "mouse2", 0, 0},
	{254, "fn", 0, 0},
	{255, "mouseforward", 0, 0},
};
// Some codepoints and their index in the compose table.
static const struct { uint32_t cp; int idx; } UNITAB[] = {
	{0xdf, 95},
	{0xf1, 113},
	{0x20ac, 7390},
	{0xf8, 120},
	{0xa1, 33},
	{0xe5, 101},
	{0x80, 0},
	{0x81, 1},
	{0x82, 2},
	{0x83, 3},
	{0x84, 4},
	{0x85, 5},
	{0x86, 6},
	{0xe9, 105},
	{0xfc, 124},
	{0x14e, 206},
	{0x216, 406},
	{0x2de, 606},
	{0x3af, 806},
	{0x3b1, 808},
	{0x477, 1006},
	{0x540, 1206},
	{0x624, 1406},
	{0x6ec, 1606},
	{0x7c5, 1806},
	{0x8a1, 2006},
	{0x969, 2206},
	{0xa82, 2406},
	{0xb9f, 2606},
	{0xcb2, 2806},
	{0xdac, 3006},
	{0xec6, 3206},
	{0xfb9, 3406},
	{0x10a8, 3606},
	{0x1178, 3806},
	{0x1240, 4006},
	{0x131d, 4206},
	{0x13f0, 4406},
	{0x14bc, 4606},
	{0x1584, 4806},
	{0x164c, 5006},
	{0x1727, 5206},
	{0x1826, 5406},
	{0x1904, 5606},
	{0x19f2, 5806},
	{0x1acd, 6006},
	{0x1bca, 6206},
	{0x1ca7, 6406},
	{0x1d7e, 6606},
	{0x1e46, 6806},
	{0x1f0e, 7006},
	{0x1fe9, 7206},
	{0x20ac, 7390},
	{0x20bc, 7406},
	{0x21a6, 7606},
	{0x226e, 7806},
	{0x2336, 8006},
	{0x23fe, 8206},
	{0x24f4, 8406},
	{0x25bc, 8606},
	{0x2684, 8806},
	{0x274c, 9006},
	{0x2814, 9206},
	{0x28dc, 9406},
	{0x29a4, 9606},
	{0x2a6c, 9806},
	{0x2b34, 10006},
	{0x2bff, 10206},
	{0x2cc7, 10406},
	{0x2dbd, 10606},
	{0x2ead, 10806},
	{0x2f81, 11006},
	{0x3068, 11206},
	{0x3138, 11406},
	{0x320d, 11606},
	{0x32d6, 11806},
	{0x339e, 12006},
	{0xa021, 12205},
	{0xa0e9, 12405},
	{0xa1b1, 12605},
	{0xa279, 12805},
	{0xa341, 13005},
	{0xa409, 13205},
	{0xa4dd, 13405},
	{0xa5a5, 13605},
	{0xa681, 13805},
	{0xa751, 14005},
	{0xa841, 14205},
	{0xa91f, 14405},
	{0xa9fa, 14605},
	{0xaae8, 14805},
	{0xabcd, 15005},
	{0xf951, 15205},
	{0xfa19, 15405},
	{0xfb15, 15605},
	{0xfbf7, 15805},
	{0xfcbf, 16005},
	{0xfd87, 16205},
	{0xfe85, 16405},
	{0xff50, 16605},
	{0x10033, 16805},
	{0x1012a, 17005},
	{0x102ad, 17205},
	{0x1039b, 17405},
	{0x10492, 17605},
	{0x1057e, 17805},
	{0x1068f, 18005},
	{0x10782, 18205},
	{0x1089b, 18405},
	{0x109ef, 18605},
	{0x10b00, 18805},
	{0x10c35, 19005},
	{0x10e76, 19205},
	{0x10fe8, 19405},
	{0x110d2, 19605},
	{0x111b9, 19805},
	{0x112d9, 20005},
	{0x11456, 20205},
	{0x1160f, 20405},
	{0x1173d, 20605},
	{0x11934, 20805},
	{0x11a75, 21005},
	{0x11c5d, 21205},
	{0x11d8b, 21405},
	{0x12065, 21605},
	{0x1212d, 21805},
	{0x121f5, 22005},
	{0x122bd, 22205},
	{0x12385, 22405},
	{0x124bf, 22605},
	{0x12fd3, 22805},
	{0x130a8, 23005},
	{0x13170, 23205},
	{0x13238, 23405},
	{0x13300, 23605},
	{0x133c8, 23805},
	{0x14458, 24005},
	{0x14520, 24205},
	{0x145e8, 24405},
	{0x16869, 24605},
	{0x16931, 24805},
	{0x169f9, 25005},
	{0x16ad4, 25205},
	{0x16e69, 25405},
	{0x16fe1, 25605},
	{0x188c0, 25805},
	{0x18988, 26005},
	{0x18a50, 26205},
	{0x18b18, 26405},
	{0x18be0, 26605},
	{0x18ca8, 26805},
	{0x1b08b, 27005},
	{0x1b199, 27205},
	{0x1b261, 27405},
	{0x1bc2d, 27605},
	{0x1cf6d, 27805},
	{0x1d071, 28005},
	{0x1d145, 28205},
	{0x1d222, 28405},
	{0x1d420, 28605},
	{0x1d4f4, 28805},
	{0x1d5c8, 29005},
	{0x1d690, 29205},
	{0x1d75a, 29405},
	{0x1d824, 29605},
	{0x1d8ec, 29805},
	{0x1d9b4, 30005},
	{0x1da7c, 30205},
	{0x1e2a8, 30405},
	{0x1e86a, 30605},
	{0x1ec76, 30805},
	{0x1ee6f, 31005},
	{0x1f089, 31205},
	{0x1f16b, 31405},
	{0x1f32b, 31605},
	{0x1f3f3, 31805},
	{0x1f4bb, 32005},
	{0x1f583, 32205},
	{0x1f600, 32330},
	{0x1f64b, 32405},
	{0x1f71e, 32605},
	{0x1f810, 32805},
	{0x1f93e, 33005},
	{0x1fa06, 33205},
	{0x1fb14, 33405},
	{0x2ceb0, 33605},
	{0x2f8c6, 33805},
	{0x2f98e, 34005},
	{0xe0055, 34205},
	{0xe019d, 34405},
};
