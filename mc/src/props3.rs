//! Spaces shared by the language-level properties, each explored under the judgement of the property that asks for it:
//! quantities, stray characters, tokens across buffer boundaries, and sequences over a broad statement alphabet.

use crate::engine::*;
use crate::props::{inproc, CLI};

/// Quantities at which limits, caches, buffers and counters of a program usually change behaviour.
pub fn quantities(dense: usize, max: usize) -> Vec<usize> {
    let mut v: Vec<usize> = (0..=dense).collect();
    let mut p = 256usize;
    while p <= 1 << 20 {
        for d in [p - 1, p, p + 1] {
            v.push(d);
        }
        p *= 2;
    }
    for d in [300, 400, 500, 640, 768, 999, 1000, 1001, 1200, 1500, 2000, 3000, 4000, 4094, 5000, 9999, 10000, 10001, 20000, 50000, 100_000] {
        v.push(d);
    }
    v.retain(|x| *x <= max);
    v.sort();
    v.dedup();
    v
}

type Family = (&'static str, usize, fn(usize) -> String);

/// One program per quantity: the quantity counts some element of the source.
fn families() -> Vec<Family> {
    vec![
        ("comment lines before", 70_000, |n| format!("{}S: jp S\nld v1, $2A\n", ";x\n".repeat(n))),
        ("blank lines between", 70_000, |n| format!("jp E\n{}E: ld i, E\n", "\n".repeat(n))),
        ("CRLF lines between", 70_000, |n| format!("jp E\r\n{}E: ld i, E\r\n", "\r\n".repeat(n))),
        ("blanks before a statement", 70_000, |n| format!("{}drw v1, v2, 3\n{}.db 1, \"a\"\n", " ".repeat(n), "\t".repeat(n))),
        ("blanks between operands", 70_000, |n| format!("ld v1,{}v2\nadd{}v3, 7\n.db 1{},2\n", " ".repeat(n), " \t".repeat(n / 2 + 1), " ".repeat(n))),
        ("characters of a comment", 140_000, |n| format!("cls ;{}\nret\n", "y".repeat(n))),
        ("wide characters of a comment", 70_000, |n| format!("cls ;{}\nret\n", "\u{65e5}".repeat(n))),
        ("instructions", 2047, |n| (0..n).map(|k| format!("ld v{:x}, {}\n", k % 16, k % 256)).collect()),
        ("instructions on one line", 2047, |n| (0..n).map(|k| format!("add v{:x}, {} ", k % 16, k % 256)).collect::<String>() + "\n"),
        ("one-byte directives", 4095, |n| (0..n).map(|k| format!(".db {}\n", k % 256)).collect()),
        ("items", 4095, |n| format!(".db 1{}\nE: .db 2\n", (1..n).map(|k| format!(", {}", k % 256)).collect::<String>())),
        ("string items", 4095, |n| format!(".db \"x\"{}\n", (1..n).map(|k| format!(", \"{}\"", (b'a' + (k % 26) as u8) as char)).collect::<String>())),
        ("characters of a string", 4095, |n| format!("jp E\n.db \"{}\"\nE: cls\n", (0..n).map(|k| (b'A' + (k % 26) as u8) as char).collect::<String>())),
        ("wide characters of a string", 1365, |n| format!("jp E\n.db \"{}\"\nE: cls\n", "\u{65e5}".repeat(n))),
        ("lines of a string", 2000, |n| format!("jp E\n.db \"{}\"\nE: cls\n", "\n.".repeat(n))),
        ("escapes of a string", 2000, |n| format!("jp E\n.db \"{}\", 1\nE: cls\n", "\\\"".repeat(n))),
        ("sections", 2040, |n| (0..n).map(|k| format!(".org {}\n.db {}\n", 2 * k, k % 256)).collect()),
        ("sections, descending", 2040, |n| (0..n).map(|k| format!(".org {}\n.db {}\n", 2 * (n - k), k % 256)).collect()),
        ("empty sections", 20_000, |n| format!("cls\n{}.org $100\nret\n", ".org $300\n".repeat(n))),
        ("colliding sections", 40, |n| (0..n).map(|k| format!(".org {}\n.db 1, 2\n", k)).collect()),
        ("chain of colliding sections", 2040, |n| (0..n).map(|k| format!(".org {}\n.db 1, 2\n", k)).collect()),
        ("pairs of colliding sections", 1000, |n| (0..n).map(|k| format!(".org {0}\n.db 1, 2\n.org {1}\n.db 3\n", 4 * k, 4 * k + 1)).collect()),
        ("labels before their uses", 1000, |n| (0..n).map(|k| format!("l{}: cls\n", k)).collect::<String>() + &(0..n).map(|k| format!("jp l{}\n", (k * 7 + 3) % n)).collect::<String>()),
        ("labels after their uses", 1000, |n| (0..n).map(|k| format!("jp l{}\n", (k * 7 + 3) % n)).collect::<String>() + &(0..n).map(|k| format!("l{}: cls\n", k)).collect::<String>()),
        ("labels on one address", 20_000, |n| format!("{}cls\njp m{}\nld i, m0\n", (0..n + 1).map(|k| format!("m{}:\n", k)).collect::<String>(), n)),
        ("constants", 20_000, |n| format!("S: cls\n{}jp S\nld v2, c{}\n", (0..n + 1).map(|k| format!("c{}: .equ {}\n", k, k % 256)).collect::<String>(), n)),
        ("uses of one label", 2040, |n| format!("{}E: cls\n", "call E\n".repeat(n))),
        ("uses of one constant", 2040, |n| format!("K1: .equ $5A\n{}", "add v7, K1\n".repeat(n))),
        ("characters of a label", 70_000, |n| format!("cls\nq{0}: jp q{0}\nld i, q{0}\n", "r".repeat(n))),
        ("characters of an undefined label", 70_000, |n| format!("cls\nq{0}:\njp q{0}r\n", "r".repeat(n))),
        ("characters of a mnemonic", 70_000, |n| format!("cls\njp{} 5\n", "p".repeat(n))),
        ("leading zeros", 70_000, |n| format!("jp {0}291\n.db {0}7\n.db %{0}101\n", "0".repeat(n))),
        ("operands", 5_000, |n| format!("ret {}\n", vec!["v1"; n].join(", "))),
        ("constant arguments", 5_000, |n| format!("A: .equ {}\njp A\n", vec!["1"; n].join(", "))),
        ("origin arguments", 5_000, |n| format!(".org {}\ncls\n", vec!["1"; n].join(", "))),
        ("instructions before a wrong one", 2_040, |n| format!("{}foo v1\n", "cls\n".repeat(n))),
        ("instructions before a wrong value", 2_040, |n| format!("{}ld v1, 256\n", "ld v1, 255\n".repeat(n))),
        ("lines before a wrong character", 70_000, |n| format!("{} cls ?\n", "; c\n".repeat(n))),
        ("instructions before an undefined label", 2_040, |n| format!("A: jp A\n{}B1: jp nowhere\n", "ret\n".repeat(n))),
        ("lines before a redefinition", 2_040, |n| format!("A: jp A\n{} A: ret\n", "ret\n".repeat(n))),
        ("bytes before the end of memory", 4_100, |n| format!(".org $FFF\n.org {}\n.db \"{}\"\n", 4096usize.saturating_sub(n).min(4095), "z".repeat(n))),
        ("commas", 3_000, |n| format!(".db 1{}\ncls\n", ",".repeat(n))),
        ("colons", 3_000, |n| format!("A{}\njp A\n", ":".repeat(n))),
        ("dots", 3_000, |n| format!("{}db 1\n", ".".repeat(n))),
        ("unclosed string", 70_000, |n| format!("cls\n.db \"{}", "s".repeat(n))),
        ("sections between two colliding ones", 2_000, |n| format!(".org $FF0\n.db 1, 2\n{}.org $FF1\n.db 3\n", (0..n).map(|k| format!(".org {}\n.db {}\n", 2 * k, k % 256)).collect::<String>())),
        ("sections before two colliding ones", 2_000, |n| format!("{}.org $FF0\n.db 1, 2\n.org $FF1\n.db 3\n", (0..n).map(|k| format!(".org {}\n.db {}\n", 2 * k, k % 256)).collect::<String>())),
        ("bytes before an origin back to their start", 4_000, |n| format!(".org 16\n.db \"\"{}\n.org 16\nret\n", ", 1".repeat(n))),
        ("bytes before an origin just before their start", 4_000, |n| format!(".org 16\n.db \"\"{}\n.org 14\nE: ret\njp E\n", ", 1".repeat(n))),
        ("bytes before an origin at their end", 4_000, |n| format!("jp E\n.db \"\"{}\n.org {}\nE: ret\ncall E\n", ", 7".repeat(n), n + 2)),
        ("bytes before an origin inside them", 4_000, |n| format!("jp E\n.db \"\"{}\n.org {}\nE: ret\n", ", 7".repeat(n), n / 2 + 1)),
        ("bytes before an empty section in them", 4_000, |n| format!("jp E\n.db \"\"{}\n.org {}\nE: .org $FF0\nret\n", ", 7".repeat(n), n / 2 + 1)),
        ("bytes before a constant", 4_000, |n| format!("jp E\n.db \"\"{}\nK2: .equ {}\nE: jp K2\n", ", 7".repeat(n), n)),
        ("bytes before a label at the end", 4_090, |n| format!("ld i, E\n.db \"\"{}\nE:", ", 9".repeat(n))),
        ("strings with quotes", 1_300, |n| format!("jp E\n.db 1{}\nE: ret\n", ", \"\\\";\"".repeat(n))),
        ("empty strings", 20_000, |n| format!("jp E\n.db 1{}\nE: ret\n", ", \"\"".repeat(n))),
        ("unused labels before a use", 20_000, |n| format!("cls\n{}jp zz\n.org $123\nzz: ret\n", (0..n).map(|k| format!("u{}: ", k)).collect::<String>())),
        ("tabs and forms in a line", 70_000, |n| format!("cls{}; {}x\njp{}5\n", "\t".repeat(n), "\u{c}".repeat(n), "\u{3000}".repeat(n + 1))),
        ("one-byte sections in a row", 4_095, |n| (0..n).map(|k| format!(".org {}\n.db {}\n", k, k % 256)).collect()),
        ("zero bytes", 4_095, |n| format!(".db \"\"{}\nE: .org 0\n", ", 0".repeat(n))),
        ("instructions NOP", 2_047, |n| format!("{}.org $FFE\n.db 0\n", "nop\n".repeat(n))),
        ("digits of a number too large", 3_000, |n| format!("cls\njp 4096{}\n", "0".repeat(n))),
    ]
}

pub fn quantity_space(s: &Session, judge: Judge) {
    let dense = s.t(280, 1100);
    let mut cases: Vec<(usize, usize)> = Vec::new();
    let fam = families();
    for (f, (_, max, _)) in fam.iter().enumerate() {
        for n in quantities(dense.min(*max), *max) {
            cases.push((f, n));
        }
    }
    s.space(
        "quantities",
        &format!("{} elements of a source ({}...), each in every quantity up to {} and around powers of two and round numbers up to the largest that makes sense", fam.len(), fam[..6].iter().map(|f| f.0).collect::<Vec<_>>().join(", "), dense),
        cases.len() as u64,
        CLI,
        &|i| {
            let (f, n) = cases[i as usize];
            (fam[f].2)(n).into_bytes()
        },
        judge,
    );
}

pub const STRAY: [&str; 48] = [
    "\0", "\u{1}", "\u{4}", "\u{7}", "\u{8}", "\t", "\u{b}", "\u{c}", "\r", "\r\n", "\u{1a}", "\u{1b}", "\u{1c}", "\u{1f}", " ", "\u{7f}", "\u{80}", "\u{85}", "\u{a0}", "\u{ad}", "\u{e9}", "\u{130}", "\u{131}", "\u{17f}",
    "\u{301}", "\u{200b}", "\u{200d}", "\u{200e}", "\u{2028}", "\u{2029}", "\u{202e}", "\u{2060}", "\u{212a}", "\u{3000}", "\u{ff10}", "\u{ff21}", "\u{ff1a}", "\u{ff0c}", "\u{feff}", "\u{fffd}", "\u{ffff}", "\u{1f600}", "\\", "\n", "'", "`", "/", "\u{660}",
];

/// A stray character at every place of several programs.
pub fn stray_space(s: &Session, judge: Judge) {
    let hosts = ["cls\n", ".org $200\nL: jp L ; c\nld v1, 7\n", ".db 1, \"ab\", $F\n ret\n", "K1: .equ %1.1\n drw v2, vE, K1\n", "ld [i], v3\n;z\n", "\n .DB \"x\\\"y\"\nM1:\ncall M1", "jp v0, 5,\n\nskp Va\n"];
    let mut cases: Vec<(usize, usize)> = Vec::new();
    for (h, t) in hosts.iter().enumerate() {
        for p in 0..=t.len() {
            cases.push((h, p));
        }
    }
    let (n, m) = (cases.len() as u64, STRAY.len() as u64);
    s.space(
        "stray-characters",
        "each of 48 characters (control characters, byte order mark, blanks and look-alikes of other scripts) once and twice at every place of 7 programs, on the binary",
        n * m * 2,
        CLI,
        &|i| {
            let d = digits(i, &[2, m, n]);
            let (h, p) = cases[d[2]];
            format!("{}{}{}", &hosts[h][..p], STRAY[d[1]].repeat(d[0] + 1), &hosts[h][p..]).into_bytes()
        },
        judge,
    );
    s.space(
        "stray-only",
        "every sequence of up to 2 (thorough: 3) of the 48 characters alone, before, after and around an instruction",
        seqs(m, 0, s.t(2, 3)) * 4,
        inproc(40_000),
        &|i| {
            let t: String = seq(m, 0, i / 4).iter().map(|x| STRAY[*x]).collect();
            match i % 4 {
                0 => t,
                1 => format!("{}cls\n", t),
                2 => format!("cls\n{}", t),
                _ => format!("cls {} ret\n", t),
            }
            .into_bytes()
        },
        judge,
    );
}

/// Tokens and multi-byte characters across the boundaries at which input is usually cut.
pub fn boundary_space(s: &Session, judge: Judge) {
    let bounds = s.t(vec![256usize, 512, 1024, 2048, 4096, 8192, 16384, 32768, 65536, 131072], vec![16, 32, 64, 128, 256, 512, 1000, 1024, 2048, 4096, 8192, 10000, 16384, 32768, 65536, 131072, 262144, 524288, 1048576]);
    let mid = [
        "jp $ABC\n", "ld v1, 234\n", ".db \"\u{e9}\u{65e5}\u{1F600}\", 1\n", "Lbl: call Lbl\n", "; c\u{65e5}\u{e9} x\ncls\n", "ld [i], v5\r\ncls\r\n", ".db %1.1.1, #7F,\n", "K1: .equ 77\nadd v1, K1\n", "drw v1, v2, 9\n", ".db \"\\\"\\\\\"\n",
        "\u{e9}", "jp nowhere\n", ".db 300\n", "?\n",
    ];
    let pads = ["; pad\n", "\n", " ", ";\u{e9}\n"];
    let span = 20usize;
    let (nb, nm, np) = (bounds.len() as u64, mid.len() as u64, pads.len() as u64);
    s.space(
        "boundaries",
        "each of 14 statements (multi-byte characters, CRLF, escapes and errors among them) after padding of 4 kinds so that each of its bytes in turn falls on a boundary of 256 to 131072 bytes (thorough: 16 to 1 MiB)",
        nb * nm * np * span as u64,
        CLI,
        &|i| {
            let d = digits(i, &[nb, np, nm, span as u64]);
            let target = bounds[d[0]].saturating_sub(d[3]);
            let head = "S: jp S\n";
            let mut t = String::with_capacity(target + 64);
            t.push_str(if target > 16 { head } else { "" });
            let pad = pads[d[1]];
            while t.len() + pad.len() <= target {
                t.push_str(pad);
            }
            while t.len() < target {
                t.push(' ');
            }
            t.push_str(mid[d[2]]);
            t.push_str("\nret\n");
            t.into_bytes()
        },
        judge,
    );
}

pub const BROAD: [&str; 30] = [
    "cls\n", "jp Lab\n", "Lab:", "Lab: ", "\n", "; note\n", ".db 1\n", ".db \"\u{e9}\u{65e5}\", 2\n", ".db \"\"\n", ".org $200\n", ".org 0\n", ".org 3\n", ".org $FFD\n", "Con:", ".equ 7\n", ".equ $ABC\n", "ld v1, Con\n", "ld i, Con\n", "drw v1, v2, Con\n", "ret ", ", ", "v1 ", ".db \"l1\nl2\",\n",
    "LAB: ", "ld V2 , [I]\n", "call Lab ; c\n", "sne vF, 255\n", "5 ", "?\n", ".DB %1.,#f\n",
];

/// Sequences over a broad alphabet that mixes statements of every kind.
pub fn broad_space(s: &Session, judge: Judge) {
    let k = BROAD.len() as u64;
    s.space(
        "broad-sequences",
        "every sequence of up to 4 (thorough: 5) of 30 fragments of every kind: instructions, labels, constants, data, origins at both ends of memory, comments, line breaks, loose tokens",
        seqs(k, 0, s.t(4, 5)),
        inproc(60_000),
        &|i| seq(k, 0, i).iter().map(|x| BROAD[*x]).collect::<String>().into_bytes(),
        judge,
    );
    // Closed: names are defined whatever the sequence does, and collisions are kept apart.
    let c = [
        "cls\n", "jp Lab\n", "Lx#: ", ".db 1\n", ".db \"\u{e9}\u{65e5}\", 2\n", ".db \"\"\n", "; note\n", "ld i, Con\n", "add v3, Con\n", "Cx#: .equ #\n", ".org O#\n", "ret ; c\n", ".db \"l1\nl2\",\n", "\r\n", "call v\n", "LD V2 , [I]\n", "sne vF, 255 ", ".db %1.,$f\n", "drw v1, v2, Con\n", "v: \n",
    ];
    let kc = c.len() as u64;
    s.space(
        "broad-programs",
        "every sequence of up to 4 (thorough: 5) of 20 complete statements of every kind between a head that uses and a tail that defines their names (most are accepted)",
        seqs(kc, 0, s.t(4, 5)),
        inproc(60_000),
        &|i| {
            let mut t = String::from("jp Lab\n.org $100\n");
            let q = seq(kc, 0, i);
            for (p, x) in q.iter().enumerate() {
                t.push_str(&c[*x].replace("O#", &format!("${}00", [2, 7, 4, 3, 6][p])).replace('#', &(p + 1).to_string()).replace("v\n", "vv\n").replace("v: ", "vv: "));
            }
            t.push_str("\n.org $900\nLab: cls\nCon: .equ 9\n");
            if !q.contains(&19) {
                t.push_str("vv: ret\n");
            }
            t.into_bytes()
        },
        judge,
    );
}

/// Words of other assemblers and languages, of this one, and their neighbours.
pub const WORDS: &str = "mov move movi lda ldi ldx lds ldm load store sta st sti str push pop jmp jump jr jsr jz jnz jne jeq je bra br beq bne b bl bx goto call callr rcall ret rets rts rti return reti iret exit halt hlt stop wait sleep \
    key waitkey keyp nokey skpr skup skp sknp skip skeq skne skz snz sei sne se seq sge slt sgt add adc addi addc sub subb subn subi sbc rsb neg mul div mod and andi or ori orr xor xori eor not com cpl inc dec incr decr asl asr lsl lsr rol ror shl shr shiftl shiftr sla sra \
    cls clr clear clrscr draw drw drwl xdraw sprite spr rnd rand random bcd fx font hex ldf ldhf lf hf sys syscall scd scr scl scu scrl scrr high low hires lores extend audio pitch plane save restore saveregs deref trap trapret brk bkpt int swi nop noop pass data code text bss byte bytes word dword db dw dd dq ds dc dcb dcw dfb dfs fcb fdb fcc rmb resb resw \
    ascii asciz ascii0 asciiz string str0 zero fill space skipb block pad align even odd org origin orig base offset at section segment seg equ equal eq set define def const constant let assign macro endm endmacro rept endr repeat irp while endw if ifdef ifndef else elseif elsif endif end ends eof start entry main begin proc endp func include incbin import require use export extern global public local undef \
    option options list nolist title page name file line error warning message print assert cpu arch chip8 schip super xochip mode vip big little endian high8 low8 hi lo sizeof alias unalias unpack native loop again then delay timer buzzer sound dt st i k f b r pc sp ip v vx vy v0 va vf v10 vg r0 x y n nn nnn addr null none true false nil hf0 rpl ii vv v_ _v __ _ a hz h x0 o0 b0";

/// Lines that mean something elsewhere and, as a rule, nothing here.
pub const FOREIGN: [&str; 132] = [
    "// c", "/* c */", "/* c\n */ cls", "# c", "' c", "* c", "! c", "-- c", "(* c *)", "@ c", "| c", "rem c", "{ c }", "<!-- c -->", "\\ c", "jp L+1", "jp L + 1", "jp L-1", "jp 1+2", "jp 2*3", "jp 6/2", "jp (5)", "jp [5]", "jp {5}", "jp <5>", "jp -1", "jp +1", "jp ~1", "jp !1", "jp @L", "jp &L", "jp *L", "jp #L", "jp $L", "jp =5", "jp =L", "jp .L", "jp L:",
    "jp .", "jp $", "jp *", "jp @", "jp .+2", "jp $+2", "jp *+2", "jp 'a'", "jp 'a", "jp \"a\"", "jp 0x1F", "jp 0X1F", "jp 0b101", "jp 0o17", "jp 017", "jp 1Fh", "jp 0FFh", "jp 101b", "jp 17o", "jp 10d", "jp 1e3", "jp 1.5", "jp 1_000", "jp 1'000", "jp &1F", "jp &hF", "jp x'1F'", "jp h'1F", "jp 16#1F", "jp %1_0", "jp $1_0", "jp $-1", "jp -$1", "jp %2", "jp %", "jp #", "jp #$1F", "jp $#1F", "jp $$1", "jp %%1", "ld v1, #$1F",
    ".db 'a'", ".db 'a', 'b'", ".db \"a\" \"b\"", ".db \"a\"+1", ".db 1 2", ".db 1; 2", ".db 1 ,, 2", ".db [1]", ".db -1", ".db L", ".db \"a\"\"b\"", ".db \"\"\"\"", ".db 'abc'", ".db `a`", ".db <L", ".db >L", ".db 5 dup 0", ".db 5*0", ".db ?", ".db 1,2,", ".db ,1", ".db a", ".org L", ".org $+2", ".org = 5", ".org 5 + 5", ".org \"5\"", ".org 'a'", ".equ 5", "L .equ 5", "L = 5", "L := 5", "L equ 5", "L: equ 5", "L: = 5",
    "equ L 5", ".equ L, 5", ".equ L 5", "#define L 5", "org 5", "db 5", "db 1, 2", ". db 5", ".\ndb 5", "L :cls", "L\n: cls", "L, M: cls", "1: cls", "1: jp 1b", "L! cls", "@L cls", "[i]: cls", "cls: cls",
];

fn word_spaces(s: &Session, judge: Judge) {
    let mut words: Vec<String> = WORDS.split_whitespace().map(|w| w.to_string()).collect();
    for w in ["org", "db", "equ", "cls", "jp", "ld", "drw"] {
        for x in ["s", "0", "_", "x", "b", "w"] {
            words.push(format!("{}{}", w, x));
            words.push(format!("{}{}", x, w).trim_start_matches('0').to_string());
        }
    }
    words.sort();
    words.dedup();
    let roles = [
        "#", "# v1", "# v1, v2", "# v1, 5", "# 5", "# v1, v2, 3", "# i, v1", "# v1, [i]", "# L", "# i, L", "# v1, L", ".#", ".# 5", ".# 1, 2", ".# \"ab\"", ".# \"ab\", 5", ".# $FFF", "M: .# 7\njp M", "#: cls\njp #", "jp #", "ld #, v1", "ld v1, #", "add v1, #", "drw v1, #, 3", "# #", "#, #", ".# #", "cls #", "cls .#", ".db 1 #", ".db 1 .# 2",
    ];
    let (nw, nr) = (words.len() as u64, roles.len() as u64);
    s.space(
        "words",
        &format!("each of {} words (mnemonics, directives, registers and keywords of this and of other assemblers) in lower, upper and mixed case in each of {} roles (mnemonic, directive, label, operand) with L defined", nw, nr),
        nw * nr * 3,
        CLI,
        &|i| {
            let d = digits(i, &[nw, 3, nr]);
            let w = &words[d[0]];
            let w = match d[1] {
                0 => w.clone(),
                1 => w.to_uppercase(),
                _ => w.chars().enumerate().map(|(k, c)| if k % 2 == 0 { c.to_ascii_uppercase() } else { c }).collect(),
            };
            format!("L: cls\n{}\nret\n", roles[d[2]].replace('#', &w)).into_bytes()
        },
        judge,
    );
    let nf = FOREIGN.len() as u64;
    s.space(
        "foreign-lines",
        "each of 132 lines of other assemblers' syntax (comments, expressions, notations of numbers and characters, definitions) in 6 surroundings",
        nf * 6,
        CLI,
        &|i| {
            let f = FOREIGN[(i / 6) as usize];
            match i % 6 {
                0 => format!("{}\n", f),
                1 => f.to_string(),
                2 => format!("L: cls\n{}\nret\n", f),
                3 => format!("cls {} ret\n", f),
                4 => format!("cls ; {}\nret\n", f),
                _ => format!("  {} ; c\nL:\n", f),
            }
            .into_bytes()
        },
        judge,
    );
    let a = 95u64;
    let hosts = ["#", "jp #\n", ".db #\n", "cls #ret\n", "L: cls\njp L#\n"];
    let nh = hosts.len() as u64;
    s.space(
        "printable",
        "every string of up to 3 printable ASCII characters (blank included) as a source, an operand, a data item, between two instructions and after a label's name",
        seqs(a, 0, 3) * nh,
        inproc(60_000),
        &|i| {
            let t: String = seq(a, 0, i / nh).iter().map(|x| (32 + *x as u8) as char).collect();
            hosts[(i % nh) as usize].replace('#', &t).into_bytes()
        },
        judge,
    );
}

/// Every word of up to four letters as a mnemonic and as a directive.
pub fn letters_space(s: &Session, judge: Judge) {
    let roles = ["#\n", "# v1\n", "# v1, v2\n", "# v1, 5\n", "# 5\n", ".# 5\n", ".# \"a\"\n", ".#\n", "M: .# 7\njp M\n"];
    let nr = roles.len() as u64;
    let n = seqs(26, 1, s.t(4, 5));
    s.space(
        "letters",
        "every word of 1 to 4 (thorough: 5) letters as a mnemonic with 5 operand lists and as a directive with 4",
        n * nr,
        inproc(60_000),
        &|i| {
            let w: String = seq(26, 1, i / nr).iter().map(|x| (b'a' + *x as u8) as char).collect();
            roles[(i % nr) as usize].replace('#', &w).into_bytes()
        },
        judge,
    );
}

/// Text of wide characters, shifted byte by byte, in everything a diagnostic may quote.
pub fn quoted_space(s: &Session, judge: Judge) {
    let hosts = ["cls \"#\"\n", "jp \"#\"\n", "\"#\" cls\n", ".db 1 \"#\"\n", ".org \"#\"\n", "L: .equ \"#\"\n", ".db 300, \"#\"\n", ".foo \"#\"\n", ".db \"#\n", "cls ; #\nfoo\n", "foo ; #\n", "; #\n?\n", ".db \"#\" ?\n", "L: .db \"#\"\nL: cls\n", "#\n", "cls #\n", "jp L# : \n", ".org $FFF\n.db \"#\"\n", ".db \"#\"\njp nowhere\n"];
    let wide = ["\u{e9}", "\u{65e5}", "\u{1F600}", "a\u{301}", "\u{e9}\n", "\\\u{e9}", "a", "\\\""];
    let lens = [0usize, 1, 2, 7, 20, 40, 100, 300, 1000, 5000];
    let (nh, nw, nl) = (hosts.len() as u64, wide.len() as u64, lens.len() as u64);
    s.space(
        "quoted-text",
        "each of 8 wide, combining, escaped and plain characters 0 to 5000 times after 0 to 8 narrow ones, in 19 places of sources most of which are wrong there",
        nh * nw * nl * 9,
        CLI,
        &|i| {
            let d = digits(i, &[nl, 9, nw, nh]);
            let t = format!("{}{}", "a".repeat(d[1]), wide[d[2]].repeat(lens[d[0]]));
            hosts[d[3]].replace('#', &t).into_bytes()
        },
        judge,
    );
}

/// A source so far, of which some element occurs `n` times, and then one statement more, right or wrong.
fn context_space(s: &Session, judge: Judge) {
    let contexts: Vec<(&str, usize, fn(usize) -> String)> = vec![
        ("labels", 20_000, |n| (0..n).map(|k| format!("w{}:\n", k)).collect()),
        ("long labels", 2_000, |n| (0..n).map(|k| format!("w{}_{}:\n", "long".repeat(14), k)).collect()),
        ("labels with code", 900, |n| (0..n).map(|k| format!("w{}: cls\n", k)).collect()),
        ("constants", 2_000, |n| (0..n).map(|k| format!("w{}: .equ {}\n", k, k % 4096)).collect()),
        ("comments", 2_000, |n| "; c \u{e9}\n".repeat(n)),
        ("blank lines", 2_000, |n| "\n".repeat(n)),
        ("CRLF lines", 2_000, |n| "cls\r\n".repeat(n.min(1000)) + &"\r\n".repeat(n.saturating_sub(1000))),
        ("instructions on the line", 900, |n| "cls ; \n".repeat(n / 2) + &"ld v1, 5 ".repeat(n - n / 2)),
        ("data bytes", 2_000, |n| if n == 0 { String::new() } else { format!(".db {}\n", vec!["1"; n].join(", ")) }),
        ("data bytes on the line", 2_000, |n| if n == 0 { String::new() } else { format!(".db {} ", vec!["1"; n].join(", ")) }),
        ("a string", 2_000, |n| format!(".db \"{}\"\n", "z".repeat(n))),
        ("a string of lines on the line", 1_000, |n| format!(".db \"{}\" ", "z\n".repeat(n))),
        ("a string of wide characters on the line", 900, |n| format!(".db \"{}\" ", "\u{65e5}".repeat(n))),
        ("sections", 1_000, |n| (0..n).map(|k| format!(".org {}\n.db 1\n", 0x200 + 2 * k)).collect()),
        ("sections, descending", 1_000, |n| (0..n).map(|k| format!(".org {}\n.db 1\n", 0xE00 - 2 * k)).collect()),
        ("empty sections", 2_000, |n| (0..n).map(|k| format!(".org {}\n", (k * 16) % 4096)).collect::<String>() + ".org $300\n"),
        ("blanks", 2_000, |n| "\t".repeat(n)),
        ("uses of a later label", 900, |n| "jp Zed\n".repeat(n)),
        ("directives", 2_000, |n| ".db \"\"\n".repeat(n)),
        ("a comment", 2_000, |n| format!("cls ;{}\n", "-".repeat(n))),
        ("leading bytes to the end", 2_000, |n| format!(".org {}\n", 4095 - n)),
    ];
    let tails = [
        "", "cls", "cls\n", "jp Zed\n", "Zed: jp Zed\n", "Zed: Zed: cls\n", "w0: cls\n", "Zed: .equ 7\nld v1, Zed\n", "Zed: .equ 300\nld v1, Zed\n", ".equ 7\n", "Zed: .equ 4096\n", "Zed: .equ \"a\"\n", "Zed: .equ 1, 2\n", ".db 255\n", ".db 256\n", ".db \"\u{e9}\", 1, 4095\n", ".db\n", ".org\n", ".org $F00\nret\n",
        ".org 4096\n", ".org $200, 1\n", ".org \"a\"\n", ".foo 1\n", "foo\n", "foo v1, v2\n", "ld v1, 255\n", "ld v1, 256\n", "drw v1, v2, 16\n", "drw v1, v2, 15\n", "se v1, v2, v3\n", "cls v1\n", "ld v1, [i]\n", "ld [i], vF ; c\n", "jp v1, 5\n", "?\n", "\"s\"\n", ".db \"s\n", "jp $1234\n", "jp 5000\n", "jp %2\n", "ld v1,\n", "ld v1, ,\n", "ld v1 v2\n", ", cls\n", ": cls\n", ". db 1\n",
        "Zed: .db 1, 2\nld i, Zed\ncall Zed\n", ".org 0\n.db 9\n", ".org $200\n.db 9, 9, 9\n", "ld v1, w0\n", "call w1\n", "rnd v1, Zed\nZed: .equ $FF", "[i]\n", "[x]\n", "v1: cls\njp v1\n", "\u{e9}\n", "cls\r\nret\r\n", "; only\n",
        ".org $F00\nnop\n.org $F80\n.db 0\n", ".org $F00\n.db 0\n.org $E80\nnop\n", ".org $F00\n.db 255, 255\n.org $F02\n.db 0, 0, 0\n.org $F80\nret\n", ".org $F00\n.db \"\"\n.org $F80\nZed: .db 0\njp Zed\n", ".org $F00\n.db 1\n.org $F00\n.db 1\n", ".org $F00\n.db 1\n.org $E00\n.org $F01\n.db 2\n",
    ];
    let ns = [0usize, 1, 2, 3, 7, 16, 17, 31, 64, 100, 128, 200, 255, 256, 257, 301, 512, 600, 900, 1000, 1025, 2000, 5000, 20_000];
    let mut pre: Vec<(usize, usize)> = Vec::new();
    for (c, (_, max, _)) in contexts.iter().enumerate() {
        for n in ns.iter().filter(|n| **n <= *max) {
            pre.push((c, *n));
        }
    }
    let (np, nt) = (pre.len() as u64, tails.len() as u64);
    s.space(
        "contexts",
        &format!("each of {} further statements, right and wrong, after each of {} contexts in which an element occurs 0 to 20000 times", tails.len(), contexts.len()),
        np * nt,
        inproc(12_000),
        &|i| {
            let (c, n) = pre[(i / nt) as usize];
            format!("{}{}", (contexts[c].2)(n), tails[(i % nt) as usize]).into_bytes()
        },
        judge,
    );
    // The last element of a list of every length.
    let items = ["255", "256", "4095", "4096", "\"a\"", "\"\u{e9}\"", "\"\"", "%1.", "$1000", "#F", "L", "v1", "[i]", "?", "\"open", ".", ":", "", ",", "; c", "\"a\" 1", "\r", "1 cls"];
    let lists = [(".db ", "1"), (".db ", "\"x\""), (".db ", "\"\""), ("L: .equ ", "1"), ("L: .org ", "1"), ("L: .any ", "1"), ("L: cls ", "v1"), ("L: jp ", "1"), ("L: drw ", "L")];
    let mut cases: Vec<(usize, usize)> = Vec::new();
    for l in 0..lists.len() {
        for n in quantities(if l < 2 { s.t(280, 1100) } else { 20 }, if l < 2 { 4_100 } else { 70_000 }) {
            cases.push((l, n));
        }
    }
    let (nc, ni) = (cases.len() as u64, items.len() as u64);
    s.space(
        "list-ends",
        &format!("each of {} last elements, right and wrong, of lists of 9 kinds and every length up to 20 (data: 280) and around powers of two", items.len()),
        nc * ni,
        inproc(12_000),
        &|i| {
            let (l, n) = cases[(i / ni) as usize];
            format!("{}{}{}\nret\n", lists[l].0, format!("{}, ", lists[l].1).repeat(n), items[(i % ni) as usize]).into_bytes()
        },
        judge,
    );
}

/// Comments of every length that begin or end in each character.
fn comment_space(s: &Session, judge: Judge) {
    let mut ends: Vec<String> = (32u8..127).map(|c| (c as char).to_string()).collect();
    ends.extend(["\t", "\r", "\u{b}", "\u{c}", "\u{85}", "\u{2028}", "\u{e9}", "\u{65e5}", "\u{1F600}", "\0", "\u{1a}", "\u{feff}", "\\\\", "*/", "\\n", "...", "\"\"", "\\\r"].iter().map(|x| x.to_string()));
    let lens: Vec<usize> = (0..=s.t(135, 300)).chain([254, 255, 256, 257, 511, 512, 1023, 1024, 4095, 4096]).collect();
    let (ne, nl) = (ends.len() as u64, lens.len() as u64);
    s.space(
        "comments",
        &format!("comments of every length up to 135 and around powers of two up to 4096, of dashes, blanks, letters or wide characters, that begin or end in each of {} characters or hold it before more text, between a label and its constant", ends.len()),
        ne * nl * 12,
        inproc(20_000),
        &|i| {
            let d = digits(i, &[nl, 3, 4, ne]);
            let body = ["-", " ", "x", "\u{e9}"][d[2]].repeat(lens[d[0]]);
            let c = match d[1] {
                0 => format!("{}{}", body, ends[d[3]]),
                1 => format!("{}{}", ends[d[3]], body),
                _ => format!("{}{}ret .db 3", body, ends[d[3]]),
            };
            format!("cls ;{}\nK1: ;{}\n.equ 7\nld v1, K1\njp 5 ;{}", c, c, c).into_bytes()
        },
        judge,
    );
    // Wide characters that fall on every byte boundary of long texts.
    let sizes = s.t(vec![250usize, 256, 1000, 1024, 4096, 8192, 10_000, 16_384, 32_768, 65_536, 131_072], vec![250, 256, 1000, 1024, 4096, 8192, 10_000, 16_384, 32_768, 65_536, 131_072, 262_144, 1_048_576]);
    let hosts = ["cls ;#\nret\n", ";#", "cls ;#\n?\n", ".db \"#\nret\n", ".db \"#\"\n", "cls #\n", "L#: cls\n", "jp ;#\n", "ret ;#\njp nowhere ;#\n"];
    let wide = ["\u{e9}", "\u{65e5}", "\u{1F600}"];
    let (ns, nh) = (sizes.len() as u64, hosts.len() as u64);
    s.space(
        "long-wide-text",
        "long runs of characters of 2, 3 and 4 bytes after 0 to 3 narrow ones, just longer than 250 to 131072 bytes (thorough: 1 MiB), in comments, strings and wrong places",
        ns * nh * 3 * 4,
        CLI,
        &|i| {
            let d = digits(i, &[4, 3, ns, nh]);
            let w = wide[d[1]];
            let t = format!("{}{}", "a".repeat(d[0]), w.repeat(sizes[d[2]] / w.len() + 3));
            hosts[d[3]].replace('#', &t).into_bytes()
        },
        judge,
    );
}

/// Elements whose bytes are all zero or all ones, among origins: contents must not matter to placement.
fn content_space(s: &Session, judge: Judge) {
    let a = [
        ".db 0\n", "nop\n", ".db 0, 0\n", ".db 255\n", ".db \"\0\"\n", ".db \"\"\n", ".db \"\", \"\"\n", ".db $FF, $FF\n", ".org 0\n", ".org 1\n", ".org $100\n", ".org $800\n", ".org $FFE\n", ".org $FFF\n", "jp 0\n", "ld vf, 255\n", "Z: jp Z\n",
    ];
    let k = a.len() as u64;
    s.space(
        "contents",
        "every sequence of up to 4 (thorough: 5) of 17 elements: bytes of zero and of all ones, no bytes, instructions of such words, origins at both ends of memory, a label",
        seqs(k, 0, s.t(4, 5)),
        inproc(3_000),
        &|i| seq(k, 0, i).iter().map(|x| a[*x]).collect::<String>().into_bytes(),
        judge,
    );
    let items = ["0", "255", "256", "$100", "257", "300", "4095", "$FFF", "%100000000", "1024", "\"x\"", "\"\""];
    let m = items.len() as u64;
    s.space(
        "wide-items",
        "every list of up to 4 (thorough: 5) of 12 data items of which several are too large, alone and after an instruction and a label",
        seqs(m, 1, s.t(4, 5)) * 2,
        inproc(3_000),
        &|i| {
            let list: Vec<&str> = seq(m, 1, i / 2).iter().map(|x| items[*x]).collect();
            format!("{}.db {}\ncls\n", if i % 2 == 0 { "" } else { "cls\nL1: " }, list.join(", ")).into_bytes()
        },
        judge,
    );
}

/// What files of other kinds begin with, or tools put into them.
pub const HEADS: [&str; 44] = [
    "#!/usr/bin/env c8s\n", "#!c8s\n", "#! c8s -o -", "#!\n", "\u{feff}", "\u{feff};", "\u{fffe}", "// source\n", "/* source */\n", "/*\n", "# source\n", "#line 1 \"a\"\n", "#include \"a\"\n", "#pragma once\n", "#1 \"a\"\n", "%include \"a\"\n", "%YAML\n", "<?xml?>\n", "<html>\n", "---\n", "===\n", "* source\n", "' source\n", "REM source\n",
    "-- source\n", "! source\n", "@ source\n", "| source\n", "\\ source\n", "( source )\n", "{ source }\n", "[source]\n", "\"\"\"source\"\"\"\n", "\u{1a}", "\0", "\u{c}", "\u{1b}[0m", ":00000001FF\n", ";;; -*- mode: asm -*-\n", "; vim: set ft=asm:\n", "coding: latin-1\n", "\u{7f}ELF", "MZ", "0:\n",
];

fn head_space(s: &Session, judge: Judge) {
    let bodies = ["", "cls\n", "cls", "L: jp L\n.db \"a\"\n", "\njp 5\n", "\r\nret\r\n", "?\n", ".org $200\nret\n", "foo\n"];
    let (nh, nb) = (HEADS.len() as u64, bodies.len() as u64);
    s.space(
        "heads-and-tails",
        "each of 44 first lines, marks and remarks of other kinds of file before, behind, and both before and behind each of 9 sources, and after a blank line, on the binary",
        nh * nb * 4,
        CLI,
        &|i| {
            let d = digits(i, &[4, nb, nh]);
            let (h, b) = (HEADS[d[2]], bodies[d[1]]);
            match d[0] {
                0 => format!("{}{}", h, b),
                1 => format!("{}{}", b, h),
                2 => format!("{}{}{}", h, b, h),
                _ => format!("\n{}{}", h, b),
            }
            .into_bytes()
        },
        judge,
    );
}

/// Short texts of printable characters, and letters with marks, inside strings and comments.
fn inner_text_space(s: &Session, judge: Judge) {
    let a = 95u64;
    let hosts = ["jp E\n.db \"#\"\nE: cls\n", "cls ;#\nret\n"];
    s.space(
        "inner-text",
        "every text of up to 3 printable ASCII characters in a string and in a comment",
        seqs(a, 0, 3) * 2,
        inproc(20_000),
        &|i| {
            let t: String = seq(a, 0, i / 2).iter().map(|x| (32 + *x as u8) as char).collect();
            hosts[(i % 2) as usize].replace('#', &t).into_bytes()
        },
        judge,
    );
    let mut units: Vec<char> = (0x300..0x370u32).filter_map(char::from_u32).collect();
    units.extend(('A'..='Z').chain('a'..='z'));
    units.extend(STRAY.iter().filter(|x| x.chars().count() == 1).map(|x| x.chars().next().unwrap()));
    units.extend("\u{df}\u{e4}\u{1c4}\u{3b1}\u{5d0}\u{627}\u{915}\u{94d}\u{e33}\u{1100}\u{1161}\u{11a8}\u{ac00}\u{30ab}\u{3099}\u{fb01}\u{fe0f}\u{1f1e6}\u{1f3fb}\u{10000}\u{10ffff}\u{e000}0%&".chars());
    let u = units.len() as u64;
    s.space(
        "inner-pairs",
        &format!("every ordered pair of {} characters (letters, combining marks, syllables, joiners, controls) in a string and in a comment", u),
        u * u * 2,
        inproc(8_000),
        &|i| {
            let d = digits(i, &[2, u, u]);
            hosts[d[0]].replace('#', &format!("{}{}", units[d[1]], units[d[2]])).into_bytes()
        },
        judge,
    );
}

/// Names of every shape, defined once, twice, not at all, beside names that resemble them.
fn name_space(s: &Session, judge: Judge) {
    let chars = ['a', 'B', '_', 'f', 'v', '1', '0'];
    let mut names: Vec<String> = Vec::new();
    for i in 0..seqs(7, 1, 4) {
        let q = seq(7, 1, i);
        if q[0] < 5 {
            names.push(q.iter().map(|x| chars[*x]).collect());
        }
    }
    for w in ["main", "start", "loop", "end", "Main", "START", "__start", "_start", "a_b", "L1", "local_1", "data", "x__y", "x_", "_1", "__", "temp", "tmp0", "if0", "I", "i0", "dt", "DT1", "st_", "K", "k1", "pc", "sp", "org", "db", "equ", "jp", "ld"] {
        names.push(w.to_string());
    }
    let programs: [&str; 18] = [
        "#: cls\njp #\n", "jp #\n#: cls\n", "#: #: cls\n", "#:\n#:\ncls\n", "#: cls\n#: ret\n", "#: .equ 2\n#: .equ 2\n", "#: .equ 2\n#: .equ 3\n", "cls\n#: .equ 2\n#: ret\n", "cls\n#: ret\n#: .equ 2\n", ".org 4\n#: cls\n.org 4\n#: .db \"\"\n", "jp #\n", "#x: cls\njp #\n", "x#: cls\njp #\n", "#: cls\njp #_\n",
        "#: cls\njp _#\n", "cls\n#_: ret\n_#: cls\n#: call #\njp #_\nld i, _#\n", "cls\n#: .equ 7\nld v1, #\n.org $20\n#0: jp #0\n", "#: .db 1\n#: .db 1\n",
    ];
    let (nn, np) = (names.len() as u64, programs.len() as u64);
    s.space(
        "name-shapes",
        &format!("each of {} names (every identifier of up to 4 of 7 characters, and usual ones) in {} programs that define, repeat, miss and almost miss it", nn, np),
        nn * np,
        inproc(12_000),
        &|i| programs[(i % np) as usize].replace('#', &names[(i / np) as usize]).into_bytes(),
        judge,
    );
    // Very many names at once: no two of them may be taken for one.
    let first: Vec<char> = ('a'..='z').chain('A'..='Z').chain(['_']).collect();
    let next: Vec<char> = first.iter().cloned().chain('0'..='9').collect();
    let mut short: Vec<String> = first.iter().map(|c| c.to_string()).collect();
    for a in &first {
        for b in &next {
            short.push(format!("{}{}", a, b));
        }
    }
    let special = |n: &str| {
        let l = n.to_ascii_lowercase();
        matches!(l.as_str(), "i" | "k" | "b" | "f" | "dt" | "st") || (l.len() == 2 && l.starts_with('v') && l.as_bytes()[1].is_ascii_hexdigit())
    };
    let two = short.len();
    for a in &first {
        for b in &next {
            for c in &next {
                short.push(format!("{}{}{}", a, b, c));
            }
        }
    }
    let window = 1_500usize;
    let n3 = ((short.len() + window - 1) / window) as u64;
    let n2 = ((two + window - 1) / window) as u64;
    s.space(
        "all-short-names",
        "all 53 + 53 x 63 names of one and two characters as constants in one source and all 212 000 of up to three in one of every eighth windows (thorough: all), every one used in some source",
        n2 + s.t(n3 / 8 + 1, n3),
        CLI,
        &|i| {
            let (all, w) = if i < n2 { (&short[..two], i as usize) } else { (&short[..], (i - n2) as usize * s.t(8, 1)) };
            let mut t = String::new();
            for (k, n) in all.iter().enumerate() {
                t.push_str(&format!("{}: .equ {}\n", n, (k * 7 + k / 4096) % 4096));
            }
            for n in all.iter().skip(w * window).take(window).filter(|n| !special(n)) {
                t.push_str(&format!("jp {}\n", n));
            }
            t.into_bytes()
        },
        judge,
    );
}

/// Sections of equal, zero and other contents that meet in every way.
fn meeting_space(s: &Session, judge: Judge) {
    let lens = [1u64, 2, 9, 16, 17, 40];
    let fills: [fn(u64) -> u64; 5] = [|_| 0, |_| 255, |_| 7, |k| k % 256, |k| (k + 1) * 37 % 256];
    let base = 0x100u64;
    let text = |at: u64, len: u64, f: usize| format!(".org {}\n.db {}\n", at, (0..len).map(|k| fills[f](k).to_string()).collect::<Vec<_>>().join(", "));
    s.space(
        "meetings",
        "two sections of 6 lengths and 5 fills each (zeros, ones, constants, ramps) that are apart, adjacent, overlap by one byte at either end, start or end together or lie inside one another, in both orders, alone and with a third between",
        30 * 30 * 9 * 2 * 2,
        inproc(8_000),
        &|i| {
            let d = digits(i, &[2, 2, 9, 6, 5, 6, 5]);
            let (la, lb) = (lens[d[3]], lens[d[5]]);
            let at = match d[2] {
                0 => base + la,
                1 => base + la - 1,
                2 => base,
                3 => base - lb,
                4 => base + 1 - lb,
                5 => base + la - lb.min(la),
                6 => base + la / 2,
                7 => base + la + 40,
                _ => base + la + 1,
            };
            let (x, y) = (text(base, la, d[4]), text(at, lb, d[6]));
            let third = if d[1] == 1 { ".org $800\n.db 1, 2\n" } else { "" };
            if d[0] == 0 { format!("{}{}{}", x, third, y) } else { format!("{}{}{}", y, third, x) }.into_bytes()
        },
        judge,
    );
}

/// Sections that follow one another closely, of every pair of lengths.
fn adjacent_space(s: &Session, judge: Judge) {
    let text = |at: u64, len: u64| format!(".org {}\n.db {}\n", at, (0..len).map(|k| ((at + k) % 256).to_string()).collect::<Vec<_>>().join(", "));
    s.space(
        "adjacent-sections",
        "two sections of every pair of lengths 1..40, the second at the end of the first, one byte behind or ending where the first starts, alone, before and after another section",
        40 * 40 * 3 * 4,
        inproc(8_000),
        &|i| {
            let d = digits(i, &[4, 3, 40, 40]);
            let (la, lb) = (d[2] as u64 + 1, d[3] as u64 + 1);
            let at = [0x180 + la, 0x181 + la, 0x180 - lb][d[1]];
            let other = "L: .org $700\njp L\n";
            format!("{}{}{}{}", if d[0] & 1 == 1 { other } else { "" }, text(0x180, la), text(at, lb), if d[0] & 2 == 2 { other.replace('L', "M").replace("$7", "$8") } else { String::new() }).into_bytes()
        },
        judge,
    );
}

/// All of them.
/// The programs of the quantity space with their case and layout changed throughout (outside strings and comments).
pub fn rewritten_space(s: &Session, judge: Judge) {
    let fam = families();
    let mut cases: Vec<(usize, usize)> = Vec::new();
    for (f, (_, max, _)) in fam.iter().enumerate() {
        for n in s.t(vec![0usize, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 15, 16, 17, 20, 24, 31, 32, 33, 50, 64, 65, 100, 129, 256, 257, 300, 600, 1024], (0..=600).chain([1023, 1024, 1025, 2000, 4000, 4096]).collect()) {
            if n <= *max {
                cases.push((f, n));
            }
        }
    }
    let rewrite = |t: &str, how: usize| -> String {
        let mut o = String::with_capacity(t.len() * 2);
        let (mut string, mut comment, mut escaped, mut k) = (false, false, false, 0usize);
        for c in t.chars() {
            let inside = string || comment;
            if string {
                if escaped {
                    escaped = false;
                } else if c == '\\' {
                    escaped = true;
                } else if c == '"' {
                    string = false;
                }
            } else if comment {
                comment = c != '\n';
            } else if c == '"' {
                string = true;
            } else if c == ';' {
                comment = true;
            }
            if inside && !(c == '\n' && !comment && !string) {
                o.push(c);
                continue;
            }
            k += 1;
            match how {
                0 => o.push(c.to_ascii_uppercase()),
                1 => o.push(if k % 2 == 0 { c.to_ascii_uppercase() } else { c }),
                2 if c == '\n' => o.push_str("\r\n"),
                3 if c == ' ' => o.push_str("\t \t"),
                3 if c == ',' => o.push_str(" ,\t"),
                3 if c == '\n' => o.push_str(" ; n\n\n"),
                4 if c == '\n' => o.push_str("\t\t;.DB 9, 9\r\n\t;\r\n \t"),
                _ => o.push(c),
            }
        }
        o
    };
    s.space("quantities-rewritten", "the programs of the quantity space in up to 32 sizes, in capitals, in mixed case, with CR LF line ends, with wide gaps and comments, and with comments and blanks around every line end", cases.len() as u64 * 5, inproc(4_000), &|i| {
        let (f, n) = cases[(i / 5) as usize];
        rewrite(&(fam[f].2)(n), (i % 5) as usize).into_bytes()
    }, judge);
}

/// Runs of one character, whatever it is, at every kind of place.
pub fn run_space(s: &Session, judge: Judge) {
    let mut chars: Vec<char> = (0u8..128).map(|b| b as char).collect();
    chars.extend("\u{80}\u{85}\u{a0}\u{e9}\u{2028}\u{3000}\u{feff}\u{65e5}\u{1d11e}\u{301}".chars());
    let lens: Vec<usize> = s.t(vec![1, 2, 3, 4, 5, 8, 12, 13, 16, 31, 32, 33, 63, 64, 65, 127, 128, 129, 255, 256, 257, 301, 512, 1024, 1025, 4097], (1..=1100).chain([2047, 2048, 4095, 4096, 4097, 8193, 65535, 65536, 65537]).collect());
    let place = ["@", "cls\n@", " @\ncls\n", "@: cls\njp @\n", "ld v1, @\n", "ld v1, a@\na@: .equ 5\n", ".db \"@\"\nret\n", "; @\nret\n", ".@ 5\n", ".db $@, %@, 1@\n", ".db \"a\\@\", 5\n"];
    let (kc, kl, kp) = (chars.len() as u64, lens.len() as u64, place.len() as u64);
    s.space("runs", "every ASCII character and 10 others, repeated 1 to 4097 times (26 lengths; thorough: every length to 1100 and around powers of two to 65,537), at 11 places", kc * kl * kp, inproc(3_000), &|i| {
        let d = digits(i, &[kp, kl, kc]);
        place[d[0]].replace('@', &chars[d[2]].to_string().repeat(lens[d[1]])).into_bytes()
    }, judge);
}

/// Operand lists of every length of one operand, and of one behind others.
pub fn operand_count_space(s: &Session, judge: Judge) {
    let ops = ["v0", "vF", "i", "[i]", "dt", "st", "k", "f", "b", "0", "5", "$FFF", "L", "nowhere"];
    let mns = ["cls", "jp", "call", "se", "ld", "add", "drw", "rnd", "shl", "skp", "sub", "nop", "trap", "foo", "L"];
    let most = s.t(40u64, 200);
    let (ko, km) = (ops.len() as u64, mns.len() as u64);
    s.space("operand-counts", "15 mnemonics (and names that are none) with 0 to 40 (thorough: 200) times the same of 14 operands, alone or behind one of 4 others, with and without a comma at the end", km * ko * (most + 1) * 5 * 2, inproc(3_000), &|i| {
        let d = digits(i, &[2, 5, ko, km, most + 1]);
        let mut v = vec![ops[d[2]]; d[4]];
        if d[1] > 0 {
            v.insert(0, ["v1", "i", "v0", "5"][d[1] - 1]);
        }
        format!("L: .equ 9\n{} {}{}\nret\n", mns[d[3]], v.join(", "), if d[0] == 1 && !v.is_empty() { "," } else { "" }).into_bytes()
    }, judge);
}

pub fn battery(s: &Session, judge: Judge) {
    adjacent_space(s, judge);
    head_space(s, judge);
    inner_text_space(s, judge);
    name_space(s, judge);
    meeting_space(s, judge);
    content_space(s, judge);
    quantity_space(s, judge);
    rewritten_space(s, judge);
    run_space(s, judge);
    operand_count_space(s, judge);
    stray_space(s, judge);
    boundary_space(s, judge);
    broad_space(s, judge);
    word_spaces(s, judge);
    quoted_space(s, judge);
    context_space(s, judge);
    comment_space(s, judge);
}
