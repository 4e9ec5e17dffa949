//! The spaces explored for the language-level properties.

use crate::engine::*;
use crate::judge;
use crate::model::{forms, mnemonics, Form, Slot};

pub const CLI: Via = Via::Cli;

pub fn inproc(cli_n: u64) -> Via {
    Via::Inproc { cli_n }
}

// ---------------------------------------------------------------- C01

/// Every (form, x, y, value) with legal operands.
fn instances() -> Vec<(usize, u16, u16, u16)> {
    let mut v = Vec::new();
    for (i, f) in forms().iter().enumerate() {
        let xs = if f.has(Slot::X) { 16 } else { 1 };
        let ys = if f.has(Slot::Y) { 16 } else { 1 };
        let vs = f.value_limit().map(|l| l + 1).unwrap_or(1);
        for x in 0..xs {
            for y in 0..ys {
                for val in 0..vs {
                    v.push((i, x, y, val));
                }
            }
        }
    }
    v
}

const NOTATIONS: u64 = 7;

fn notation(k: usize, f: &Form, v: u16) -> String {
    let bits = match f.value_limit() {
        Some(0xF) => 4,
        Some(0xFF) => 8,
        _ => 12,
    };
    match k {
        0 => format!("{}", v),
        1 => format!("${:X}", v),
        2 => format!("#{:x}", v),
        3 => format!("${:0w$x}", v, w = bits / 4),
        4 => format!("%{:b}", v),
        5 => format!("%{:0w$b}", v, w = bits).replace('0', "."),
        _ => format!("L{}", v),
    }
}

fn instance_text(inst: (usize, u16, u16, u16), note: usize) -> String {
    let f = &forms()[inst.0];
    let reg = |n: u16| if (n + note as u16) % 2 == 0 { format!("v{:x}", n) } else { format!("V{:X}", n) };
    let mn = if note % 2 == 0 { f.mnemonic.clone() } else { f.mnemonic.to_lowercase() };
    let t = f.text(&reg(inst.1), &reg(inst.2), &notation(note, f, inst.3));
    match t.split_once(' ') {
        Some((_, r)) => format!("{} {}", mn, r),
        None => mn,
    }
}

pub fn c01(s: &Session) {
    s.assume("the documented instruction set is the README table plus NOP = 0000; shifts encode their unused source register as 0");
    let all = instances();
    let n = all.len() as u64;
    let batch = 256u64;
    let batches = n.div_ceil(batch);
    s.space(
        "operands",
        "every form x every register x every legal value x 7 notations (decimal, $, #, padded $, %, %. , constant label), 256 instructions per program",
        batches * NOTATIONS,
        CLI,
        &|i| {
            let d = digits(i, &[NOTATIONS, batches]);
            let mut t = String::new();
            let a = d[1] as u64 * batch;
            let part = &all[a as usize..((a + batch).min(n)) as usize];
            if d[0] == 6 {
                let mut vals: Vec<u16> = part.iter().filter(|x| forms()[x.0].value_limit().is_some()).map(|x| x.3).collect();
                vals.sort();
                vals.dedup();
                for v in vals {
                    t.push_str(&format!("L{}: .equ {}\n", v, v));
                }
            }
            t.push_str(".org $200\n");
            for x in part {
                t.push_str(&instance_text(*x, d[0]));
                t.push('\n');
            }
            t.into_bytes()
        },
        &judge::full,
    );
    let places = [
        ".db 1\n@\n", ".db 1\n.org 301\n.db 2\n@\n.db 3\n", ".org 7\n@\n", ".db 1\n.org 77\n@\n.org 99\n@\n", "\n\n; x\nL: @\n", "K: .equ 5\n@\n@\n", ".db \"\u{e9}bc\"\n.org $FFB\n.db 9\n@\n", "A:\nB:\n.org $200\nC: @ ; y\nD: @\n",
        "ret\ncls\n@\nret\n", ".db 1\n.org 40\n.db 1\n.org 50\n.db 1\n.org 61\n.db 1\n.org 71\n@\n", ".db 1\n.org 9\n@\n.db 1\n@\n.db 1,2\n@\n", "\t@\r\n.org 4\r\n\t@",
        ".db 1\n.org 300\n.db 2\n@\n", ".db 1\n.org 300\n@\n@\n", ".db 1\n.org 301\n.db 2, 3\n@\n", ".db 1, 2\n@\n", ".db 1\n.org 100\n.db 2, 3, 4\n@\n@\n.db 5\n@\n", ".org 300\n.db 1\n@\n",
    ];
    let np = places.len() as u64;
    s.space(
        "single-in-place",
        "each (form, registers, value) at 18 places in a program: odd addresses, later sections, the end of memory, between other statements, repeated",
        n * np,
        inproc(20_000),
        &|i| places[(i % np) as usize].replace('@', &instance_text(all[(i / np) as usize], 1 + (i as usize / 7) % 2)).into_bytes(),
        &judge::full,
    );
    s.space(
        "single",
        "each (form, registers, value, notation) as a program of its own",
        n * NOTATIONS,
        inproc(60_000),
        &|i| {
            let d = digits(i, &[NOTATIONS, n]);
            let x = all[d[1]];
            let mut t = String::new();
            if d[0] == 6 {
                t.push_str(&format!("L{}: .equ {}\n", x.3, x.3));
            }
            t.push_str(&instance_text(x, d[0]));
            t.push('\n');
            t.into_bytes()
        },
        &judge::full,
    );
    // Letter case: every pattern of the mnemonic x register spelling patterns.
    let mut cases: Vec<String> = Vec::new();
    for f in forms() {
        let l = f.mnemonic.len();
        for m in 0..(1u32 << l) {
            let mn: String = f.mnemonic.chars().enumerate().map(|(k, c)| if m >> k & 1 == 1 { c.to_ascii_lowercase() } else { c }).collect();
            for r in 0..16u32 {
                let rg = |n: u16, b: u32| {
                    let p = if r >> b & 1 == 1 { 'v' } else { 'V' };
                    if r >> (b + 1) & 1 == 1 {
                        format!("{}{:x}", p, n)
                    } else {
                        format!("{}{:X}", p, n)
                    }
                };
                let t = f.text(&rg(0xA, 0), &rg(0xE, 2), "5");
                let rest = t.split_once(' ').map(|(_, x)| x.to_string()).unwrap_or_default();
                // Special registers in the four patterns of their first two letters.
                let rest: Vec<String> = rest
                    .split(", ")
                    .map(|o| {
                        if ["I", "[I]", "DT", "ST", "K", "F", "B", "V0"].contains(&o) {
                            let mut k = 0;
                            o.chars()
                                .map(|c| {
                                    if c.is_ascii_alphabetic() {
                                        k += 1;
                                        if r >> (k - 1) & 1 == 1 {
                                            return c.to_ascii_lowercase();
                                        }
                                    }
                                    c
                                })
                                .collect()
                        } else {
                            o.to_string()
                        }
                    })
                    .collect();
                let line = format!("{} {}", mn, rest.join(", "));
                if cases.last() != Some(&line) {
                    cases.push(line);
                }
            }
        }
    }
    let per = 64;
    s.space(
        "letter-case",
        "every letter-case pattern of every mnemonic x 16 case patterns of its registers, 64 instructions per program",
        (cases.len() as u64).div_ceil(per),
        CLI,
        &|i| {
            let a = (i * per) as usize;
            let mut t = cases[a..(a + per as usize).min(cases.len())].join("\n");
            t.push('\n');
            t.into_bytes()
        },
        &judge::full,
    );
    let fs = forms().len() as u64;
    let sample = |k: usize, salt: usize| forms()[k].text(&format!("V{:X}", (salt * 7 + 3) % 16), &format!("V{:X}", (salt * 5 + 9) % 16), &format!("{}", (salt * 3 + 6) % 16));
    s.space(
        "address-ladder",
        "each form at every address of one parity, as one program of up to 2047 one-instruction sections",
        fs * 2,
        CLI,
        &|i| {
            let d = digits(i, &[fs, 2]);
            let mut t = String::new();
            let mut a = d[1];
            while a + 2 <= 0xFFF {
                t.push_str(&format!(".org {}\n{}\n", a, sample(d[0], a)));
                a += 2;
            }
            t.into_bytes()
        },
        &judge::full,
    );
    s.space(
        "address-fill",
        "each form repeated to fill memory contiguously from each of 4 start addresses",
        fs * 4,
        CLI,
        &|i| {
            let d = digits(i, &[fs, 4]);
            let start = [0, 1, 0x200, 0x7FF][d[1]];
            let mut t = format!(".org {}\n", start);
            let mut a = start;
            while a + 2 <= 0xFFF {
                t.push_str(&sample(d[0], a));
                t.push('\n');
                a += 2;
            }
            t.into_bytes()
        },
        &judge::full,
    );
    s.space(
        "neighbours",
        "every ordered pair (quick) or triple (thorough) of forms in one program",
        s.t(fs * fs, fs * fs * fs),
        s.t(CLI, inproc(60_000)),
        &|i| {
            let r: Vec<u64> = vec![fs; s.t(2, 3)];
            digits(i, &r).iter().enumerate().map(|(p, k)| sample(*k, p + k) + "\n").collect::<String>().into_bytes()
        },
        &judge::full,
    );
    // Neighbours that have operands in common, as an optimiser or a cache might look for.
    let mut instr: Vec<String> = Vec::new();
    let mut few: Vec<String> = Vec::new();
    for f in forms() {
        for (x, y) in [("v0", "v0"), ("v1", "v0"), ("v0", "v1"), ("v1", "v1")] {
            for v in ["0", "1", "15", "255", "$FFF", "aa", "bb"] {
                if f.value_limit().map_or(true, |l| v.len() < 4 && v.parse().unwrap_or(0u16) <= l || l == 0xFFF) {
                    instr.push(f.text(x, y, v));
                }
            }
        }
        for v in ["0", "aa"] {
            few.push(f.text("v0", "v1", v));
        }
        few.push(f.text("v1", "v0", "1"));
    }
    for l in [&mut instr, &mut few] {
        l.sort();
        l.dedup();
    }
    let (ni, nf) = (instr.len() as u64, few.len() as u64);
    let around = |body: &[&str]| format!("aa: .equ 0\nbb: .equ 6\n{}\n", body.join("\n")).into_bytes();
    s.space(
        "related-pairs",
        &format!("every ordered pair of {} instructions (every form, two registers in every place, the extreme values of its field, two labels), in upper and in lower case", ni),
        ni * ni * 2,
        inproc(20_000),
        &|i| {
            let d = digits(i, &[2, ni, ni]);
            if d[0] == 0 { around(&[&instr[d[2]], &instr[d[1]]]) } else { around(&[&instr[d[2]].to_lowercase(), &instr[d[1]].to_lowercase()]) }
        },
        &judge::full,
    );
    s.space(
        "related-triples",
        &format!("every ordered triple of {} instructions (every form with the same two registers, zero, one or a label)", nf),
        nf * nf * nf,
        inproc(20_000),
        &|i| {
            let d = digits(i, &[nf, nf, nf]);
            around(&[&few[d[2]], &few[d[1]], &few[d[0]]])
        },
        &judge::full,
    );
    // Address-valued labels of every value.
    let vf: Vec<&Form> = forms().iter().filter(|f| f.value_limit().is_some()).collect();
    s.space(
        "address-labels",
        "every value form with an address label of every legal value, defined before or after the use",
        vf.len() as u64 * 4096 * 2,
        inproc(40_000),
        &|i| {
            let d = digits(i, &[2, vf.len() as u64, 4096]);
            let f = vf[d[1]];
            let v = (d[2] as u16).min(f.value_limit().unwrap());
            let used = f.text("V3", "V4", "target");
            let place = if v < 0x800 { 0xA00 } else { 0x100 };
            if d[0] == 0 {
                format!(".org {}\ntarget:\n.org {}\n{}\n", v, place, used).into_bytes()
            } else {
                format!(".org {}\n{}\n.org {}\ntarget:\n", place, used, v).into_bytes()
            }
        },
        &judge::full,
    );
    s.space(
        "labels-used-everywhere",
        "every value form with a label (address or constant) at every address 0..4093, odd ones included, after an origin or after data, in lower and upper case",
        vf.len() as u64 * 4094 * 8,
        inproc(20_000),
        &|i| {
            let d = digits(i, &[2, 2, 2, vf.len() as u64, 4094]);
            let f = vf[d[3]];
            let mut used = f.text("v5", "vc", "x_1");
            if d[0] == 1 {
                used = used.to_lowercase();
            }
            let def = if d[1] == 0 { "x_1: .equ 9\n".to_string() } else { "x_1:\n.db 7\n".to_string() };
            let at = if d[2] == 0 || d[4] < 8 { format!(".org {}\n", d[4]) } else { format!(".org {}\n.db 1, \"ab\"\n", d[4] - 3) };
            format!("{}{}{}\nE: \n", def, at, used).into_bytes()
        },
        &judge::full,
    );
    s.space(
        "endings",
        "every form x 16 registers x lower and upper case x 3 values (literals and a label) x 12 endings of the statement: end of file, comment, comma, other statement on the line, carriage return",
        fs * 16 * 2 * 3 * 12,
        inproc(6_000),
        &|i| {
            let d = digits(i, &[fs, 16, 2, 3, 12]);
            let f = &forms()[d[0]];
            let (x, y) = (format!("v{:x}", d[1]), format!("v{:x}", 15 - d[1]));
            let value = ["0", "$f", "abc"][d[3]];
            let mut line = f.text(&x, &y, value);
            if d[2] == 1 {
                line = line.to_uppercase();
            }
            let name = if d[2] == 1 { "ABC" } else { "abc" };
            let end = ["", "\n", " ", "\t", "\r\n", ";", "; vf", ",\n", ", ;x\n", " cls\n", " .db 1", " q: cls\n"][d[4]];
            format!("{}: .equ 9\n{}{}", name, line, end).into_bytes()
        },
        &judge::full,
    );
    named_addresses(s);
    crate::props3::battery(s, &judge::full);
}

/// Labels of several name lengths at every address, in every form that takes an address or value.
fn named_addresses(s: &Session) {
    let vf: Vec<&Form> = forms().iter().filter(|f| f.value_limit().is_some()).collect();
    let lens = [1usize, 2, 5, 9, 17, 33, 65, 129, 257];
    s.space(
        "named-addresses",
        "every value form x a label of 9 name lengths (1 to 257) at every address that fits the form, as an address or as a constant",
        vf.len() as u64 * 4095 * 9 * 2,
        inproc(6_000),
        &|i| {
            let d = digits(i, &[2, 9, vf.len() as u64, 4095]);
            let f = vf[d[2]];
            let v = (d[3] as u16) % (f.value_limit().unwrap() + 1);
            let name = "n".repeat(lens[d[1]]);
            let used = f.text("Va", "V1", &name);
            if d[0] == 0 {
                format!("{}\n.org {}\n{}:\n", used, v, name).into_bytes()
            } else {
                format!("{}: .equ {}\n{}\n", name, v, used).into_bytes()
            }
        },
        &judge::full,
    );
}

// ---------------------------------------------------------------- C02

pub fn identifiers(len: u32) -> (u64, impl Fn(u64) -> String) {
    let first: Vec<char> = "_abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ".chars().collect();
    let other: Vec<char> = "_abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ0123456789".chars().collect();
    let mut n = 0;
    for l in 1..=len {
        n += 53 * 63u64.pow(l - 1);
    }
    (n, move |mut i| {
        let mut l = 1;
        loop {
            let c = 53 * 63u64.pow(l - 1);
            if i < c {
                break;
            }
            i -= c;
            l += 1;
        }
        let mut r = vec![63u64; l as usize];
        r[0] = 53;
        digits(i, &r).iter().enumerate().map(|(k, d)| if k == 0 { first[*d] } else { other[*d] }).collect()
    })
}

pub fn c02(s: &Session) {
    let mut mns = mnemonics();
    mns.push("FOO".into());
    mns.push("V0".into());
    let m = mns.len() as u64;
    let prelude = "small: .equ 5\nbyte: .equ $20\nbig: .equ $300\nzero: .equ 0\n";
    let ops: Vec<&str> =
        vec!["v0", "i", "1", "[i]", "big", "dt", "st", "k", "f", "b", "vF", "256", "nowhere", "15", "16", "255", "4095", "small", "byte", "v1", "0", "$0", "#F", "$10", "$FF", "#100", "$fff", "%0", "%1111", "%1....", "zero", "2", "8", "VA", "128", "$800"];
    let text = |mn: &str, o: &[&str]| format!("{}{} {}\n", prelude, mn, o.join(", ")).into_bytes();
    let k = ops.len() as u64;
    s.space(
        "tuples",
        "every mnemonic (and two non-mnemonics) x every operand tuple of length 0..3 over 36 operands (registers of every kind, values at and beyond every field width in three notations, labels of several values and an undefined one)",
        m * seqs(k, 0, 3),
        inproc(70_000),
        &|i| {
            let n = seqs(k, 0, 3);
            let q: Vec<&str> = seq(k, 0, i / m).iter().map(|x| ops[*x]).collect();
            let _ = n;
            text(&mns[(i % m) as usize], &q)
        },
        &judge::rejected_only,
    );
    // The text of one operand, character by character.
    let oc: Vec<char> = "[]iIvV0 \t,k".chars().collect();
    let ko = oc.len() as u64;
    let olen = s.t(5, 6);
    let ohost = ["ld v1, @\n", "ld @, v1\n", "cls @\n", "add @, v2\n", "@ v1\n", "ld v1 @\n"];
    let no = ohost.len() as u64;
    s.space("operand-text", "every text of up to 6 (thorough: 7) of the characters [ ] i I v V 0 k, comma, blank and tab as an operand, in 6 places", seqs(ko, 0, olen + 1) * no, inproc(10_000), &|i| {
        let c: String = seq(ko, 0, i / no).iter().map(|x| oc[*x]).collect();
        ohost[(i % no) as usize].replace('@', &c).into_bytes()
    }, &judge::rejected_only);
    let nc: Vec<char> = "$#%01.f_-+ 'h".chars().collect();
    let kn = nc.len() as u64;
    let nhost = ["ld v1, @\n", ".db @\n", "jp @\n", ".org @\n"];
    let nn = nhost.len() as u64;
    s.space("number-text", "every text of up to 5 (thorough: 6) of the characters $ # % 0 1 . f _ - + ' h and blank as a value, in 4 places", seqs(kn, 0, olen) * nn, inproc(10_000), &|i| {
        let c: String = seq(kn, 0, i / nn).iter().map(|x| nc[*x]).collect();
        nhost[(i % nn) as usize].replace('@', &c).into_bytes()
    }, &judge::rejected_only);
    let kc = 12u64;
    s.space(
        "tuples-cli",
        "every mnemonic x every operand tuple of length 0..2 over the 36 operands and length 3 over 13, on the binary",
        m * (seqs(k, 0, 2) + 2197),
        CLI,
        &|i| {
            let j = i / m;
            let q: Vec<&str> = if j < seqs(k, 0, 2) {
                seq(k, 0, j).iter().map(|x| ops[*x]).collect()
            } else {
                digits(j - seqs(k, 0, 2), &[13, 13, 13]).iter().map(|x| ops[*x]).collect()
            };
            text(&mns[(i % m) as usize], &q)
        },
        &judge::rejected_only,
    );
    if !s.quick() {
        s.space(
            "tuples-4",
            "every mnemonic x every operand 4-tuple over 12 kinds",
            m * kc.pow(4),
            inproc(0),
            &|i| {
                let q: Vec<&str> = digits(i / m, &[kc; 4]).iter().map(|x| ops[*x]).collect();
                text(&mns[(i % m) as usize], &q)
            },
            &judge::rejected_only,
        );
    }
    // Registers and values that have something to do with each other.
    s.space(
        "wrong-registers",
        "jp with every register but v0 (and with four other first operands) x every value as literal, constant label and address label",
        19 * 4096 * 3,
        inproc(20_000),
        &|i| {
            let d = digits(i, &[3, 4096, 19]);
            let r = if d[2] < 15 { format!("v{:x}", d[2] + 1) } else { ["i", "dt", "[i]", "f"][d[2] - 15].to_string() };
            match d[0] {
                0 => format!("jp {}, {}\n", r, d[1]),
                1 => format!("x_1: .equ {}\njp {}, x_1\n", d[1], r),
                _ => format!(".org {}\nx_1:\n.org 16\njp {}, x_1\n", d[1], r),
            }
            .into_bytes()
        },
        &judge::rejected_only,
    );
    s.space(
        "related-operands",
        "every mnemonic x 16 registers x 12 operand shapes x 12 values made from the register's number (itself, doubled, in each hex digit) or extreme, as literal, constant label and address label, in lower and upper case",
        m * 16 * 12 * 12 * 6,
        inproc(20_000),
        &|i| {
            let d = digits(i, &[6, 12, 12, 16, m]);
            let r = d[3];
            let v = [r, r * 2, r << 4, r << 8, r * 0x11, r * 0x111, 0, 15, 16, 255, 256, 4095][d[1]];
            let val = if d[0] % 3 == 0 { v.to_string() } else { "x_1".to_string() };
            let (x, y) = (format!("v{:x}", r), format!("v{:x}", 15 - r));
            let ops = match d[2] {
                0 => vec![&val],
                1 => vec![&x, &val],
                2 => vec![&val, &x],
                3 => vec![&x, &x],
                4 => vec![&x, &x, &val],
                5 => vec![&x, &y, &val],
                6 => vec![&val, &val],
                7 => vec![&x],
                8 => vec![&x, &val, &val],
                9 => vec![&x, &x, &x],
                10 => vec![&x, &val, &x],
                _ => vec![&x, &y],
            };
            let o: Vec<&str> = ops.iter().map(|o| o.as_str()).collect();
            let mut line = format!("{} {}", mns[d[4]], o.join(", "));
            if d[0] >= 3 {
                line = line.to_lowercase();
            }
            match d[0] % 3 {
                0 => format!("{}\n", line),
                1 => format!("x_1: .equ {}\n{}\n", v, line),
                _ => format!(".org {}\nx_1:\n.org 16\n{}\n", v, line),
            }
            .into_bytes()
        },
        &judge::rejected_only,
    );
    // A valid instruction with operands added at either end or removed.
    let fs = forms().len() as u64;
    s.space(
        "arity",
        "every form with 1..40 extra operands of each of 20 kinds before or after its own, and with any operand removed or any two swapped",
        fs * (40 * 20 * 2 + 9),
        inproc(70_000),
        &|i| {
            let d = digits(i, &[fs, 40 * 20 * 2 + 9]);
            let f = &forms()[d[0]];
            let t = f.text("V3", "V4", "6");
            let mut o: Vec<String> = t.split_once(' ').map(|(_, r)| r.split(", ").map(|x| x.to_string()).collect()).unwrap_or_default();
            if d[1] < 1600 {
                let e = digits(d[1] as u64, &[2, 20, 40]);
                for _ in 0..=e[2] {
                    if e[0] == 0 {
                        o.push(ops[e[1]].to_string());
                    } else {
                        o.insert(0, ops[e[1]].to_string());
                    }
                }
            } else {
                let e = d[1] - 1600;
                let (a, b) = (e / 3, e % 3);
                if a == b {
                    if a < o.len() {
                        o.remove(a);
                    }
                } else if a < o.len() && b < o.len() {
                    o.swap(a, b);
                }
            }
            format!("{}{} {}\n", prelude, f.mnemonic, o.join(", ")).into_bytes()
        },
        &judge::rejected_only,
    );
    let narrow: Vec<&Form> = forms().iter().filter(|f| matches!(f.value_limit(), Some(0xF) | Some(0xFF))).collect();
    let nf = narrow.len() as u64;
    s.space(
        "narrow-values",
        "every form with an 8- or 4-bit field x all 4096 values x {decimal, hex, binary, constant label, address label, both with names of 12 and 70 characters, label defined before its use}; three register pairs",
        3 * nf * 10 * 4096,
        inproc(80_000),
        &|i| {
            let d = digits(i, &[3, nf, 10, 4096]);
            let long = ["L".repeat(12), "Long_label".repeat(7)];
            let f = narrow[d[1]];
            let v = d[3];
            let (x, y) = [("V0", "V0"), ("V7", "V8"), ("vf", "vf")][d[0]];
            let p = |t: &str| f.text(x, y, t);
            match d[2] {
                0 => format!("{}\n", p(&v.to_string())),
                1 => format!("{}\n", p(&format!("${:x}", v))),
                2 => format!("{}\n", p(&format!("%{:b}", v))),
                3 => format!("L: .equ {}\n{}\n", v, p("L")),
                4 => format!("{}\n.org {}\nL:\n", p("L"), v),
                5 | 6 => format!("{0}: .equ {1}\n{2}\n", long[d[2] - 5], v, p(&long[d[2] - 5])),
                7 | 8 => format!("{2}\n.org {1}\n{0}:\n", long[d[2] - 7], v, p(&long[d[2] - 7])),
                _ => format!(".org {}\nL9:\n.org {}\n{}\n", v, if v < 0x800 { 0x900 } else { 0x100 }, p("L9")),
            }
            .into_bytes()
        },
        &judge::full,
    );
    s.space(
        "narrow-values-cli",
        "every form with an 8- or 4-bit field x all 4096 values x {hex, constant label}, on the binary",
        nf * 2 * 4096,
        CLI,
        &|i| {
            let d = digits(i, &[nf, 2, 4096]);
            let f = narrow[d[0]];
            if d[1] == 0 {
                format!("{}\n", f.text("V1", "V2", &format!("#{:X}", d[2]))).into_bytes()
            } else {
                format!("{}\nL: .equ {}\n", f.text("V1", "V2", "L"), d[2]).into_bytes()
            }
        },
        &judge::full,
    );
    let (n, id) = identifiers(s.t(2, 3));
    s.space(
        "identifiers-as-operands",
        "every identifier up to length 2 (thorough: 3) as an operand in 6 instruction shapes (not defined as a label)",
        n * 6,
        inproc(30_000),
        &|i| {
            let t = id(i / 6);
            let line = match i % 6 {
                0 => format!("ld v1, {}", t),
                1 => format!("ld {}, v1", t),
                2 => format!("jp {}", t),
                3 => format!("skp {}", t),
                4 => format!("add {}, 3", t),
                _ => format!("jp {}, 7", t),
            };
            format!("{}\n", line).into_bytes()
        },
        &judge::full,
    );
    let (n, id) = identifiers(s.t(2, 3));
    s.space(
        "identifiers-as-mnemonics",
        "every identifier up to length 2 (thorough: 3) as a mnemonic with 4 operand shapes",
        n * 4,
        inproc(20_000),
        &|i| format!("{}{}\n", id(i / 4), ["", " v1", " v1, v2", " 5"][(i % 4) as usize]).into_bytes(),
        &judge::full,
    );
    // One-edit neighbours of every mnemonic.
    let mut near: Vec<String> = Vec::new();
    let letters: Vec<char> = "abcdefghijklmnopqrstuvwxyz0_".chars().collect();
    for m in mnemonics() {
        let w: Vec<char> = m.to_lowercase().chars().collect();
        for p in 0..=w.len() {
            for c in &letters {
                let mut a = w.clone();
                a.insert(p, *c);
                near.push(a.iter().collect());
                if p < w.len() {
                    let mut b = w.clone();
                    b[p] = *c;
                    near.push(b.iter().collect());
                }
            }
            if p < w.len() {
                let mut b = w.clone();
                b.remove(p);
                near.push(b.iter().collect());
            }
        }
    }
    near.retain(|w| w.chars().next().map(|c| c.is_ascii_alphabetic() || c == '_').unwrap_or(false));
    near.sort();
    near.dedup();
    let shapes = ["", " v1", " v1, v2", " v1, 5", " 5", " v1, v2, 3", " i, v1", " v1, [i]"];
    s.space(
        "near-mnemonics",
        "every identifier one edit away from a mnemonic x 8 operand shapes",
        near.len() as u64 * 8,
        CLI,
        &|i| format!("{}{}\n", near[(i / 8) as usize], shapes[(i % 8) as usize]).into_bytes(),
        &judge::full,
    );
    // Mnemonics and directives decorated with one character, any number of times and anywhere.
    let deco = ["_", "x", "0", "s", "__x"];
    let mut decorated: Vec<String> = Vec::new();
    for w in mnemonics().iter().chain(["org", "db", "equ"].map(String::from).iter()) {
        let w = w.to_lowercase();
        for c in deco {
            for k in 1..=20 {
                for p in 0..=w.len() {
                    let t = format!("{}{}{}", &w[..p], c.repeat(k), &w[p..]);
                    if !t.starts_with('0') {
                        decorated.push(t);
                    }
                }
                // Between all letters at once, and doubled letters.
                decorated.push(w.chars().map(|x| x.to_string()).collect::<Vec<_>>().join(&c.repeat(k)));
            }
        }
        for k in 2..=20 {
            decorated.push(w.repeat(k));
            decorated.push(w.chars().map(|x| x.to_string().repeat(k)).collect());
        }
    }
    decorated.sort();
    decorated.dedup();
    let dshapes = ["", " v1", " v1, v2", " v1, 5", " 5", " v1, v2, 3", " i, v1", " v1, [i]", " i, 5", " v1, i", " v0, 5", " dt, v1"];
    s.space("decorated-mnemonics", "every mnemonic and directive name with one of 5 texts inserted 1 to 20 times at every place or between all letters, and repeated, x 12 operand shapes, as instruction and as directive", decorated.len() as u64 * 13, inproc(20_000), &|i| {
        let w = &decorated[(i / 13) as usize];
        match i % 13 {
            12 => format!("A: .{} 5\n", w),
            k => format!("{}{}\n", w, dshapes[k as usize]),
        }
        .into_bytes()
    }, &judge::full);
    // Directives.
    let names = ["org", "db", "equ", "ORG", "Db", "eQU", "foo", "or", "orgs", "d", "dbs", "eq", "equs", "org_", "_db", "v0", "cls", "i"];
    let argv = ["0", "1", "255", "256", "4095", "$FFF", "#FF", "$100", "%1.1", "%11111111", "%1........", "\"\"", "\"a\"", "\"ab\u{e9}\"", "\"5\"", "\"$FF\""];
    let (dn, da) = (names.len() as u64, argv.len() as u64);
    s.space(
        "directives",
        "18 directive names x every argument list of length 0..3 over 16 arguments, with and without a label before and with a trailing comma",
        dn * seqs(da, 0, 3) * 4,
        inproc(60_000),
        &|i| {
            let d = digits(i, &[4, dn, seqs(da, 0, 3)]);
            let l: Vec<&str> = seq(da, 0, d[2] as u64).iter().map(|x| argv[*x]).collect();
            let t = format!(".{} {}{}\n", names[d[1]], l.join(", "), if d[0] & 1 == 1 { "," } else { "" });
            format!("{}{}cls\n", if d[0] & 2 == 2 { "L: " } else { "" }, t).into_bytes()
        },
        &judge::full,
    );
    crate::props3::letters_space(s, &judge::rejected_only);
    crate::props3::battery(s, &judge::rejected_only);
}

// ---------------------------------------------------------------- C03

const CONTEXTS: u64 = 7;

fn in_context(k: usize, lit: &str) -> Vec<u8> {
    match k {
        0 => format!("jp {}\n", lit),
        1 => format!(".db {}\n", lit),
        2 => format!(".org {}\ncls\n", lit),
        3 => format!("L: .equ {}\njp L\n", lit),
        4 => format!("ld v3, {}\n", lit),
        5 => format!("drw v1, v2, {}\n", lit),
        _ => format!(".db \"a\", {}, 7\nld i, {} cls\n", lit, lit),
    }
    .into_bytes()
}

pub fn c03(s: &Session) {
    s.assume("a hexadecimal literal has one to three digits; decimal and binary literals may carry any number of leading zeros");
    s.space(
        "decimal",
        "every decimal digit string of length 1..5 in the 12-bit, .org and .equ contexts",
        seqs(10, 1, 5) * 3,
        inproc(40_000),
        &|i| {
            let t: String = seq(10, 1, i / 3).iter().map(|d| (b'0' + *d as u8) as char).collect();
            in_context([0, 2, 3][(i % 3) as usize], &t)
        },
        &judge::full,
    );
    s.space(
        "decimal-cli",
        "every decimal digit string of length 1..4 in two contexts (12-bit, byte), on the binary",
        seqs(10, 1, 4) * 2,
        CLI,
        &|i| {
            let t: String = seq(10, 1, i / 2).iter().map(|d| (b'0' + *d as u8) as char).collect();
            in_context((i % 2) as usize, &t)
        },
        &judge::full,
    );
    let hexd: Vec<char> = "0123456789abcdefABCDEF".chars().collect();
    s.space(
        "hexadecimal",
        "every hexadecimal digit string of length 1..3, both cases of each digit, both prefixes, in 7 contexts",
        seqs(22, 1, 3) * 2 * CONTEXTS,
        inproc(40_000),
        &|i| {
            let d = digits(i % (2 * CONTEXTS), &[2, CONTEXTS]);
            let t: String = seq(22, 1, i / (2 * CONTEXTS)).iter().map(|x| hexd[*x]).collect();
            in_context(d[1], &format!("{}{}", ["$", "#"][d[0]], t))
        },
        &judge::full,
    );
    s.space(
        "hexadecimal-long",
        "every 4-digit hexadecimal string (lower case; both prefixes), and 5 digits over {0,1,f}",
        (65536 + 243) * 2,
        inproc(20_000),
        &|i| {
            let p = ["$", "#"][(i % 2) as usize];
            let j = i / 2;
            if j < 65536 {
                in_context(0, &format!("{}{:04x}", p, j))
            } else {
                let t: String = digits(j - 65536, &[3; 5]).iter().map(|d| ['0', '1', 'f'][*d]).collect();
                in_context(0, &format!("{}{}", p, t))
            }
        },
        &judge::full,
    );
    s.space(
        "hexadecimal-cli",
        "every value 0..4095 in lower, upper and padded hexadecimal with both prefixes, 12-bit and byte contexts, on the binary",
        4096 * 4,
        CLI,
        &|i| {
            let v = i / 4;
            match i % 4 {
                0 => in_context(0, &format!("${:x}", v)),
                1 => in_context(1, &format!("#{:X}", v)),
                2 => in_context(3, &format!("#{:03x}", v)),
                _ => in_context(4, &format!("${:03X}", v)),
            }
        },
        &judge::full,
    );
    let blen = s.t(10, 13);
    let bind = ['0', '1', '.'];
    s.space(
        "binary",
        "every string over {0, 1, .} of length 1..10 (thorough: 13) in the 12-bit context",
        seqs(3, 1, blen),
        inproc(40_000),
        &|i| in_context(0, &format!("%{}", seq(3, 1, i).iter().map(|x| bind[*x]).collect::<String>())),
        &judge::full,
    );
    s.space(
        "binary-contexts",
        "every string over {0, 1, .} of length 1..7 in 7 contexts",
        seqs(3, 1, 7) * CONTEXTS,
        inproc(20_000),
        &|i| in_context((i % CONTEXTS) as usize, &format!("%{}", seq(3, 1, i / CONTEXTS).iter().map(|x| bind[*x]).collect::<String>())),
        &judge::full,
    );
    s.space(
        "binary-wide",
        "every string over {0, 1} of length 11..14 (thorough: 16), with 0 or . for zero",
        seqs(2, 11, s.t(14, 16)) * 2,
        inproc(20_000),
        &|i| in_context(0, &format!("%{}", seq(2, 11, i / 2).iter().map(|x| if *x == 1 { '1' } else { ['0', '.'][(i % 2) as usize] }).collect::<String>())),
        &judge::full,
    );
    let pads: Vec<usize> = (0..=s.t(70, 140)).chain([100, 127, 128, 129, 255, 256, 257, 1000]).collect();
    let np = pads.len() as u64;
    s.space(
        "binary-padded",
        &format!("every 12-bit value after each of {} numbers of leading zeros up to 1000, zeros written 0 or . in the padding and in the value", np),
        np * 4 * 4096,
        inproc(10_000),
        &|i| {
            let d = digits(i, &[2, 2, np, 4096]);
            let v: String = format!("{:012b}", d[3]).chars().map(|c| if c == '0' { ['0', '.'][d[0]] } else { c }).collect();
            in_context((i % CONTEXTS) as usize, &format!("%{}{}", ["0", "."][d[1]].repeat(pads[d[2]]), v))
        },
        &judge::full,
    );
    s.space(
        "decimal-padded",
        &format!("every value up to 5000 after each of {} numbers of leading zeros up to 1000", np),
        np * 5001,
        inproc(10_000),
        &|i| {
            let d = digits(i, &[np, 5001]);
            in_context((i % CONTEXTS) as usize, &format!("{}{}", "0".repeat(pads[d[0]]), d[1]))
        },
        &judge::full,
    );
    // Long literals: one set digit anywhere, and all-ones, for every length.
    let mut long: Vec<String> = Vec::new();
    for len in 1..=s.t(140usize, 300) {
        for p in 0..len {
            let mut b = vec!['0'; len];
            b[p] = '1';
            long.push(format!("%{}", b.iter().collect::<String>()));
            if len <= 48 {
                long.push(b.iter().collect::<String>());
                long.push(format!("${}", b.iter().collect::<String>()));
            }
        }
        for c in ['0', '1', '.'] {
            long.push(format!("%{}", c.to_string().repeat(len)));
        }
        for c in ['0', '1', '9'] {
            long.push(c.to_string().repeat(len));
        }
        for c in ['0', 'f'] {
            long.push(format!("#{}", c.to_string().repeat(len)));
        }
        for tail in ["4095", "4096", "255", "256", "15", "16", "7"] {
            long.push(format!("{}{}", "0".repeat(len), tail));
            long.push(format!("1{}{}", "0".repeat(len), tail));
        }
        for tail in ["111111111111", "1000000000000", "1"] {
            long.push(format!("%{}{}", ".".repeat(len), tail));
            long.push(format!("%1{}{}", "0".repeat(len), tail));
        }
    }
    // Decimal values around machine-word widths.
    for bits in 8..=130u32 {
        let pow = decimal_pow2(bits);
        for add in 0..=17u32 {
            long.push(decimal_add(&pow, add * add));
        }
    }
    for len in [1000usize, 4096, 65535, 65536, 65537] {
        long.push(format!("%1{}", "0".repeat(len)));
        long.push(format!("%{}1", "0".repeat(len)));
        long.push(format!("1{}", "0".repeat(len)));
        long.push(format!("{}1", "0".repeat(len)));
        long.push(format!("${}1", "0".repeat(len)));
    }
    s.space(
        "long-literals",
        "binary, decimal and hexadecimal strings of every length up to 140 (thorough: 300) with one set digit at each place, all-equal digits, leading zeros, and decimal values around every power of two up to 2^130",
        long.len() as u64 * 2,
        CLI,
        &|i| in_context([0, 1][(i % 2) as usize], &long[(i / 2) as usize]),
        &judge::full,
    );
    // Texts that look like numbers of other languages.
    let nl: Vec<char> = "019afxhb_.'$#%+-e".chars().collect();
    let kn = nl.len() as u64;
    let like = |i: u64| -> String { seq(kn, 1, i).iter().map(|x| nl[*x]).collect() };
    s.space(
        "number-like",
        "every text of 1..5 characters over 17 (digits, letters, prefixes, separators and signs of number notations) as an operand, and of 1..4 as data, an origin and a constant",
        seqs(kn, 1, s.t(5, 6)) + seqs(kn, 1, 4) * 3,
        inproc(80_000),
        &|i| {
            let n5 = seqs(kn, 1, s.t(5, 6));
            if i < n5 {
                return in_context(0, &like(i));
            }
            let j = i - n5;
            in_context(1 + (j % 3) as usize, &like(j / 3))
        },
        &judge::full,
    );
    s.space("number-like-cli", "every such text of 1..4 characters as an operand, on the binary", seqs(kn, 1, 4), CLI, &|i| in_context(0, &like(i)), &judge::full);
    let forms_of: Vec<&str> = vec!["1_000", "1,000", "1'000", "0x10", "0X10", "0b11", "0o17", "017", "10h", "0FFh", "$FFh", "&HFF", "&10", "@17", "1e3", "1.5", "+5", "-5", "-1", "~0", "!0", "0d10", "$0x1", "#$F", "$#F", "$-1", "%+1", "%-1", "$ F", "% 1", "# 1", "$_F", "%_1", "%1_0", "1 000", "$1 0", "\u{661}", "\u{ff11}", "\u{bd}", "\u{b2}", "$\u{ff21}", "%\u{ff11}", "1K", "1k", "4KB", "100%", "5$", "5#", "(5)", "[5]", "{5}", "'A'", "'1'", "A'", "\"5\"", "1u8", "1L", "1f", "$1g", "$g", "#z", "%2", "%12", "%.2", "..1", ".1", "1.", "$.1", "$1.", "1+1", "1-1", "2*2", "1/1", "1<<2", "$F+1", "L+1", "0", "00", "000", "0000", "00000"];
    let nfo = forms_of.len() as u64;
    s.space(
        "number-notations",
        "80 number notations, of this and of other languages, in 7 contexts, alone and next to a second one",
        nfo * CONTEXTS * (1 + nfo),
        inproc(60_000),
        &|i| {
            let d = digits(i, &[1 + nfo, CONTEXTS, nfo]);
            let a = forms_of[d[2]];
            if d[0] == 0 { in_context(d[1], a) } else { in_context(d[1], &format!("{}{}{}", a, [" ", ", ", "\n"][(d[1] + d[0]) % 3], forms_of[d[0] - 1])) }
        },
        &judge::full,
    );
    // What may follow a literal.
    let lits = ["0", "7", "12", "255", "4095", "$0", "$F", "$ff", "$FFF", "#1", "#abc", "%0", "%1.", "%1111", "%"];
    s.space(
        "terminators",
        "15 literals directly followed by every pair of ASCII characters, in an instruction and in a data directive",
        15 * 2 * 128 * 128,
        inproc(30_000),
        &|i| {
            let d = digits(i, &[2, 15, 128, 128]);
            let mut t = if d[0] == 0 { b"jp ".to_vec() } else { b".db ".to_vec() };
            t.extend_from_slice(lits[d[1]].as_bytes());
            t.push(d[2] as u8);
            t.push(d[3] as u8);
            t.extend_from_slice(b"\ncls\n");
            t
        },
        &judge::full,
    );
    // A literal directly followed by a word, as where a blank is left out.
    let words = [".db", ".DB", ".org", ".equ", ".foo", "db", "org", "equ", "DB", "cls", "ret", "ld", "jp", "v0", "vf", "VA", "i", "dt", "st", "k", "f", "b", "B", "e", "h", "H", "x", "o", "_", "L", "L:", "\"s\"", "[i]", "$1", "#1", "%1", "%.", "1", ";c", ",", ",,", ":", "..", "..db", ".1", ".1.db"];
    let nw = words.len() as u64;
    let lits2 = ["0", "7", "12", "255", "4095", "$0", "$F", "$ff", "$FFF", "#1", "#abc", "%0", "%1", "%.", "%1.", "%.1", "%1111", "%1...", "%.......1", "%11111111", "%1.1.1.1.1.1.", "%", "$", "$e", "$B"];
    let nl = lits2.len() as u64;
    let rests = [" 5\n", "\n", " v0, 1\n", "", ", 2\n", ": cls\n"];
    s.space(
        "glued-words",
        "25 literals x 46 directives, mnemonics, registers, names and literals written directly behind x optionally a second such word x 6 continuations, in 3 contexts",
        3 * nl * nw * (1 + nw) * 6,
        inproc(20_000),
        &|i| {
            let d = digits(i, &[3, nl, nw, 1 + nw, 6]);
            let second = if d[3] == 0 { "" } else { words[d[3] - 1] };
            format!("{}{}{}{}{}", ["jp ", ".db ", "L: .equ "][d[0]], lits2[d[1]], words[d[2]], second, rests[d[4]]).into_bytes()
        },
        &judge::full,
    );
    crate::props3::battery(s, &judge::full);
}

fn decimal_add(a: &str, mut add: u32) -> String {
    let mut d: Vec<u32> = a.bytes().rev().map(|b| (b - b'0') as u32).collect();
    let mut i = 0;
    while add > 0 {
        if i == d.len() {
            d.push(0);
        }
        let t = d[i] + add;
        d[i] = t % 10;
        add = t / 10;
        i += 1;
    }
    d.iter().rev().map(|x| (b'0' + *x as u8) as char).collect()
}

fn decimal_pow2(bits: u32) -> String {
    let mut d = vec![1u32];
    for _ in 0..bits {
        let mut c = 0;
        for x in d.iter_mut() {
            let t = *x * 2 + c;
            *x = t % 10;
            c = t / 10;
        }
        if c > 0 {
            d.push(c);
        }
    }
    d.iter().rev().map(|x| (b'0' + *x as u8) as char).collect()
}

// ---------------------------------------------------------------- statement sequences

fn statements<'a>(alphabet: &'a [&'a str], sep: &'a str) -> impl Fn(u64) -> Vec<u8> + Sync + 'a {
    let k = alphabet.len() as u64;
    move |i| {
        let mut t = String::new();
        for x in seq(k, 0, i) {
            t.push_str(alphabet[x]);
            t.push_str(sep);
        }
        t.into_bytes()
    }
}

pub fn c04(s: &Session) {
    let a = [
        "A:", "jp A", "Bq:", "call Bq", "a:", "ld i, a", "AB:", "jp v0, AB", ".db 1", ".db 1, \"x\u{e9}\u{65e5}\"", "cls", ".org $300", ".org $10", "ld v1, A", "A: Bq:",
    ];
    let k = a.len() as u64;
    let d = s.t(5, 6);
    s.space(
        "sequences",
        "all statement sequences up to length 5 (thorough: 6) over 15 statements: definitions of four similar names, uses in four instruction shapes, data, instructions, two origins",
        seqs(k, 0, d),
        inproc(100_000),
        &statements(&a, "\n"),
        &judge::full,
    );
    s.space("sequences-cli", "the same sequences up to length 4, on the binary", seqs(k, 0, s.t(4, 4)), CLI, &statements(&a, "\n"), &judge::full);
    // Closed programs: a prologue uses the labels, an epilogue defines what is left, so that resolution succeeds often.
    let b = ["LA:", "LB:", "LC:", "jp LA", "ld i, LB", "call LC", ".db 9", "cls", ".org $20", ".org $3"];
    let kb = b.len() as u64;
    s.space(
        "closed-sequences",
        "all statement sequences up to length 5 (thorough: 6) over 10 statements, closed by definitions of the labels not yet defined",
        seqs(kb, 0, s.t(5, 6)),
        inproc(60_000),
        &|i| {
            let q = seq(kb, 0, i);
            let mut t = String::from("jp LA\ncall LB\nld i, LC\n.org $100\n");
            for x in &q {
                t.push_str(b[*x]);
                t.push('\n');
            }
            t.push_str(".org $200\njp LB\n");
            for (n, d) in ["LA:\n", "LB:\n", "LC:\n"].iter().enumerate() {
                if !q.contains(&n) {
                    t.push_str(d);
                    t.push_str("cls\n");
                }
            }
            t.into_bytes()
        },
        &judge::full,
    );
    // Many labels.
    s.space(
        "label-count",
        "programs with n labels, each on its own instruction and each referenced once, for every n up to 1000, definitions before or after the uses",
        1000 * 2,
        CLI,
        &|i| {
            let n = (i / 2) as usize + 1;
            let mut defs = String::new();
            let mut uses = String::new();
            for k in 0..n {
                defs.push_str(&format!("lab{}: cls\n", k));
                uses.push_str(&format!("jp lab{}\n", (k * 7 + 3) % n));
            }
            if i % 2 == 0 { format!("{}{}", defs, uses) } else { format!("{}{}", uses, defs) }.into_bytes()
        },
        &judge::full,
    );
    let many: Vec<usize> = s.t(vec![1023, 1024, 1025, 2048, 4095, 4096, 4097, 9999, 16384, 32768, 65535, 65536, 65537, 70000, 400_000], (0..400).map(|k| 1000 + k * 251).chain([400_000, 1_000_000]).collect());
    s.space(
        "label-mass",
        "very many labels (up to 70,000 and 400,000; thorough: up to 100,000 in steps of 251, 400,000 and 1,000,000), stacked on addresses or given as constants, every 97th (at most 900) referenced, names counting up or spread widely, optionally one name defined twice or one undefined",
        many.len() as u64 * 6,
        CLI,
        &|i| {
            let n = many[(i / 6) as usize];
            let mut t = String::new();
            // Names that count up, or names spread over the whole space of ten-digit names.
            let nm = |k: usize| if i % 6 < 4 { format!("n{}", k) } else { format!("{}{:x}_{}", ["q", "Z", "_m"][k % 3], (k as u64).wrapping_mul(0x9E37_79B9_7F4A_7C15) >> 24, k % 7) };
            for k in 0..n {
                if i % 6 == 1 || i % 6 == 5 {
                    t.push_str(&format!("{}: .equ {}\n", nm(k), (k * 31) % 4096));
                } else {
                    t.push_str(&format!("{}:\n", nm(k)));
                    if k % 100 == 99 && k < 100_000 {
                        t.push_str(".db 1\n");
                    }
                }
            }
            let mut k = 0;
            while k < n {
                t.push_str(&format!("jp {}\n", nm(k)));
                k += 97.max(n / 900);
            }
            t.push_str(&format!("jp {}\n", nm(n - 1)));
            match i % 6 {
                2 => t.push_str(&format!("n{}:\n", n / 2)),
                3 => t.push_str(&format!("jp n{}\n", n)),
                _ => {}
            }
            t.into_bytes()
        },
        &judge::full,
    );
    // Names of everyday programs, every ordered pair, and each with every name of two characters.
    let every = [
        "start", "main", "loop", "end", "init", "begin", "exit", "done", "draw", "sprite", "wait", "clear", "key", "score", "x", "y", "a", "b", "i1", "n", "v", "vx", "vy", "vg", "v00", "pc", "sp", "delay", "timer", "sound", "data", "font",
        "table", "player", "ball", "paddle", "left", "right", "up", "down", "move", "update", "reset", "game", "over", "level", "lives", "tmp", "temp", "next", "skip", "again", "outer", "inner", "L", "L0", "L1", "L10", "label", "label1",
        "_start", "__", "_", "START", "Start", "Loop", "org_", "entry", "text", "bss", "start_", "start1", "restart", "const", "width", "height", "mask", "zero", "one",
    ];
    let ke = every.len() as u64;
    let pair_src = |p: &str, q: &str, shape: usize| match shape {
        0 => format!("jp {q}\n{p}: cls\n{q}: jp {p}\n"),
        _ => format!("{p}: cls\n.db 1\n{q}: .equ $345\nld i, {q}\ncall {p}\n"),
    };
    s.space("everyday-names", "every ordered pair of 79 names that everyday programs use, as two labels and as a label and a constant", ke * ke * 2, inproc(ke * ke * 2), &|i| {
        let d = digits(i, &[2, ke, ke]);
        if d[1] == d[2] {
            return b"cls\n".to_vec();
        }
        pair_src(every[d[1]], every[d[2]], d[0]).into_bytes()
    }, &judge::full);
    let first: Vec<char> = ('a'..='z').chain('A'..='Z').chain("_".chars()).collect();
    let second: Vec<char> = ('a'..='z').chain('A'..='Z').chain('0'..='9').chain("_".chars()).collect();
    let two: Vec<String> = first.iter().flat_map(|x| second.iter().map(move |y| format!("{}{}", x, y))).collect();
    let k2 = two.len() as u64;
    s.space("two-character-names", "every name of two characters next to each of the everyday names", ke * k2 * 2, inproc(8_000), &|i| {
        let d = digits(i, &[2, ke, k2]);
        if every[d[1]] == two[d[2]] {
            return b"cls\n".to_vec();
        }
        pair_src(every[d[1]], &two[d[2]], d[0]).into_bytes()
    }, &judge::full);
    // A short name with every ending and beginning of up to three letters: naming conventions mean nothing.
    let lets: Vec<char> = ('a'..='z').collect();
    let ka = seqs(26, 0, 3);
    let ashape = [
        "X: .equ $345\nld i, X\njp X\n", ".org $345\nX: jp X\n.db 1\n", "ld v1, X\nX: .equ $9A\n", "ab: cls\nX: ret\njp ab\ncall X\n", "jp X\nld i, X\n.org $FE9\nX: cls\n",
    ];
    let (nas, njoin) = (ashape.len() as u64, 6u64);
    s.space("affixed-names", "a short name joined with every text of up to three letters, before and behind it, with and without underscores and in capitals, as label and as constant in 5 programs", ka * nas * njoin, inproc(20_000), &|i| {
        let d = digits(i, &[nas, njoin, ka]);
        let x: String = seq(26, 0, d[2] as u64).iter().map(|k| lets[*k]).collect();
        let n = match d[1] {
            0 => format!("ab_{}", x),
            1 => format!("{}_ab", x),
            2 => format!("ab{}", x),
            3 => format!("{}q7", x),
            4 => format!("AB_{}", x.to_uppercase()),
            _ => format!("_{}_", x),
        };
        let n = if n == "ab" { "abX".to_string() } else { n };
        ashape[d[0]].replace('X', &n).into_bytes()
    }, &judge::full);
    // Name length: two names equal but for one character.
    let maxlen = s.t(48u64, 80);
    let pairs: Vec<(u64, u64)> = (1..=maxlen).flat_map(|l| (0..l).map(move |p| (l, p))).collect();
    s.space(
        "similar-names",
        "two labels of equal length up to 48 (thorough: 80) differing in one character at each place (another letter, letter case, digit, underscore): both defined and used, or only one defined and the other used",
        pairs.len() as u64 * 12,
        CLI,
        &|i| {
            let (l, p) = pairs[(i / 12) as usize];
            let mode = i / 4 % 3;
            let base: Vec<char> = (0..l).map(|k| if k == 0 { 'q' } else { ['x', 'y', '1', '_'][(k % 4) as usize] }).collect();
            let mut other = base.clone();
            let c = ['z', 'X', '7', '_'][(i % 4) as usize];
            other[p as usize] = if p == 0 && c == '7' { 'Q' } else { c };
            let (x, y): (String, String) = (base.iter().collect(), other.iter().collect());
            match mode {
                0 => format!("{}: cls\n{}: ret\njp {}\njp {}\n", x, y, x, y),
                1 => format!("ret\n{}: cls\njp {}\n", x, y),
                _ => format!("ret\njp {}\n{}: cls\n", x, y),
            }
            .into_bytes()
        },
        &judge::full,
    );
    let stems = ["q", "lp", "loop", "main", "start", "Player1", "game_over", "sub_routine_number_12", "labelA"];
    let vary: Vec<fn(&str) -> String> = vec![
        |x| x.to_string(),
        |x| x.to_uppercase(),
        |x| x.to_lowercase(),
        |x| format!("{}{}", x[..1].to_uppercase(), &x[1..]),
        |x| format!("{}{}", x[..1].to_lowercase(), x[1..].to_uppercase()),
        |x| format!("{}_", x),
        |x| format!("_{}", x),
        |x| format!("{}1", x),
        |x| format!("{}2", x),
        |x| format!("{}{}", x, x),
        |x| format!("{}s", x),
        |x| format!("{}_end", x),
        |x| if x.len() > 1 { x[..x.len() - 1].to_string() } else { format!("{}z", x) },
        |x| if x.len() > 1 { x[1..].trim_start_matches(|c: char| c.is_ascii_digit()).to_string() } else { format!("z{}", x) },
        |x| x.replace('_', "").to_string() + "0",
        |x| x.chars().rev().collect::<String>().trim_start_matches(|c: char| c.is_ascii_digit()).to_string() + "r",
        |x| x.replace('_', "__") + "x",
        |x| x.replace('o', "0").replace('l', "k1"),
    ];
    let (nst, nv) = (stems.len() as u64, vary.len() as u64);
    s.space(
        "name-families",
        "every ordered pair of 18 spellings of 9 stems (letter case, underscore, digit, plural, truncation, doubling): one defined (as an address, or as a constant), the other used (as an address, or as a byte), before or after; and a third spelling defined as well",
        nst * nv * nv * 8,
        CLI,
        &|i| {
            let d = digits(i, &[nst, nv, nv, 8]);
            let (x, y) = (vary[d[1]](stems[d[0]]), vary[d[2]](stems[d[0]]));
            let z = vary[(d[1] + d[2] + 1) % nv as usize](stems[d[0]]);
            let def = if d[3] & 1 == 0 { format!("{}: cls\n", x) } else { format!("{}: .equ 7\n", x) };
            let usage = if d[3] & 2 == 0 { format!("jp {}\n", y) } else { format!("add v1, {}\n", y) };
            let third = if d[3] & 4 == 0 || z == x { String::new() } else { format!("{}: ret\n", z) };
            if d[1] % 2 == 0 { format!("trap\n{}{}{}", def, usage, third) } else { format!("{}trap\n{}{}", usage, third, def) }.into_bytes()
        },
        &judge::full,
    );
    let lens: Vec<usize> = (1..=s.t(400, 1100)).chain([1023, 1024, 1025, 4095, 4096, 4097, 65535, 65536, 65537]).collect();
    s.space(
        "long-names",
        "a label of every length up to 400 (thorough: 1100) and around larger powers of two, with a prefix of it, an extension of it and a lower-case copy also defined and used",
        lens.len() as u64,
        CLI,
        &|i| {
            let n = lens[i as usize];
            let a: String = "N".to_string() + &"m".repeat(n - 1);
            let b = a.clone() + "m";
            let c = a.to_lowercase();
            format!("jp {a}\njp {b}\njp {c}\n{a}: cls\n{b}: ret\n{c}: trap\njp {a}\njp {b}\njp {c}\n").into_bytes()
        },
        &judge::full,
    );
    let (n, id) = identifiers(s.t(2, 3));
    s.space(
        "every-name",
        "every identifier up to length 2 (thorough: 3) defined as a label and used (register names stay registers)",
        n,
        inproc(3400),
        &|i| {
            let t = id(i);
            format!("nop\n{}: cls\njp {}\nld i, {}\n", t, t, t).into_bytes()
        },
        &judge::full,
    );
    let mut words: Vec<String> = crate::model::mnemonics();
    words.extend(["org", "db", "equ", "ORG", "DB", "EQU", "v10", "vg", "vG", "v", "V", "dt1", "ii", "_i", "i_", "a", "ff", "v0_", "vff", "__", "_"].map(String::from));
    let w = words.len() as u64;
    s.space(
        "keyword-names",
        "labels named like mnemonics, directives and near-registers, in both letter cases, pairwise defined and used",
        w * w * 2,
        CLI,
        &|i| {
            let d = digits(i, &[2, w, w]);
            let mut a = words[d[1]].clone();
            if d[0] == 1 {
                a = a.to_lowercase();
            }
            let b = &words[d[2]];
            format!("{}: cls\nret\n{}: jp {}\njp {}\n", a, b, a, b).into_bytes()
        },
        &judge::full,
    );
    named_addresses(s);
    crate::props3::battery(s, &judge::full);
}

pub fn c05(s: &Session) {
    let a = [
        ".db 1", "cls", ".db 2, 3", ".org 5", ".org 0", "L:", ".db \"a\u{e9}\u{65e5}\"", ".org $FFC", ".org $FFD", ".org $FFE", ".org $FFF", "jp $345",
        ".db 16,17,18,19,20,21,22,23,24,25,26,27,28,29,30,31", ".org $200", "C: .equ $FFF", ".db \"\"",
    ];
    let k = a.len() as u64;
    s.space(
        "sequences",
        "all sequences up to length 5 over 16 statements: data of 0, 1, 2, 3 and 16 bytes, instructions, labels, a constant and origins at both ends of memory",
        seqs(k, 0, 5),
        inproc(100_000),
        &statements(&a, "\n"),
        &judge::full,
    );
    s.space("sequences-cli", "the same sequences up to length 4, on the binary", seqs(k, 0, 4), CLI, &statements(&a, "\n"), &judge::full);
    if !s.quick() {
        let b = [".db 1", "cls", ".db 2, 3", ".org 5", ".org 0", ".org $FFC", ".org $FFE", ".org $FFF", "jp $345", ".org 9", "L:"];
        s.space("deep-sequences", "all sequences up to length 7 over 11 of these statements", seqs(11, 0, 7), inproc(0), &statements(&b, "\n"), &judge::full);
    }
    // Lists of sections: every list of up to five of these, empty ones among them.
    let so = [".org 1\n", ".org $200\n", ".org $FFC\n", ".org $FFD\n", ".org $FFE\n", ".org $FFF\n"];
    let sb = ["", ".db 7\n", "ret\n"];
    let kso = 18u64;
    s.space(
        "section-lists",
        "every list of up to 4 (thorough: 5) sections, each with one of 6 origins and no byte, one byte or one instruction",
        seqs(kso, 0, s.t(4, 5)),
        inproc(20_000),
        &|i| seq(kso, 0, i).iter().map(|x| format!("{}{}", so[x / 3], sb[x % 3])).collect::<String>().into_bytes(),
        &judge::full,
    );
    let before = ["", ".db 1\n", ".org 1\n.db 1\n.org 5\n.db 2\n", ".org 1\n.db 1\n.org 5\n.db 2\n.org 9\n", ".org 9\n", ".org 9\n.org 9\n", "ret\n.org 9\n.org 11\n.db 3\n.org 30\n.org 20\nret\n"];
    s.space(
        "every-origin-after",
        "every origin 0..4095 behind 7 beginnings of a program (none, data, empty sections, several sections), a byte or nothing in it, a further section behind it or not",
        4096 * 7 * 4,
        inproc(7_000),
        &|i| {
            let d = digits(i, &[4, 7, 4096]);
            format!("{}.org {}\n{}{}", before[d[1]], d[2], ["", ".db 66\n"][d[0] % 2], ["", ".org 15\n.db 9\n"][d[0] / 2]).into_bytes()
        },
        &judge::full,
    );
    s.space(
        "every-address",
        "one byte, two bytes and one instruction at every address 0..4095",
        4096 * 3,
        CLI,
        &|i| {
            let a = i / 3;
            match i % 3 {
                0 => format!(".org {}\n.db 77\n", a),
                1 => format!(".org ${:x}\n.db 77, 78\n", a),
                _ => format!(".org {}\nret\n", a),
            }
            .into_bytes()
        },
        &judge::full,
    );
    // Sizes against the end of memory.
    let block = |n: u64, kind: u64| -> String {
        match kind {
            0 => format!(".db \"{}\"\n", "x".repeat(n as usize)),
            1 => {
                let v: Vec<String> = (0..n).map(|k| (k % 256).to_string()).collect();
                format!(".db {}\n", v.join(","))
            }
            2 => (0..n).map(|k| format!(".db {}\n", k % 256)).collect(),
            _ => "cls\n".repeat((n / 2) as usize) + if n % 2 == 1 { ".db 5\n" } else { "" },
        }
    };
    let step = s.t(7, 1);
    let sizes: Vec<u64> = (1..=4097u64).filter(|n| n % step == 0 || *n < 40 || *n > 4060 || (n & (n - 1)) == 0 || ((n + 1) & n) == 0).collect();
    s.space(
        "end-of-memory",
        "blocks of many sizes 1..4097 (thorough: every size) placed so that they end 2 below to 2 above the end of memory, as one string, one list, single-byte directives or instructions",
        sizes.len() as u64 * 5 * 4,
        inproc(4_000),
        &|i| {
            let d = digits(i, &[5, 4, sizes.len() as u64]);
            let n = sizes[d[2]];
            let end = 4093 + d[0] as i64; // counter after the block: 4093..4097
            let org = end - n as i64;
            if org < 0 {
                return block(n, d[1] as u64).into_bytes();
            }
            format!(".org {}\n{}", org, block(n, d[1] as u64)).into_bytes()
        },
        &judge::full,
    );
    s.space(
        "split-blocks",
        "two consecutive elements (a string of each size class and an instruction or data) ending around the end of memory, and around page and record boundaries",
        12 * 40 * 3,
        CLI,
        &|i| {
            let d = digits(i, &[12, 40, 3]);
            let n = [1, 2, 15, 16, 17, 255, 256, 257, 1000, 2047, 2048, 4000][d[0]];
            let boundary = [4095i64, 256, 2048, 16][d[1] % 4];
            let org = (boundary - n as i64 - 2 + (d[1] / 4) as i64 - 4).max(0);
            let tail = ["cls\n", ".db 1,2\n", ".db 9\nL: jp L\n"][d[2]];
            format!(".org {}\n{}{}", org, block(n, 0), tail).into_bytes()
        },
        &judge::full,
    );
    let counts: Vec<u64> = (0..=2047).collect();
    s.space(
        "element-count",
        "n instructions, n one-byte directives, n labels and bytes, for every n up to 2047 (thorough) or every n up to 300 and every 13th",
        counts.iter().filter(|n| !s.quick() || **n < 300 || **n % 13 == 0).count() as u64 * 3,
        inproc(1_000),
        &|i| {
            let sel: Vec<u64> = counts.iter().copied().filter(|n| !s.quick() || *n < 300 || *n % 13 == 0).collect();
            let n = sel[(i / 3) as usize] as usize;
            match i % 3 {
                0 => "ret\n".repeat(n),
                1 => (0..n).map(|k| format!(".db {}\n", k % 251)).collect(),
                _ => (0..n).map(|k| format!("l{}: .db {}\n", k, k % 251)).collect::<String>() + "jp l0\n",
            }
            .into_bytes()
        },
        &judge::full,
    );
    let n = s.t(400u64, 2000);
    s.space(
        "section-count",
        "programs of n one-byte sections for every n up to 400 (thorough: 2000), ascending, descending and interleaved, with empty sections between",
        n * 3,
        CLI,
        &|i| {
            let m = i / 3 + 1;
            let mut t = String::new();
            for k in 0..m {
                let a = match i % 3 {
                    0 => 2 * k,
                    1 => 2 * (m - 1 - k),
                    _ => 2 * (if k % 2 == 0 { k / 2 } else { m - 1 - k / 2 }),
                };
                t.push_str(&format!(".org {}\n.db {}\n", a, k % 256));
                if k % 5 == 0 {
                    t.push_str(".org 4000\n");
                }
            }
            t.into_bytes()
        },
        &judge::full,
    );
    crate::props3::battery(s, &judge::full);
}

// ---------------------------------------------------------------- C06 and C18

/// The same sections with every byte equal: equal sections are then equal in content too.
fn uniform_sections(v: &[(u64, u64)], byte: u8) -> Vec<u8> {
    let mut t = String::new();
    for (a, n) in v {
        t.push_str(&format!(".org {}\n", a));
        if *n > 0 {
            t.push_str(&format!(".db {}\n", vec![byte.to_string(); *n as usize].join(",")));
        }
    }
    t.into_bytes()
}

fn sections_text(v: &[(u64, u64)]) -> Vec<u8> {
    let mut t = String::new();
    for (k, (a, n)) in v.iter().enumerate() {
        t.push_str(&format!(".org {}\n", a));
        if *n > 0 {
            if k % 2 == 1 && *n % 2 == 0 && *n <= 16 {
                t.push_str(&"cls\n".repeat((*n / 2) as usize));
            } else if *n <= 32 {
                let b: Vec<String> = (0..*n).map(|x| ((x + 16 * k as u64) % 256).to_string()).collect();
                t.push_str(&format!(".db {}\n", b.join(",")));
            } else {
                t.push_str(&format!(".db \"{}\"\n", "s".repeat(*n as usize)));
            }
        }
    }
    t.into_bytes()
}

fn sections(s: &Session, j: Judge) {
    // The same section over and over.
    s.space("repeated-sections", "2 to 12 sections of 1 to 20 bytes with the same contents (one value, counting up, or different for each), each 0 to 21 bytes after the one before, the last one apart or not", 11 * 20 * 22 * 3 * 2, inproc(6_000), &|i| {
        let d = digits(i, &[2, 3, 22, 20, 11]);
        let (n, len) = (d[4] + 2, d[3] + 1);
        let mut t = String::new();
        for k in 0..n {
            let at = if d[0] == 1 && k == n - 1 { 3000 } else { 16 + k * d[2] };
            let v: Vec<String> = (0..len).map(|x| [7, x, x + 31 * k][d[1]] % 256).map(|x| x.to_string()).collect();
            t.push_str(&format!(".org {}\n.db {}\n", at, v.join(",")));
        }
        t.into_bytes()
    }, j);
    let sx = [".org 16\n.db 1,2,3,4\n", ".org 16\n.db 1,2,3,5\n", ".org 18\n.db 1,2,3,4\n", ".org 16\n.db 1,2,3,4,5\n", ".org 20\n.db 1,2,3,4\n", ".org 14\n.db \"aaaaaaaa\"\n", ".org 16\n.db \"aaaa\"\n", ".org 40\n.db 1,2,3,4\n"];
    let kx = sx.len() as u64;
    s.space("repeated-arrangements", "every sequence of up to 6 (thorough: 7) of 8 sections of four and more bytes that are equal, equal in place or equal in contents", seqs(kx, 0, s.t(6, 7)), inproc(10_000), &|i| seq(kx, 0, i).iter().map(|x| sx[*x]).collect::<String>().into_bytes(), j);
    // Large and small sections of one byte value.
    let fl = [1u64, 2, 3, 15, 16, 17, 255, 256, 257, 1000, 2047, 2048, 2049, 3000, 4000];
    let nf = fl.len() as u64;
    s.space("filled-sections", "two sections of 15 x 15 lengths, each of a single byte value, equal or not, zero or not, at 7 relative places (disjoint, touching, overlapping by one, nested at the start, middle and end), in both orders", nf * nf * 7 * 3 * 2, inproc(10_000), &|i| {
        let d = digits(i, &[nf, nf, 7, 3, 2]);
        let (a, b) = (fl[d[0]] as i64, fl[d[1]] as i64);
        let base = 40i64;
        let off = [a, a - 1, 0, a - b, (a - b) / 2, -b, 1 - b][d[2]];
        let second = base + off;
        if second < 0 || base + a > 4095 || second + b > 4095 {
            return b"cls\n".to_vec();
        }
        let fill = |n: i64, v: u8| if v == 0 { format!(".db {}\n", vec!["0"; n as usize].join(",")) } else { format!(".db \"{}\"\n", (v as char).to_string().repeat(n as usize)) };
        let (va, vb) = [(b'a', b'a'), (b'a', b'b'), (0, 0)][d[3]];
        let x = format!(".org {}\n{}", base, fill(a, va));
        let y = format!(".org {}\n{}", second, fill(b, vb));
        if d[4] == 0 { x + &y } else { y + &x }.into_bytes()
    }, j);
    // Three sections in a window; lengths 0..4; at several bases including both ends of memory.
    let bases = [0u64, 0xFE, 0x7FE, 0x1F0, 0xFF6];
    let (w, l) = (6u64, 4u64);
    let one = w * l;
    s.space(
        "three-sections",
        "all triples of sections (start in a window of 6, length 0..3) at 5 bases including the first and last addresses",
        one.pow(3) * bases.len() as u64,
        inproc(70_000),
        &|i| {
            let d = digits(i, &[bases.len() as u64, w, l, w, l, w, l]);
            let v: Vec<(u64, u64)> = (0..3).map(|k| (bases[d[0]] + d[1 + 2 * k] as u64, d[2 + 2 * k] as u64)).collect();
            sections_text(&v)
        },
        j,
    );
    s.space(
        "three-sections-cli",
        "all triples of sections (start in a window of 5, length 1..3) at the first and last addresses, on the binary",
        15u64.pow(3) * 2,
        CLI,
        &|i| {
            let d = digits(i, &[2, 5, 3, 5, 3, 5, 3]);
            let base = [0u64, 0xFF7][d[0]];
            let v: Vec<(u64, u64)> = (0..3).map(|k| (base + d[1 + 2 * k] as u64, d[2 + 2 * k] as u64 + 1)).collect();
            sections_text(&v)
        },
        j,
    );
    s.space(
        "uniform-sections",
        "all sequences of up to 4 sections (start in a window of 4, length 0..3; thorough: up to 5 with length 0..2) whose bytes are all 0 or all 7, so that equal sections also agree in content",
        s.t(seqs(16, 0, 4), seqs(12, 0, 5)) * 2,
        inproc(20_000),
        &|i| {
            let (k, l) = s.t((16u64, 4usize), (12, 3));
            let v: Vec<(u64, u64)> = seq(k, 0, i / 2).iter().map(|x| (0x200 + (x / l) as u64, (x % l) as u64)).collect();
            uniform_sections(&v, [0u8, 7][(i % 2) as usize])
        },
        j,
    );
    s.space(
        "uniform-sections-cli",
        "all triples of the uniform sections, on the binary",
        16u64.pow(3) * 2,
        CLI,
        &|i| {
            let v: Vec<(u64, u64)> = digits(i / 2, &[16, 16, 16]).iter().map(|x| (0xFF8 + (x / 4) as u64, (x % 4) as u64)).collect();
            uniform_sections(&v, [0u8, 7][(i % 2) as usize])
        },
        j,
    );
    let (w4, l4) = s.t((4u64, 3u64), (5, 3));
    s.space(
        "four-sections",
        "all quadruples of sections (start in a window of 4, length 0..2; thorough: window 5) at 2 bases",
        (w4 * l4).pow(4) * 2,
        inproc(20_000),
        &|i| {
            let d = digits(i, &[2, w4, l4, w4, l4, w4, l4, w4, l4]);
            let base = [0x10u64, 0xFF8][d[0]];
            let v: Vec<(u64, u64)> = (0..4).map(|k| (base + d[1 + 2 * k] as u64, d[2 + 2 * k] as u64)).collect();
            sections_text(&v)
        },
        j,
    );
    s.space(
        "five-sections",
        "all quintuples of sections (start in a window of 4, length 1 or 2; thorough: 1 to 3) at the first address",
        s.t(8u64, 12).pow(5),
        inproc(20_000),
        &|i| {
            let l = s.t(2u64, 3);
            let v: Vec<(u64, u64)> = digits(i, &[4 * l; 5]).iter().map(|x| ((*x as u64) / l, (*x as u64) % l + 1)).collect();
            sections_text(&v)
        },
        j,
    );
    s.space(
        "byte-sections",
        "all sequences of 6 to 9 (thorough: 10) one-byte sections at the addresses 0 to 3 (longer: 0 to 2)",
        seqs(4, 6, s.t(8, 9)) + seqs(3, 9, s.t(9, 10)),
        inproc(20_000),
        &|i| {
            let first = seqs(4, 6, s.t(8, 9));
            let q = if i < first { seq(4, 6, i) } else { seq(3, 9, i - first) };
            uniform_sections(&q.iter().map(|x| (*x as u64, 1)).collect::<Vec<_>>(), 7)
        },
        j,
    );
    // Pairs with boundary starts and lengths, in both orders.
    let edge: Vec<u64> = vec![0, 1, 2, 3, 15, 16, 17, 127, 128, 129, 254, 255, 256, 257, 258, 511, 512, 513, 1023, 1024, 1025, 2047, 2048, 2049, 3000, 4000, 4080, 4092, 4093, 4094];
    let mut one: Vec<(u64, u64)> = Vec::new();
    for a in &edge {
        for n in &edge {
            if *n > 0 && a + n <= 4095 {
                one.push((*a, *n));
            }
        }
    }
    let m = one.len() as u64;
    s.space(
        "section-pairs",
        "all ordered pairs of sections whose starts and lengths are boundary values (30 of each) and fit in memory",
        m * m,
        inproc(30_000),
        &|i| sections_text(&[one[(i / m) as usize], one[(i % m) as usize]]),
        j,
    );
    // A small section swept across a large one.
    s.space(
        "sweep",
        "a section of 1 or 2 bytes at every address against a fixed section of length 1, 16, 256 or 2048, before and after it in the source",
        4094 * 2 * 4 * 2,
        inproc(16_000),
        &|i| {
            let d = digits(i, &[2, 4, 2, 4094]);
            let big = [(0x345, 1), (0x200, 16), (0x3FF, 256), (0x555, 2048)][d[1]];
            let n = (d[2] as u64 + 1).min(4095 - d[3] as u64);
            let small = (d[3] as u64, n);
            sections_text(&if d[0] == 0 { [big, small] } else { [small, big] })
        },
        j,
    );
    // Every colliding pair within a long list.
    let ns: Vec<u64> = s.t(vec![5, 9, 17, 33, 65, 100], vec![5, 9, 17, 33, 65, 100, 129, 257]);
    let mut sel: Vec<(u64, u64, u64)> = Vec::new();
    for n in &ns {
        for a in 0..*n {
            for b in a + 1..*n {
                sel.push((*n, a, b));
            }
        }
    }
    s.space(
        "long-lists",
        "lists of n disjoint sections (n = 5, 9, 17, 33, 65, 100; thorough also 129, 257) in which exactly the pair (i, j) collides, for every i < j",
        sel.len() as u64,
        inproc(12_000),
        &|i| {
            let (n, a, b) = sel[i as usize];
            let mut v: Vec<(u64, u64)> = (0..n).map(|k| (((k * 37) % n) * 8, 3)).collect();
            v[b as usize].0 = v[a as usize].0 + [2, 0, 1][(a % 3) as usize];
            sections_text(&v)
        },
        j,
    );
    s.space(
        "sparse-sections",
        "all sequences of 4 and 5 (thorough: also 6) sections of 1 or 2 bytes at the even addresses 0 to 10: all orders of disjoint, adjacent and colliding sections",
        seqs(12, 4, s.t(5, 6)),
        inproc(20_000),
        &|i| sections_text(&seq(12, 4, i).iter().map(|x| (2 * (*x as u64 / 2), 1 + *x as u64 % 2)).collect::<Vec<_>>()),
        j,
    );
    // Very long lists of one-byte sections, all disjoint but for at most one pair (beyond 4095 sections: for the excess).
    let ns: Vec<u64> = s.t(vec![500, 1000, 1023, 1025, 1500, 2047, 2049, 3000, 4000, 4094, 4100, 5000], vec![500, 600, 700, 800, 900, 1000, 1023, 1024, 1025, 1026, 1500, 2000, 2047, 2048, 2049, 2050, 2500, 3000, 3500, 4000, 4093, 4094, 4095, 4096, 4097, 4100, 5000, 6000, 8193]);
    let mut sel: Vec<(u64, u64, u64)> = Vec::new();
    for n in &ns {
        sel.push((*n, 0, 0));
        let at = [0, 1, n / 3, n - 2, n - 1];
        for a in 0..at.len() {
            for b in a + 1..at.len() {
                sel.push((*n, at[a], at[b]));
            }
        }
    }
    s.space(
        "very-long-lists",
        &format!("lists of n one-byte sections ({} values of n up to {}) in which no pair or exactly one of ten pairs near the ends and the middle collides", ns.len(), ns.last().unwrap()),
        sel.len() as u64,
        CLI,
        &|i| {
            let (n, a, b) = sel[i as usize];
            let mut v: Vec<(u64, u64)> = (0..n).map(|k| ((k * 1009) % 4095, 1)).collect();
            v[b as usize].0 = v[a as usize].0;
            sections_text(&v)
        },
        j,
    );
    // Implicit first section, reopened sections, adjacency chains.
    let shapes = [
        "cls\n", ".db 1\n", ".org 0\n", ".org 1\n", ".org 2\n", ".org 3\n", ".org 4\n", "cls\nret\n", ".db \"\"\n", "L:\n",
    ];
    s.space(
        "reopened",
        "all sequences up to length 6 over 10 fragments: data and instructions in the implicit first section and sections reopened at addresses 0..4",
        seqs(10, 0, s.t(5, 6)),
        inproc(40_000),
        &|i| seq(10, 0, i).iter().map(|k| shapes[*k].replace("L:", &format!("L{}:", i))).collect::<String>().into_bytes(),
        j,
    );
    s.space(
        "many-collisions",
        "n sections all at one address, n = 2..60, and n nested sections",
        59 * 2,
        CLI,
        &|i| {
            let n = i / 2 + 2;
            let v: Vec<(u64, u64)> = (0..n).map(|k| if i % 2 == 0 { (0x300, 1 + k % 3) } else { (0x300 + k, 2 * (n - k)) }).collect();
            sections_text(&v)
        },
        j,
    );
}

pub fn c06(s: &Session) {
    sections(s, &judge::collision);
    crate::props3::battery(s, &judge::collision);
}

pub fn c18(s: &Session) {
    s.assume("a report names a section as $first...$last (n bytes), as the tool prints it");
    sections(s, &judge::collision_report);
    crate::props3::battery(s, &judge::collision_report);
}

// ---------------------------------------------------------------- C12

pub fn scalar(i: u64) -> Option<char> {
    char::from_u32(i as u32)
}

pub fn c12(s: &Session) {
    let items = [
        "0", "255", "$7f", "\"a\"", "\"\"", "\"\u{e9}\"", "\"\\\"\"", "\"\\\\\"", "\"a,b\"", "\"; x\"", "\"\u{65e5}\u{672c}\"", "\"l1\nl2\"", "%1.1",
        "\"\\n\"", "\"\u{1F600}.:\"", "\"\\\u{e9}\"", "\" \"", "\"\t\"",
    ];
    let k = items.len() as u64;
    let wrap = |list: &str| format!("jp END\n.db {}\nEND: cls\n", list).into_bytes();
    let d = s.t(4, 5);
    s.space(
        "lists",
        "all item lists of length 1..4 (thorough: 5) over 18 items: numbers in three bases, empty, ASCII, escaped, multi-line and multi-byte strings; a label after the data is referenced before it",
        seqs(k, 1, d),
        inproc(60_000),
        &|i| wrap(&seq(k, 1, i).iter().map(|x| items[*x]).collect::<Vec<_>>().join(", ")),
        &judge::full,
    );
    s.space(
        "lists-cli",
        "all item lists of length 1..3 over the same items, with and without spaces and trailing comma, on the binary",
        seqs(k, 1, 3) * 3,
        CLI,
        &|i| {
            let v: Vec<&str> = seq(k, 1, i / 3).iter().map(|x| items[*x]).collect();
            match i % 3 {
                0 => wrap(&v.join(",")),
                1 => wrap(&v.join(" , ")),
                _ => wrap(&(v.join(",\t") + ",")),
            }
        },
        &judge::full,
    );
    s.space(
        "byte-values",
        "every byte value at every place of lists of length 1..8 of otherwise fixed values, and each repeated 33 times",
        256 * 9,
        CLI,
        &|i| {
            let b = i / 9;
            let p = i % 9;
            if p == 8 {
                return wrap(&vec![b.to_string(); 33].join(","));
            }
            let v: Vec<String> = (0..8).map(|k| if k == p { b } else { 7 }.to_string()).collect();
            wrap(&v[..(p as usize + 1)].join(","))
        },
        &judge::full,
    );
    // All Unicode scalars inside a string, in runs.
    let run = 512u64;
    let n = 0x110000 / run;
    s.space(
        "unicode",
        "every Unicode scalar value inside strings (quote and backslash escaped), 512 per program, plain or each in its own item",
        n * 2,
        CLI,
        &|i| {
            let a = (i / 2) * run;
            let mut t = String::from("jp END\n");
            let esc = |c: char| if c == '"' || c == '\\' { format!("\\{}", c) } else { c.to_string() };
            if i % 2 == 0 {
                t.push_str(".db \"");
                for c in (a..a + run).filter_map(scalar) {
                    t.push_str(&esc(c));
                }
                t.push_str("\"\n");
            } else {
                t.push_str(".db 1");
                for c in (a..a + run).filter_map(scalar) {
                    t.push_str(&format!(", \"{}\"", esc(c)));
                }
                t.push('\n');
            }
            t.push_str("END: cls\n");
            t.into_bytes()
        },
        &judge::full,
    );
    s.space(
        "escapes",
        "a backslash before every Unicode scalar value (256 per program; the line feed alone must be refused)",
        0x110000 / 256 + 1,
        CLI,
        &|i| {
            if i == 0x110000 / 256 {
                return wrap("\"\\\n\"");
            }
            let a = i * 256;
            let mut t = String::from("jp END\n.db 0");
            for c in (a..a + 256).filter_map(scalar).filter(|c| *c != '\n') {
                t.push_str(&format!(", \"\\{}x\"", c));
            }
            t.push_str("\nEND: cls\n");
            t.into_bytes()
        },
        &judge::full,
    );
    let sq = ["a", "\\", "\"", "\n", "\u{e9}", ",", ";", " "];
    s.space(
        "string-bodies",
        "all texts up to length 6 (thorough: 7) over 8 characters (letter, backslash, quote, line feed, accented, comma, semicolon, space) between two quotes",
        seqs(8, 0, s.t(6, 7)),
        inproc(40_000),
        &|i| {
            let b: String = seq(8, 0, i).iter().map(|x| sq[*x]).collect();
            format!("jp END\n.db \"{}\", 9\nEND: cls\n", b).into_bytes()
        },
        &judge::full,
    );
    let cq = ["a", "\\", "\r", "\n", "\t", "\u{feff}", "\0", "x", "4", "1", "n", "{", "u", "}", "'", "\u{65e5}"];
    s.space(
        "string-controls",
        "all texts up to length 4 (thorough: 5) over 16 characters (carriage return, line feed, tab, NUL, byte order mark, the letters and digits of escape sequences of other languages) between two quotes",
        seqs(16, 0, s.t(4, 5)),
        inproc(70_000),
        &|i| {
            let b: String = seq(16, 0, i).iter().map(|x| cq[*x]).collect();
            format!("jp END\n.db \"{}\", 9\nEND: cls\n", b).into_bytes()
        },
        &judge::full,
    );
    let esc = ["\\n", "\\r", "\\t", "\\0", "\\x41", "\\u{41}", "\\u0041", "\\101", "\\\\", "\\\"", "\\'", "\\a", "\\e", "\\$", "%41", "&quot;", "''", "$41", "\r\n", "\n", " \n ", ";", "\t", "  "];
    s.space(
        "escape-texts",
        "all strings of up to 3 of 24 fragments that look like escapes, comments, line ends or doubled blanks, on the binary",
        seqs(24, 0, 3),
        CLI,
        &|i| {
            let b: String = seq(24, 0, i).iter().map(|x| esc[*x]).collect();
            format!("jp END\n.db 1, \"{}\"\nEND: cls\n", b).into_bytes()
        },
        &judge::full,
    );
    let ns: Vec<u64> = (1..=4095).collect();
    s.space(
        "lengths",
        "every list length and every string length 1..4095 (strings of 1-, 2-, 3- and 4-byte characters), and pairs of strings",
        ns.len() as u64 * 6,
        inproc(8_000),
        &|i| {
            let n = ns[(i / 6) as usize] as usize;
            let d = match i % 6 {
                0 => {
                    let v: Vec<String> = (0..n).map(|k| ((k * 7) % 256).to_string()).collect();
                    v.join(",")
                }
                1 => format!("\"{}\"", (0..n).map(|k| (b'a' + (k % 26) as u8) as char).collect::<String>()),
                2 => format!("\"{}\"", "\u{e9}".repeat(n / 2)),
                3 => format!("\"{}\"", "\u{65e5}".repeat(n / 3)),
                4 => format!("\"{}\"", "\u{1F600}".repeat(n / 4)),
                _ => format!("\"{}\", 3, \"{}\"", "p".repeat(n / 2), "q".repeat(n - n / 2)),
            };
            format!(".db {}\nEND:\n", d).into_bytes()
        },
        &judge::full,
    );
    s.space(
        "lengths-cli",
        "list and string lengths 1..600, and around powers of two and the end of memory, on the binary",
        680 * 2,
        CLI,
        &|i| {
            let j = (i / 2) as usize;
            let n = if j < 600 { j + 1 } else { [1023usize, 2047, 4000, 4060, 4080, 4085, 4088, 4090][(j - 600) / 10] + (j - 600) % 10 };
            let d = if i % 2 == 0 {
                (0..n).map(|k| ((k * 11) % 256).to_string()).collect::<Vec<_>>().join(",")
            } else {
                format!("\"{}\"", (0..n).map(|k| (b'A' + (k % 26) as u8) as char).collect::<String>())
            };
            format!(".db {}\n", d).into_bytes()
        },
        &judge::full,
    );
    crate::props3::battery(s, &judge::full);
}

// ---------------------------------------------------------------- C13

pub fn c13(s: &Session) {
    let a = [
        "A:", "\n", "; note\n", ".equ 7\n", "jp A\n", "Bx:", ".equ $ABC\n", "jp Bx\n", "cls\n", ".db 1\n", ".org $20\n", ".equ\n", ".equ 1, 2\n", "ld v1, A\n", ".equ \"x\"\n", ".EQU 0\n",
        "drw v1, v2, Bx\n",
    ];
    let k = a.len() as u64;
    s.space(
        "sequences",
        "all sequences up to length 5 over 17 fragments: two labels, five well- and ill-formed constant directives, line breaks and comments in between, uses in four field widths, data, instruction, origin",
        seqs(k, 0, s.t(5, 5)),
        inproc(100_000),
        &statements(&a, " "),
        &judge::full,
    );
    s.space("sequences-cli", "the same sequences up to length 4, on the binary", seqs(k, 0, s.t(4, 4)), CLI, &statements(&a, " "), &judge::full);
    // The directive's name in every letter case, with every kind of gap around it.
    let patterns = [".equ", ".Equ", ".eQu", ".EQu", ".eqU", ".EqU", ".eQU", ".EQU"];
    let gaps = ["A: ", "A:", "A:\n", "A: ; note\n", "A:\r\n\t", "A: Bx: ", "A: .db 1\n", "A: .ORG 5\n", "A: .eQu 3\n", "cls\nA:\n\n\n"];
    let values = ["0", "7", "$2A", "#FFF", "%1.1", "4095", "256", "15"];
    s.space(
        "equ-spellings",
        "the 8 letter cases of .equ x 10 texts before x 8 values x 8 uses, in one place and repeated under a second name in every other letter case",
        8 * 10 * 8 * 8 * 9,
        inproc(20_000),
        &|i| {
            let d = digits(i, &[9, 8, 8, 10, 8]);
            let second = if d[0] == 0 { String::new() } else { format!("Q_2: {} {}\n", patterns[d[0] - 1], values[(d[2] + d[0]) % 8]) };
            let uses = ["jp A", "ld i, A", "ld v3, A", "drw v1, v2, A", "JP V0, A", "call A", ".db 1", "rnd v1, A"];
            format!("{}{} {}\n{}{}\n{}", gaps[d[3]], patterns[d[4]], values[d[2]], second, uses[d[1]], if d[0] > 0 { "jp Q_2\n" } else { "" }).into_bytes()
        },
        &judge::full,
    );
    let b = ["A:", "Bx:", ".equ 7", ".equ $ABC", "jp A", "jp Bx", ".db 1", ".org $20", "cls"];
    s.space(
        "deep-sequences",
        "all sequences up to length 6 (thorough: 7) over 9 well-formed statements",
        seqs(9, 0, s.t(6, 7)),
        inproc(60_000),
        &statements(&b, "\n"),
        &judge::full,
    );
    let c = ["LA:", "LB:", "LC:", "LD: .equ 7\n", "LE: .equ $ABC\n", "LF:\n.equ 0\n", "jp LA\n", "ld i, LD\n", "add v1, LF\n", ".db 9\n", ".org $20\n", "LG: ; c\n\n .EQU %1.1\n"];
    s.space(
        "closed-sequences",
        "all sequences up to length 5 (thorough: 6) over 12 definitions, constants, uses, data and origins, closed so that every name used is defined",
        seqs(12, 0, s.t(5, 6)),
        inproc(60_000),
        &|i| {
            let q = seq(12, 0, i);
            let mut t = String::from("jp LA\ncall LB\nld i, LC\njp v0, LD\nld i, LE\nse v2, LF\n.org $100\n");
            for x in &q {
                t.push_str(c[*x]);
            }
            t.push_str(".org $200\njp LE\ndrw v1, v2, LF\n");
            for (n, d) in c[..6].iter().enumerate() {
                if !q.contains(&n) {
                    t.push_str(d);
                    if n < 3 {
                        t.push_str("cls\n");
                    }
                }
            }
            t.into_bytes()
        },
        &judge::full,
    );
    s.space(
        "repeated-constants",
        "a label and two constant directives behind it, the first of every value, the second of the same, the next or no value or zero, in 3 spellings of the directive, together or apart: always rejected",
        4096 * 3 * 3 * 3,
        inproc(8_000),
        &|i| {
            let d = digits(i, &[3, 3, 3, 4096]);
            let second = [d[3], (d[3] + 1) % 4096, 0][d[0]];
            let e = ["equ", "EQU", "Equ"][d[1]];
            format!("A: .{} {}\n{}.{} {}\njp A\n", e, d[3], ["", "\n; c\n", "cls\n"][d[2]], e, second).into_bytes()
        },
        &judge::full,
    );
    let uses: Vec<&Form> = forms().iter().filter(|f| f.value_limit().is_some()).collect();
    let nu = uses.len() as u64;
    s.space(
        "values",
        "every value 0..4095 bound to a label by a constant in one of three notations x every instruction with a value field, definition before or after the use, judged against the literal",
        4096 * nu * 2,
        inproc(60_000),
        &|i| {
            let d = digits(i, &[2, nu, 4096]);
            let t = uses[d[1]].text("V2", "V9", "K1");
            let v = match d[2] % 3 {
                0 => d[2].to_string(),
                1 => format!("${:X}", d[2]),
                _ => format!("%{:b}", d[2]),
            };
            if d[0] == 0 {
                format!("K1: .equ {}\n{}\nE: jp E\n", v, t).into_bytes()
            } else {
                format!("{}\nK1:\n\n; c\n.EQU {}\nE: jp E\n", t, v).into_bytes()
            }
        },
        &judge::full,
    );
    s.space(
        "values-cli",
        "every value 0..4095 as a constant used by a jump, on the binary",
        4096,
        CLI,
        &|i| format!("cls\nK1: .equ {}\nA: jp K1\njp A\n", i).into_bytes(),
        &judge::full,
    );
    // Constants leave everything around them in place.
    s.space(
        "many-constants",
        "n constants between instructions and labels, n = 0..700: nothing moves",
        701,
        CLI,
        &|i| {
            let mut t = String::from("S: jp E\n");
            for k in 0..i {
                t.push_str(&format!("c{}: .equ {}\nl{}: ld i, c{}\n", k, (k * 13) % 4096, k, (k * 5) % i));
            }
            t.push_str("E: jp S\n");
            t.into_bytes()
        },
        &judge::full,
    );
    s.space(
        "gaps",
        "a label and its constant separated by every sequence up to length 4 of {line break, comment line, blank, CRLF, another label, empty data}",
        seqs(6, 0, 4) * 2,
        CLI,
        &|i| {
            let g = ["\n", ";c\n", " \t", "\r\n", "M:", ".db \"\"\n"];
            let q = seq(6, 0, i / 2);
            let gap: String = q.iter().enumerate().map(|(k, x)| if *x == 4 { format!("M{}:", k) } else { g[*x].to_string() }).collect();
            if i % 2 == 0 { format!("cls\nK1:{}.equ 9\njp K1\n", gap) } else { format!("jp K1\nK1:{}.equ 9 cls\n", gap) }.into_bytes()
        },
        &judge::full,
    );
    crate::props3::battery(s, &judge::full);
}

// ---------------------------------------------------------------- C17

pub fn c17(s: &Session) {
    let toks = ["cls", "\n", ",", ":", ".", "db", "1", "\"s\"", "; c\n", "jp", "v0", "org", "L", "$F", "[i]", "equ", "?", "ld"];
    let k = s.t(16u64, 18);
    let join = |q: &[usize]| -> Vec<u8> { q.iter().map(|x| toks[*x]).collect::<Vec<_>>().join(" ").into_bytes() };
    s.space(
        "token-sequences",
        "all token sequences up to length 5 over 16 tokens (thorough: 18)",
        seqs(k, 0, 5),
        inproc(80_000),
        &|i| join(&seq(k, 0, i)),
        &judge::full,
    );
    if !s.quick() {
        let sub = [0usize, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12];
        s.space("token-sequences-6", "all token sequences of length 6 over 13 tokens", 13u64.pow(6), inproc(0), &|i| {
            let q: Vec<usize> = digits(i, &[13; 6]).iter().map(|x| sub[*x]).collect();
            join(&q)
        }, &judge::full);
    }
    s.space(
        "token-sequences-cli",
        "all token sequences up to length 4 over 16 tokens, on the binary",
        seqs(16, 0, 4),
        CLI,
        &|i| join(&seq(16, 0, i)),
        &judge::full,
    );
    // Statement-level: complete statements and fragments in every order on shared lines.
    let frag = ["cls\n", ".db 1, 2", "L: ", "jp 5", ", ", "\n", "; x\n", "ld v0, v1", ".org 9", "ret ,", "v2", ": ", "\"t\"", "3"];
    let kf = frag.len() as u64;
    s.space(
        "fragments",
        "all sequences up to length 5 over 14 statement fragments, with and without a final line break",
        seqs(kf, 0, s.t(5, 5)) * 2,
        inproc(80_000),
        &|i| {
            let mut t: String = seq(kf, 0, i / 2).iter().map(|x| frag[*x].to_string() + " ").collect();
            if i % 2 == 1 {
                t.push('\n');
            }
            t.into_bytes()
        },
        &judge::full,
    );
    // Several statements per line, in order.
    let st = ["ld v1, v2", ".db 7", "jp $20", "M: ", "cls\n", ".org $40", "drw v1,v2,3", ".db \"z\",1,", "ret ;\n", "\n", "N: .equ 5"];
    let ks = st.len() as u64;
    s.space(
        "statements",
        "all sequences up to length 6 (thorough: 7 over 8) of complete statements sharing lines",
        s.t(seqs(ks, 0, 5), seqs(ks, 0, 6)),
        inproc(80_000),
        &|i| {
            let mut t: String = seq(ks, 0, i).iter().enumerate().map(|(p, x)| st[*x].replace('M', &format!("M{}", p)).replace('N', &format!("N{}", p)) + " ").collect();
            t.push('\n');
            t.into_bytes()
        },
        &judge::full,
    );
    // Characters without separators.
    let ch: Vec<char> = "a1.:,\n\";$%[i] vF0".chars().collect();
    let kc = ch.len() as u64;
    s.space(
        "characters",
        "all strings up to length 5 over 17 characters",
        seqs(kc, 0, 5),
        inproc(80_000),
        &|i| seq(kc, 0, i).iter().map(|x| ch[*x]).collect::<String>().into_bytes(),
        &judge::full,
    );
    // One-token edits of the sample programs.
    for name in ["test.S", "test_constants.S", "test_directives.S", "test_special_instructions.S", "test_standard_instructions.S", "test_PONG.S"] {
        let text = match std::fs::read_to_string(s.paths.verif.join("samples").join(name)) {
            Ok(t) => t,
            Err(_) => continue,
        };
        let spans = token_spans(&text);
        let ins = ["cls", ",", ":", ".", "1", "\"s\"", "\n", ";", "v0", "zz", "?"];
        let n = spans.len() as u64;
        let per = 2 + 2 * ins.len() as u64;
        s.space(
            &format!("edits-{}", name.trim_end_matches(".S")),
            "every one-token deletion, duplication, replacement and insertion (11 tokens) in the sample program",
            n * per + 1,
            inproc(6_000),
            &|i| {
                if i == n * per {
                    return text.clone().into_bytes();
                }
                let (a, b) = spans[(i / per) as usize];
                let e = (i % per) as usize;
                let mut t = String::new();
                t.push_str(&text[..a]);
                match e {
                    0 => {}
                    1 => {
                        t.push_str(&text[a..b]);
                        t.push(' ');
                        t.push_str(&text[a..b]);
                    }
                    e if e < 2 + ins.len() => t.push_str(ins[e - 2]),
                    e => {
                        t.push_str(ins[e - 2 - ins.len()]);
                        t.push(' ');
                        t.push_str(&text[a..b]);
                    }
                }
                t.push_str(&text[b..]);
                t.into_bytes()
            },
            &judge::full,
        );
    }
    crate::props3::letters_space(s, &judge::full);
    crate::props3::battery(s, &judge::full);
}

/// Byte spans of the tokens of a well-formed text (comments left out).
pub fn token_spans(text: &str) -> Vec<(usize, usize)> {
    let mut tr = crate::model::Trace::default();
    let toks = crate::model::scan(text, &mut tr);
    let starts: Vec<usize> = {
        // Line start offsets.
        let mut v = vec![0];
        for (i, c) in text.char_indices() {
            if c == '\n' {
                v.push(i + 1);
            }
        }
        v
    };
    toks.iter()
        .filter(|(t, _)| !matches!(t, crate::model::Tok::Comment))
        .map(|(t, l)| {
            let ls = starts[l.line - 1];
            let rest = &text[ls..];
            let off = |n: usize| rest.char_indices().nth(n).map(|(i, _)| i).unwrap_or(rest.len());
            let a = ls + off(l.col - 1);
            match t {
                crate::model::Tok::Str(s) => (a, a + s.len() + 2), // may span lines
                _ => (a, ls + off(l.col - 1 + l.len)),
            }
        })
        .collect()
}
