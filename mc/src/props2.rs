//! The spaces explored for output, diagnostics, robustness, environment, command-line and fault properties.

use crate::engine::*;
use crate::exec::*;
use crate::judge;
use crate::model::{self, forms, Outcome, Slot, Tok, Trace};
use crate::props::{inproc, token_spans, CLI};
use std::collections::{BTreeMap, BTreeSet, HashSet};
use std::path::Path;
use std::sync::atomic::{AtomicU64, Ordering::Relaxed};
use std::sync::Mutex;
use std::time::Instant;

fn sample_programs(s: &Session) -> Vec<(String, String)> {
    ["test.S", "test_constants.S", "test_directives.S", "test_special_instructions.S", "test_standard_instructions.S", "test_PONG.S"]
        .iter()
        .filter_map(|n| std::fs::read_to_string(s.paths.verif.join("samples").join(n)).ok().map(|t| (n.trim_end_matches(".S").to_string(), t)))
        .collect()
}

fn db(bytes: impl Iterator<Item = u8>) -> String {
    let v: Vec<String> = bytes.map(|b| b.to_string()).collect();
    format!(".db {}\n", v.join(","))
}

fn expect(src: &[u8]) -> Outcome {
    model::run(src, &mut Trace::default())
}

fn case_files(src: &[u8], text: String) -> Vec<(String, Vec<u8>)> {
    vec![("in.S".into(), src.to_vec()), ("case.txt".into(), text.into_bytes())]
}

// ---------------------------------------------------------------- C07

pub fn c07(s: &Session) {
    let bases: Vec<u64> = vec![0, 1, 0x0F8, 0x1FF, 0x200, 0x7F1];
    let nb = bases.len() as u64 + 1;
    s.space(
        "lengths",
        "one section of every length 0..4095 at 6 bases and ending exactly at the last address, byte pattern depending on length",
        4096 * nb,
        inproc(4096 * 2),
        &|i| {
            let d = digits(i, &[nb, 4096]);
            let len = d[1] as u64;
            let base = if d[0] as u64 == nb - 1 { 4095 - len } else { bases[d[0]] };
            let mut t = format!(".org {}\n", base);
            if len > 0 {
                t.push_str(&db((0..len).map(|k| (k * 7 + len) as u8)));
            }
            t.into_bytes()
        },
        &judge::hex_exact,
    );
    s.space(
        "lengths-cli",
        "one section of every length 0..4095 at base 0, on the binary",
        4096,
        CLI,
        &|i| if i == 0 { b".org 0\n".to_vec() } else { db((0..i).map(|k| (k * 11 + 3) as u8)).into_bytes() },
        &judge::hex_exact,
    );
    let lens = [1u64, 2, 8, 15, 16, 17, 31, 32, 33, 48, 255, 256, 257];
    s.space(
        "addresses",
        "every start address x 13 lengths around the record size",
        4096 * lens.len() as u64,
        inproc(30_000),
        &|i| {
            let d = digits(i, &[4096, lens.len() as u64]);
            let t = format!(".org {}\n{}", d[0], db((0..lens[d[1]]).map(|k| (k as u8).wrapping_mul(13).wrapping_add(d[0] as u8))));
            t.into_bytes()
        },
        &judge::hex_exact,
    );
    s.space(
        "addresses-cli",
        "every start address with a 17-byte section, on the binary",
        4096,
        CLI,
        &|i| format!(".org {}\n{}", i, db((0..17).map(|k| (k + i) as u8))).into_bytes(),
        &judge::hex_exact,
    );
    s.space(
        "bytes",
        "every byte value in every column of records of length 1..16",
        256 * 136,
        inproc(35_000),
        &|i| {
            let b = (i % 256) as u8;
            let mut k = i / 256;
            let mut len = 1;
            while k >= len {
                k -= len;
                len += 1;
            }
            db((0..len).map(|c| if c == k { b } else { 0x40 })).into_bytes()
        },
        &judge::hex_exact,
    );
    s.space(
        "checksums",
        "every low address byte x every byte value x 4 high address digits (all checksum residues and carries)",
        65536 * 4,
        inproc(20_000),
        &|i| {
            let d = digits(i, &[4, 256, 256]);
            let a = ([0usize, 1, 7, 15][d[0]] << 8) + d[1];
            format!(".org {}\n.db {}\n", a.min(4094), d[2]).into_bytes()
        },
        &judge::hex_exact,
    );
    s.space(
        "fills",
        "every byte value repeated to every length 1..64 (thorough: 1..160)",
        256 * s.t(64, 160),
        inproc(16_384),
        &|i| db((0..i / 256 + 1).map(|_| (i % 256) as u8)).into_bytes(),
        &judge::hex_exact,
    );
    s.space(
        "byte-pairs",
        "every pair of byte values as a two-byte section, and as the last byte of one record and the first of the next",
        65536 * 2,
        inproc(20_000),
        &|i| {
            let (a, b) = ((i / 512) as u8, (i / 2 % 256) as u8);
            if i % 2 == 0 { format!(".db {},{}\n", a, b) } else { format!(".db \"0123456789abcde\",{},{}\n", a, b) }.into_bytes()
        },
        &judge::hex_exact,
    );
    // Record contents: blank, uniform and repeated records in every order.
    let kinds: [fn(u64) -> u8; 8] = [|_| 0, |_| 0xFF, |k| k as u8 + 1, |_| 0x20, |k| (k == 15) as u8, |k| (k == 0) as u8, |k| (k % 2) as u8, |k| 0xFF - (k as u8 % 2)];
    let tails = [0u64, 1, 15];
    let hi = s.t(4u32, 5);
    let records = move |i: u64| {
        let nk = 8u64;
        let q = seq(nk, 0, i / 6);
        let mut bytes: Vec<u8> = q.iter().flat_map(|k| (0..16).map(move |c| kinds[*k](c))).collect();
        let (tail, fill) = (tails[(i % 6 / 2) as usize], [0u8, 0xFF][(i % 2) as usize]);
        bytes.extend(std::iter::repeat(fill).take(tail as usize));
        let org = [0u64, 0x1FB, 0x208][(i / 6 % 3) as usize];
        if bytes.is_empty() {
            return format!(".org {}\n", org).into_bytes();
        }
        format!(".org {}\n{}", org, db(bytes.into_iter())).into_bytes()
    };
    s.space(
        "record-contents",
        "all sequences of up to 4 (thorough: 5) records over 8 contents (all zero, all FF, ascending, blank, zero but the last or first byte, alternating) x 3 tail lengths x 2 tail fills",
        seqs(8, 0, hi) * 6,
        inproc(20_000),
        &records,
        &judge::hex_exact,
    );
    s.space("record-contents-cli", "the same with up to 3 records, on the binary", seqs(8, 0, 3) * 6, CLI, &records, &judge::hex_exact);
    // Equal sections, blank sections and repeated contents in every order.
    let contents = [".db 0\n", ".db 7\n", ".db 7,7\n", ".db 0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0\n", "nop\n", ".db 255\n", ".db \"\"\n"];
    s.space(
        "equal-sections",
        "all sequences of up to 4 (thorough: 5) sections, disjoint, in ascending or descending order, over 7 contents (equal, blank, empty)",
        seqs(7, 0, s.t(4, 5)) * 2,
        inproc(20_000),
        &|i| {
            let q = seq(7, 0, i / 2);
            let n = q.len();
            q.iter().enumerate().map(|(k, x)| format!(".org {}\n{}", 32 * if i % 2 == 0 { k } else { n - k }, contents[*x])).collect::<String>().into_bytes()
        },
        &judge::hex_exact,
    );
    // Several sections in every order.
    let place: Vec<(u64, u64)> = vec![(0, 1), (0, 16), (16, 15), (0x100, 17), (0x111, 33), (0x132, 16), (0x1F0, 16), (0x200, 32), (0xFFE, 1), (0xF00, 255), (0x300, 0), (0x2FF, 1)];
    let kp = place.len() as u64;
    let hi = s.t(4u32, 5);
    let sections = |i: u64| {
        let mut t = String::new();
        for (n, x) in seq(kp, 0, i).iter().enumerate() {
            let (a, l) = place[*x];
            t.push_str(&format!(".org {}\n", a));
            if l > 0 {
                t.push_str(&db((0..l).map(|k| (k as usize * 3 + n * 29 + x) as u8)));
            }
        }
        t.into_bytes()
    };
    s.space("sections", "all sequences of up to 4 (thorough: 5) of 12 sections of various placement and length", seqs(kp, 0, hi), inproc(20_000), &sections, &judge::hex_exact);
    s.space("sections-cli", "all sequences of up to 3 of the 12 sections, on the binary", seqs(kp, 0, 3), CLI, &sections, &judge::hex_exact);
    // Sections built from several elements: record boundaries do not follow element boundaries.
    let el = ["cls\n", ".db 1\n", ".db \"0123456789abcdef\"\n", ".db \"0123456789abcde\"\n", ".org $80\n", "X: \n", "drw v1,v2,3\n", ".db \"\"\n"];
    let ke = el.len() as u64;
    let elems = |i: u64| {
        let mut t: String = String::new();
        for (n, x) in seq(ke, 0, i).iter().enumerate() {
            t.push_str(&el[*x].replace('X', &format!("X{}", n)));
        }
        t.into_bytes()
    };
    s.space("elements", "all sequences of up to 5 (thorough: 6) of 8 elements", seqs(ke, 0, s.t(5, 6)), inproc(20_000), &elems, &judge::hex_exact);
    // The same through a file.
    let t0 = Instant::now();
    let n = seqs(kp, 0, s.t(3, 4));
    let distinct = Mutex::new(HashSet::new());
    let done = s.par(n, 8, |t| s.server(&format!("f{}", t)), |srv, a, b| {
        for i in a..b {
            let src = sections(i);
            let want = expect(&src);
            let Outcome::Accept(sec) = &want else { continue };
            let dir = srv.dir.clone();
            std::fs::write(dir.join("in.S"), &src).unwrap();
            let _ = std::fs::remove_file(dir.join("o.hex"));
            if i % 2 == 1 {
                std::fs::write(dir.join("o.hex"), vec![b'#'; 20_000]).unwrap();
                make_rw(&dir.join("o.hex"));
            }
            let mut req = standard_request(&dir);
            req.argv = args(&["c8s", "in.S", "-o", "o.hex"]);
            let got = srv.run(&req).expect("run");
            s.cli_runs.fetch_add(1, Relaxed);
            s.traces.fetch_add(1, Relaxed);
            let file = std::fs::read(dir.join("o.hex")).unwrap_or_default();
            distinct.lock().unwrap().insert(model::mix_bytes(0, &file));
            if got.status != Status::Exit(0) || file != model::hex_text(sec).as_bytes() {
                s.violate(Violation {
                    space: "sections-file".into(),
                    idx: i,
                    why: format!("{}: the file written with -o is not the expected I8HEX text ({})", status_text(&got.status), show(&src)),
                    files: case_files(&src, format!("c8s in.S -o o.hex\nexpected\n{}\nfound\n{}\n", model::hex_text(sec), String::from_utf8_lossy(&file))),
                });
            }
        }
    });
    let d = distinct.lock().unwrap().len() as u64;
    s.report_space("sections-file", "the section sequences written through -o, new and over a longer existing file", "c8s binary", n, done, d, t0);
    crate::props3::battery(s, &judge::hex_exact);
}

pub fn args(v: &[&str]) -> Vec<Vec<u8>> {
    v.iter().map(|x| x.as_bytes().to_vec()).collect()
}

fn make_rw(p: &Path) {
    use std::os::unix::fs::PermissionsExt;
    let _ = std::fs::set_permissions(p, std::fs::Permissions::from_mode(0o666));
}

// ---------------------------------------------------------------- C08

#[derive(Clone, PartialEq, Eq, Debug)]
enum Node {
    Absent,
    Dir,
    File(Vec<u8>),
    Link(String, Box<Node>),
    Other,
}

fn node(p: &Path) -> Node {
    use std::os::unix::fs::FileTypeExt;
    match std::fs::symlink_metadata(p) {
        Err(_) => Node::Absent,
        Ok(m) if m.is_dir() => Node::Dir,
        Ok(m) if m.file_type().is_symlink() => {
            let t = std::fs::read_link(p).map(|x| x.to_string_lossy().into_owned()).unwrap_or_default();
            let inner = match std::fs::metadata(p) {
                Err(_) => Node::Absent,
                Ok(m) if m.is_file() => Node::File(std::fs::read(p).unwrap_or_default()),
                Ok(m) if m.is_dir() => Node::Dir,
                Ok(_) => Node::Other,
            };
            Node::Link(t, Box::new(inner))
        }
        Ok(m) if m.file_type().is_char_device() => Node::Other,
        Ok(m) if m.is_file() => Node::File(std::fs::read(p).unwrap_or_default()),
        Ok(_) => Node::Other,
    }
}

fn wipe(dir: &Path) {
    // Only entries of the check's own scratch directory.
    if let Ok(rd) = std::fs::read_dir(dir) {
        for e in rd.flatten() {
            let p = e.path();
            match std::fs::symlink_metadata(&p) {
                Ok(m) if m.is_dir() => {
                    let _ = std::fs::remove_dir_all(&p);
                }
                Ok(_) => {
                    let _ = std::fs::remove_file(&p);
                }
                Err(_) => {}
            }
        }
    }
}

#[derive(Clone)]
enum Input {
    Text(Vec<u8>),
    Missing,
    Directory,
    Unreadable,
}

const DESTS: [&str; 18] = [
    "stdout", "absent", "empty", "shorter", "longer", "same", "same-size", "extends", "default", "default-existing", "symlink", "dangling", "self", "self-link", "hard-link", "directory", "no-parent", "read-only",
];

struct Scenario {
    name: String,
    input: Input,
    dest: &'static str,
    depth: usize,
}

impl Scenario {
    fn out_name(&self) -> &'static str {
        match self.dest {
            "stdout" => "-",
            "default" | "default-existing" => "a.hex",
            "self" => "in.S",
            "no-parent" => "nowhere/out.hex",
            _ => "out.hex",
        }
    }
    fn setup(&self, dir: &Path, result: &str) {
        wipe(dir);
        let inp = dir.join("in.S");
        match &self.input {
            Input::Text(t) => {
                std::fs::write(&inp, t).unwrap();
                make_rw(&inp);
            }
            Input::Missing => {}
            Input::Directory => std::fs::create_dir(&inp).unwrap(),
            Input::Unreadable => {
                use std::os::unix::fs::PermissionsExt;
                std::fs::write(&inp, b"cls\n").unwrap();
                std::fs::set_permissions(&inp, std::fs::Permissions::from_mode(0)).unwrap();
            }
        }
        let put = |n: &str, b: &[u8]| {
            std::fs::write(dir.join(n), b).unwrap();
            make_rw(&dir.join(n));
        };
        match self.dest {
            "shorter" => put("out.hex", b":0\n"),
            "longer" => put("out.hex", &[b'z'; 9000]),
            "same" => put("out.hex", result.as_bytes()),
            "empty" => put("out.hex", b""),
            "same-size" => put("out.hex", &vec![b'x'; result.len().max(13)]),
            "extends" => put("out.hex", &[result.as_bytes(), b":0100000055AA\n"].concat()),
            "default-existing" => put("a.hex", b"precious\n"),
            "symlink" => {
                put("target", &[b'y'; 300]);
                std::os::unix::fs::symlink("target", dir.join("out.hex")).unwrap();
            }
            "self-link" => std::os::unix::fs::symlink("in.S", dir.join("out.hex")).unwrap(),
            "hard-link" => {
                let _ = std::fs::hard_link(&inp, dir.join("out.hex"));
            }
            "dangling" => std::os::unix::fs::symlink("target", dir.join("out.hex")).unwrap(),
            "directory" => {
                std::fs::create_dir(dir.join("out.hex")).unwrap();
            }
            "read-only" => {
                use std::os::unix::fs::PermissionsExt;
                std::fs::write(dir.join("out.hex"), b"mine\n").unwrap();
                std::fs::set_permissions(dir.join("out.hex"), std::fs::Permissions::from_mode(0o444)).unwrap();
            }
            _ => {}
        }
    }
    fn argv(&self) -> Vec<Vec<u8>> {
        match self.dest {
            "default" | "default-existing" => args(&["c8s", "in.S"]),
            _ => args(&["c8s", "-o", self.out_name(), "in.S"]),
        }
    }
}

const ENOENT: i32 = 2;
const EINTR: i32 = 4;
const EIO: i32 = 5;
const EACCES: i32 = 13;
const EMFILE: i32 = 24;
const EAGAIN: i32 = 11;
const ENOSPC: i32 = 28;
const EPIPE: i32 = 32;

/// The faults an environment can show at one recorded call.
fn faults_at(i: usize, c: &Call) -> Vec<Fault> {
    let f = |action, arg| Fault { index: i as u32, action, arg };
    let e = |v: &[i32]| v.iter().map(|x| f(A_ERRNO, *x)).collect::<Vec<_>>();
    match c.kind {
        CallKind::Open => {
            if c.path.starts_with("/proc") || c.path.starts_with("/sys") || c.path.starts_with("/etc") || c.path == "/dev/null" {
                return vec![];
            }
            let mut v = e(&[EINTR, EACCES, EMFILE]);
            if c.flags & 3 == 0 {
                v.push(f(A_ERRNO, ENOENT));
            } else {
                v.push(f(A_ERRNO, ENOSPC));
            }
            v
        }
        CallKind::Read => {
            let mut v = e(&[EINTR, EIO]);
            if c.got > 1 {
                v.push(f(A_SHORT, 1));
                v.push(f(A_SHORT, (c.got - 1) as i32));
                if c.got > 4 {
                    v.push(f(A_SHORT, (c.got / 2) as i32));
                }
            }
            v
        }
        CallKind::Write => {
            let mut v = e(&[EINTR, EIO, ENOSPC, EPIPE, EAGAIN]);
            v.push(f(A_ZERO, 0));
            if c.want > 1 {
                v.push(f(A_SHORT, 1));
                v.push(f(A_SHORT, (c.want - 1) as i32));
                if c.want > 4 {
                    v.push(f(A_SHORT, (c.want / 2) as i32));
                }
            }
            v
        }
        CallKind::Rename | CallKind::Unlink => e(&[EACCES, EIO]),
        CallKind::Truncate | CallKind::Sync => e(&[EIO, EINTR]),
        CallKind::Close | CallKind::Other => vec![],
    }
}

fn fault_text(fs: &[Fault], calls: &[Call]) -> String {
    let mut t = String::new();
    for f in fs {
        let c = calls.get(f.index as usize);
        t.push_str(&format!(
            "call {} ({}): {}\n",
            f.index,
            c.map(|c| format!("{:?} fd {} path '{}' of {} bytes", c.kind, c.fd, c.path, c.want)).unwrap_or_default(),
            match f.action {
                A_ERRNO => format!("fails with errno {}", f.arg),
                A_SHORT => format!("transfers only {} byte(s)", f.arg),
                _ => "transfers 0 bytes".into(),
            }
        ));
    }
    t
}

fn failing_sources() -> Vec<(&'static str, Vec<u8>)> {
    let mut big = String::from(".org $200\n");
    for k in 0..3000 {
        big.push_str(&format!("; filler {}\n", k));
    }
    let late = |t: &str| format!("{}{}", big, t).into_bytes();
    vec![
        ("not-utf8", b"cls\n\xff\n".to_vec()),
        ("lexical", b"cls\n ? \n".to_vec()),
        ("lexical-late", late("\"open")),
        ("token", b"cls\n , \n".to_vec()),
        ("token-late", late(": x\n")),
        ("eof", b".db 1\ncls".to_vec()),
        ("eof-late", late("ld v0,")),
        ("directive", b".foo 1\n".to_vec()),
        ("directive-after-data", b".db 1,2,3\n.db 256\n".to_vec()),
        ("counter", b".org $FFE\n cls\n".to_vec()),
        ("size", db((0..5000).map(|k| k as u8)).into_bytes()),
        ("constant", b"cls\n.equ 4\n".to_vec()),
        ("redefined", b"A: cls\nA: ret\n".to_vec()),
        ("no-form", b"cls\nfoo v0\n".to_vec()),
        ("unknown-label", b"cls\njp nowhere\n".to_vec()),
        ("too-wide", b"cls\nld v0, 256\n".to_vec()),
        ("too-wide-late", late("drw v0, v1, 16\n")),
        ("collision", b".db 1,2\n.org 1\n.db 3\n".to_vec()),
        ("collision-late", late(".db 1\n.org $1FF\n.db 2,3\n")),
    ]
}

fn good_sources() -> Vec<(&'static str, Vec<u8>)> {
    let mut big = String::from(".org $200\n");
    for k in 0..4000 {
        big.push_str(&format!("; filler line {}\n", k));
    }
    big.push_str("cls\n");
    let mut deep = String::new();
    deep.push_str(&db((0..3000).map(|k| (k * 5) as u8)));
    vec![
        ("small", b".org $200\ncls\nL: jp L\n".to_vec()),
        ("tail", b"cls\nret\n.db 1\n.db 2\n.db 3\n".to_vec()),
        ("empty", b"".to_vec()),
        ("sections", b".org $300\n.db \"0123456789abcdefXYZ\"\n.org $100\nret\n".to_vec()),
        ("large-output", deep.into_bytes()),
        ("large-source", big.into_bytes()),
    ]
}

pub fn c08(s: &Session) {
    special_destinations(s);
    c15_existing(s, "", true);
    missing_sources(s);
    s.assume("a source truncated by the operating system without an error (a read returning 0 early) cannot be told from a shorter source and is not injected");
    s.assume("errors reported only by close(2) and a standard output closed before start-up are outside the property");
    let mut sc: Vec<Scenario> = Vec::new();
    for (n, t) in good_sources() {
        for d in DESTS {
            let heavy = n == "large-output" || n == "large-source";
            let depth = if heavy { s.t(2, 3) } else { s.t(3, 4) };
            sc.push(Scenario { name: format!("{}>{}", n, d), input: Input::Text(t.clone()), dest: d, depth });
        }
    }
    for (n, t) in failing_sources() {
        for d in DESTS {
            sc.push(Scenario { name: format!("{}>{}", n, d), input: Input::Text(t.clone()), dest: d, depth: s.t(2, 3) });
        }
    }
    for (n, i) in [("missing", Input::Missing), ("directory", Input::Directory), ("unreadable", Input::Unreadable)] {
        for d in DESTS {
            if d == "self" && n == "directory" {
                continue;
            }
            sc.push(Scenario { name: format!("{}>{}", n, d), input: i.clone(), dest: d, depth: s.t(2, 3) });
        }
    }
    let t0 = Instant::now();
    let total = AtomicU64::new(0);
    let nontrivial = AtomicU64::new(0);
    let by_depth: Vec<AtomicU64> = (0..6).map(|_| AtomicU64::new(0)).collect();
    let traces: Mutex<HashSet<u64>> = Mutex::new(HashSet::new());
    let complete = AtomicU64::new(0);
    // One work item per (scenario, first fault) so that the cores share the deep scenarios.
    let items: Vec<(usize, Option<Fault>)> = {
        let mut srv = s.server("base");
        let mut v = Vec::new();
        for (k, c) in sc.iter().enumerate() {
            let dir = srv.dir.clone();
            c.setup(&dir, "");
            let mut req = standard_request(&dir);
            req.argv = c.argv();
            req.want_calls = true;
            let r = srv.run(&req).expect("run");
            v.push((k, None));
            for (i, call) in r.calls.iter().enumerate() {
                for f in faults_at(i, call) {
                    v.push((k, Some(f)));
                }
            }
        }
        v
    };
    let n = items.len() as u64;
    let done = s.par(n, 1, |t| s.server(&format!("s{}", t)), |srv, a, _| {
        let (k, first) = &items[a as usize];
        let c = &sc[*k];
        let want = match &c.input {
            Input::Text(t) => expect(t),
            _ => Outcome::Reject(model::Reject { kind: model::Kind::NotUtf8, loc: None, names: vec![] }),
        };
        let result = match &want {
            Outcome::Accept(sec) => model::hex_text(sec),
            _ => String::new(),
        };
        let dir = srv.dir.clone();
        let mut stack: Vec<Vec<Fault>> = vec![first.iter().copied().collect()];
        while let Some(fs) = stack.pop() {
            if s.stop.load(Relaxed) || s.out_of_time() {
                return;
            }
            c.setup(&dir, &result);
            let outp = dir.join(c.out_name());
            let before = (node(&outp), node(&dir.join("in.S")), node(&dir.join("a.hex")));
            let all_before = if fs.is_empty() { listing(&dir) } else { BTreeMap::new() };
            let mut req = standard_request(&dir);
            req.argv = c.argv();
            req.want_calls = true;
            req.faults = fs.clone();
            let got = srv.run(&req).expect("run");
            s.cli_runs.fetch_add(1, Relaxed);
            total.fetch_add(1, Relaxed);
            by_depth[fs.len().min(5)].fetch_add(1, Relaxed);
            if fs.iter().all(|f| got.calls.get(f.index as usize).map(|c| c.action == f.action).unwrap_or(false)) && !fs.is_empty() {
                nontrivial.fetch_add(1, Relaxed);
            }
            let after = (node(&outp), node(&dir.join("in.S")), node(&dir.join("a.hex")));
            s.transitions.fetch_add(got.calls.len() as u64, Relaxed);
            let sig = got.calls.iter().fold(*k as u64, |h, c| model::mix(h, ((c.kind as u64) << 40) ^ ((c.got as u64) << 8) ^ c.action as u64));
            traces.lock().unwrap().insert(model::mix(sig, matches!(got.status, Status::Exit(0)) as u64));
            let mut verdict = judge_io(c, &want, &result, &fs, &got, &before, &after);
            if verdict.is_ok() && fs.is_empty() {
                // Without faults nothing but the destination may change, and nothing at all when there is no result.
                let mut all_after = listing(&dir);
                if got.status == Status::Exit(0) {
                    for n in [c.out_name().as_bytes(), b"target", b"in.S"] {
                        if n == b"in.S" && !["self", "self-link", "hard-link"].contains(&c.dest) {
                            continue;
                        }
                        match all_before.get(n) {
                            Some(x) => all_after.insert(n.to_vec(), x.clone()),
                            None => all_after.remove(n),
                        };
                    }
                }
                if all_after != all_before {
                    let changed: Vec<String> = all_after.iter().filter(|(k, v)| all_before.get(*k) != Some(*v)).map(|(k, _)| k).chain(all_before.keys().filter(|k| !all_after.contains_key(*k))).map(|k| show(k)).collect();
                    verdict = Err(format!("files other than the destination changed: {:?}", changed));
                }
            }
            if let Err(why) = verdict {
                s.violate(Violation {
                    space: "faults".into(),
                    idx: a,
                    why: format!("scenario {} with {} fault(s): {}", c.name, fs.len(), why),
                    files: vec![
                        ("in.S".into(), match &c.input { Input::Text(t) => t.clone(), _ => vec![] }),
                        ("case.txt".into(), format!(
                            "scenario {} (source>destination)\nargv {:?}\n{}observed: {}\nstdout:\n{}\nall calls:\n{}\n{}\n",
                            c.name,
                            c.argv().iter().map(|x| String::from_utf8_lossy(x).into_owned()).collect::<Vec<_>>(),
                            fault_text(&fs, &got.calls),
                            status_text(&got.status),
                            show(&got.out),
                            got.calls.iter().enumerate().map(|(i, c)| format!("  {} {:?} fd {} '{}' want {} got {}\n", i, c.kind, c.fd, c.path, c.want, c.got)).collect::<String>(),
                            why
                        ).into_bytes()),
                    ],
                });
                return;
            }
            if fs.is_empty() {
                if got.status == Status::Exit(0) {
                    complete.fetch_add(1, Relaxed);
                }
                if a % 40 == 0 {
                    s.sample(format!("{} without faults: {}; calls {}", c.name, status_text(&got.status), got.calls.iter().map(|c| format!("{:?}", c.kind)).collect::<Vec<_>>().join(" ")));
                }
            } else if total.load(Relaxed) % 9001 == 0 {
                s.sample(format!("{} with {}=> {}", c.name, fault_text(&fs, &got.calls).replace('\n', "; "), status_text(&got.status)));
            }
            if !fs.is_empty() && fs.len() < c.depth {
                let last = fs.last().unwrap().index as usize;
                for (i, call) in got.calls.iter().enumerate().skip(last + 1) {
                    for f in faults_at(i, call) {
                        let mut g = fs.clone();
                        g.push(f);
                        stack.push(g);
                    }
                }
            }
        }
    });
    s.traces.fetch_add(total.load(Relaxed), Relaxed);
    s.add_states(&traces.lock().unwrap().iter().copied().collect::<Vec<_>>());
    let d = traces.lock().unwrap().len() as u64;
    s.report_space(
        "faults",
        "every scenario (28 sources and unreadable inputs x 16 destinations and prior states) x every placement of up to 3 (large sources and failing sources 2; thorough one more) faults over its I/O calls",
        "c8s binary",
        n,
        done,
        d,
        t0,
    );
    if complete.load(Relaxed) == 0 && !s.stop.load(Relaxed) {
        s.note("no scenario completed without faults");
    }
    let mut ex = s.extra.lock().unwrap();
    ex.push(("evaluations".into(), total.load(Relaxed).to_string()));
    ex.push(("distinct_nontrivial".into(), nontrivial.load(Relaxed).to_string()));
    ex.push(("rule".into(), jstr("a case is a scenario (source, destination, prior state of the destination) with a set of faults placed on its numbered I/O calls; it is non-trivial when every fault of the set was actually delivered, and cases are distinct by construction (each fault set is enumerated once)")));
    ex.push(("fault_sets_by_size".into(), format!("[{}]", by_depth.iter().map(|x| x.load(Relaxed).to_string()).collect::<Vec<_>>().join(", "))));
    ex.push(("distinct_io_histories".into(), d.to_string()));
    drop(ex);
}

type Nodes = (Node, Node, Node);

fn judge_io(c: &Scenario, want: &Outcome, result: &str, fs: &[Fault], got: &RunResult, before: &Nodes, after: &Nodes) -> Result<(), String> {
    if got.status == Status::Timeout {
        return Err("the run does not terminate".into());
    }
    let ok = got.status == Status::Exit(0);
    let to_stdout = c.dest == "stdout";
    // A hard failure of the input: the source cannot be read.
    let input_failed = fs.iter().any(|f| {
        let Some(k) = got.calls.get(f.index as usize) else { return false };
        f.action == A_ERRNO && f.arg != EINTR && (k.kind == CallKind::Read || (k.kind == CallKind::Open && k.flags & 3 == 0))
    });
    if ok {
        let Outcome::Accept(_) = want else { return Err("exit status 0 although the source cannot be read or assembled".into()) };
        let whole = if to_stdout {
            got.out == result.as_bytes()
        } else {
            let content = match &after.0 {
                Node::File(b) => Some(b),
                Node::Link(_, n) => match &**n {
                    Node::File(b) => Some(b),
                    _ => None,
                },
                _ => None,
            };
            content.map(|b| b == result.as_bytes()).unwrap_or(false)
        };
        if !whole {
            let have = if to_stdout { show(&got.out) } else { format!("{:?}", after.0).chars().take(200).collect() };
            return Err(format!("exit status 0, but the destination does not hold exactly the complete result: {}", have));
        }
        if !to_stdout && !got.out.is_empty() && model::hex_decode(&got.out, false).is_ok() {
            return Err("the result also went to standard output".into());
        }
    } else if !matches!(want, Outcome::Accept(_)) || input_failed {
        if !to_stdout && before.0 != after.0 {
            return Err(format!("the source could not be read or assembled, but the output path changed from {:.80} to {:.80}", format!("{:?}", before.0), format!("{:?}", after.0)));
        }
        if before.2 != after.2 {
            return Err("the source could not be read or assembled, but a.hex was written".into());
        }
        if to_stdout && model::hex_decode(&got.out, false).is_ok() {
            return Err("the source could not be read or assembled, but HEX went to standard output".into());
        }
    }
    if !["self", "self-link", "hard-link"].contains(&c.dest) && before.1 != after.1 {
        return Err("the input file changed".into());
    }
    if c.dest == "stdout" && before.2 != after.2 {
        return Err("a.hex was written although the output was directed elsewhere".into());
    }
    Ok(())
}

/// A source that is not there is not replaced by another file the program thinks of.
fn missing_sources(s: &Session) {
    let mut srv = s.server("missing");
    let dir = srv.dir.clone();
    let t0 = Instant::now();
    let mut n = 0;
    let mut others = BTreeSet::new();
    let outs: [&[&str]; 3] = [&["-o", "-"], &["-o", "out.hex"], &[]];
    for name in ["in.S", "in", "IN", "prog.8s", "d/in", "./in", "in.", ".in", "main", "a.hex", "\u{e9}", "no such file.S", "stdin", "@list"] {
        for o in outs {
            let mut argv = vec!["c8s"];
            argv.extend_from_slice(o);
            argv.push(name);
            let before = |req: &mut Request| {
                wipe(&dir);
                std::fs::create_dir(dir.join("d")).unwrap();
                make_public(&dir.join("d"));
                req.argv = args(&argv);
                req.env.push(format!("HOME={}", dir.display()).into_bytes());
                req.want_calls = true;
            };
            let mut req = standard_request(&dir);
            before(&mut req);
            let r = srv.run(&req).expect("run");
            let mut asked = BTreeSet::new();
            for c in &r.calls {
                let k = match c.kind {
                    CallKind::Other => c.path.clone(),
                    CallKind::Open => format!("?{}", c.path),
                    _ => continue,
                };
                asked.insert(k.replace(&dir.display().to_string(), "@HOME@"));
            }
            let mut files: Vec<String> = other_paths(asked.iter(), &[name, name.trim_start_matches("./"), "out.hex", "a.hex"]);
            others.extend(files.iter().cloned());
            // And without asking: the names a program would guess.
            for x in [".s", ".S", ".asm", ".8s", ".c8s", ".txt", ".src", ".8o", ".chip8"] {
                files.push(format!("{}{}", name.trim_start_matches("./"), x));
            }
            for f in &files {
                let mut req = standard_request(&dir);
                before(&mut req);
                if !provide(&dir, f, b"cls\njp 5\n", &mut req) {
                    continue;
                }
                let r = srv.run(&req).expect("run");
                s.cli_runs.fetch_add(1, Relaxed);
                s.transitions.fetch_add(1, Relaxed);
                s.add_states(&[model::mix(82, n)]);
                n += 1;
                let wrote = dir.join("out.hex").exists() || (dir.join("a.hex").exists() && f != "a.hex") || model::hex_decode(&r.out, false).is_ok();
                if r.status == Status::Exit(0) || r.status == Status::Timeout || wrote {
                    s.violate(Violation {
                        space: "missing-sources".into(),
                        idx: n,
                        why: format!("there is no file '{}' (but a file '{}'), yet: {}{}", name, f, status_text(&r.status), if wrote { ", and a result was written" } else { "" }),
                        files: case_files(b"cls\njp 5\n", format!("{:?} with only a file '{}'\n", argv, f)),
                    });
                    return;
                }
            }
        }
    }
    s.note(format!("files the program looks at when its input does not exist: {:?}", others));
    s.report_space("missing-sources", "14 input names without a file of that name x 3 ways to deliver x every other file the program looks at, and 9 usual extensions, present instead", "c8s binary", n, n, 0, t0);
}

/// Destinations whose failures the kernel itself produces.
fn special_destinations(s: &Session) {
    let mut srv = s.server("special");
    let dir = srv.dir.clone();
    let t0 = Instant::now();
    let mut n = 0;
    for (name, src) in good_sources() {
        for dest in ["/dev/full", "/dev/null/x", "\u{0}long", ""] {
            if dest == "/dev/full" && !Path::new("/dev/full").exists() {
                continue;
            }
            wipe(&dir);
            std::fs::write(dir.join("in.S"), &src).unwrap();
            let out = if dest == "\u{0}long" { "n".repeat(300) } else { dest.to_string() };
            let mut req = standard_request(&dir);
            req.argv = args(&["c8s", "-o", &out, "in.S"]);
            let got = srv.run(&req).expect("run");
            s.cli_runs.fetch_add(1, Relaxed);
            n += 1;
            if got.status == Status::Exit(0) || got.status == Status::Timeout {
                s.violate(Violation {
                    space: "special-destinations".into(),
                    idx: n,
                    why: format!("{}: output '{:.20}' cannot be created or written, but: {}", name, out, status_text(&got.status)),
                    files: case_files(&src, format!("c8s -o '{}' in.S\n", out)),
                });
            }
            if dir.join("a.hex").exists() {
                s.violate(Violation { space: "special-destinations".into(), idx: n, why: "a.hex was written although the output was directed elsewhere".into(), files: case_files(&src, out) });
            }
        }
    }
    s.report_space("special-destinations", "every good source to /dev/full, below a non-directory, to an over-long and to an empty name", "c8s binary", n, n, 0, t0);
}

// ---------------------------------------------------------------- C09

pub fn c09(s: &Session) {
    let ok = &judge::terminates;
    s.space(
        "byte-strings",
        "every byte string of length 0 to 2",
        1 + 256 + 65536,
        CLI,
        &|i| match i {
            0 => vec![],
            i if i <= 256 => vec![(i - 1) as u8],
            i => vec![((i - 257) >> 8) as u8, (i - 257) as u8],
        },
        ok,
    );
    let bc: [u8; 24] = [0, 0x09, 0x0A, 0x0D, b' ', b'"', b'$', b'%', b',', b'.', b':', b';', b'a', b'[', b'\\', b'0', 0x7F, 0x80, 0xBF, 0xC3, 0xE2, 0xED, 0xF0, 0xFF];
    s.space("byte-classes", "every string of length 3 over 24 byte classes (UTF-8 lead, continuation and invalid bytes included)", 24u64.pow(3), CLI, &|i| digits(i, &[24; 3]).iter().map(|x| bc[*x]).collect(), ok);
    s.space("byte-classes-4", "every string of length 4 (thorough: 5) over the byte classes", s.t(24u64.pow(4), 24u64.pow(5)), inproc(30_000), &|i| digits(i, &vec![24; s.t(4, 5)]).iter().map(|x| bc[*x]).collect(), ok);
    let cc: Vec<char> = "av019F$#%.:,\"\\;[i]\n\r \té\u{3000}?_\0𝄞".chars().collect();
    let kc = cc.len() as u64;
    s.space("characters", "every string of length 0 to 4 (thorough: 5) over 28 character classes", seqs(kc, 0, s.t(4, 5)), inproc(60_000), &|i| seq(kc, 0, i).iter().map(|x| cc[*x]).collect::<String>().into_bytes(), ok);
    let ctx = ["@", "a@", "cls @\n", ".db \"@\"\n", "; @\n", "ld v0, @\n", "@: cls\n", "$@ %@ 1@\n", "é@é", ".db \"\\@\"\n"];
    let nx = ctx.len() as u64;
    s.space(
        "unicode",
        "every Unicode scalar value in 10 contexts",
        0x110000 * nx,
        inproc(0x500 * nx),
        &|i| {
            let c = char::from_u32((i / nx) as u32).unwrap_or('\u{FFFD}');
            ctx[(i % nx) as usize].replace('@', &c.to_string()).into_bytes()
        },
        ok,
    );
    let all = sample_programs(s);
    for (name, t) in &all {
        let b = t.as_bytes();
        s.space(&format!("prefixes-{}", name), "every byte prefix of the sample, with and without a final line break", 2 * (b.len() as u64 + 1), inproc(4000), &|i| {
            let mut v = b[..(i / 2) as usize].to_vec();
            if i % 2 == 1 {
                v.push(b'\n');
            }
            v
        }, ok);
        let ed: [u8; 16] = *b"\"\\;:,.$%[ \n0vZ\x00\xc3";
        s.space(&format!("edits-{}", name), "every byte of the sample deleted or replaced by each of 16 bytes", 17 * b.len() as u64, inproc(4000), &|i| {
            let (p, e) = ((i / 17) as usize, (i % 17) as usize);
            let mut v = b.to_vec();
            if e == 16 {
                v.remove(p);
            } else {
                v[p] = ed[e];
            }
            v
        }, ok);
    }
    // Statement sequences around the limits.
    let st = [
        ".org $FFF\n", ".org 0\n", ".org $FFE\n", "cls\n", ".db 1\n", ".db \"\"\n", ".db \"0123456789abcdef\"\n", "A: ", "Bx: ", ".equ 1\n", ".equ $FFF\n", "jp A\n", "ld v0, Bx\n", ".db 255,0,\n", ".foo\n", "\n",
    ];
    let ks = st.len() as u64;
    s.space("statements", "every sequence of up to 5 of 16 statements around the limits of memory", seqs(ks, 0, s.t(5, 6)), inproc(40_000), &|i| seq(ks, 0, i).iter().map(|x| st[*x]).collect::<String>().into_bytes(), ok);
    // Every mnemonic-like and directive-like name with every operand kind.
    let names: Vec<String> = model::mnemonics().into_iter().map(|m| m.to_lowercase()).chain(["foo", ".db", ".org", ".equ", ".x"].iter().map(|x| x.to_string())).collect();
    let ops = ["", "v0", "vF", "I", "[I]", "DT", "ST", "K", "F", "B", "0", "15", "255", "4095", "L", "nolabel", "\"s\"", "\"\""];
    let (nn, no) = (names.len() as u64, ops.len() as u64);
    s.space("operands", "every name x every operand triple of 18 kinds", nn * no.pow(3), inproc(40_000), &|i| {
        let d = digits(i, &[nn, no, no, no]);
        let o: Vec<&str> = d[1..].iter().map(|x| ops[*x]).filter(|x| !x.is_empty()).collect();
        format!("L: {} {}\n", names[d[0]], o.join(",")).into_bytes()
    }, ok);
    crate::props3::battery(s, ok);
    sizes(s);
}

fn size_input(kind: usize, n: usize) -> Option<(&'static str, Vec<u8>)> {
    let rep = |x: &str| x.repeat(n);
    let many = |f: &dyn Fn(usize) -> String| (0..n).map(f).collect::<String>();
    let (name, text): (&'static str, String) = match kind {
        0 => ("literal list", format!(".db 1{}\n", rep(",1"))),
        1 => ("string list", format!(".db \"\"{}\n", rep(",\"\""))),
        2 => ("operand list", format!("ld v0{}\n", rep(",v0"))),
        3 => ("literal list with trailing comma", format!(".db {}\n", rep("1,"))),
        4 => ("string", format!(".db \"{}\"\n", rep("a"))),
        5 => ("multi-byte string", format!(".db \"{}\"\n", rep("é"))),
        6 => ("string of line breaks", format!(".db \"{}\"\n", rep("\n"))),
        7 => ("string of escapes", format!(".db \"{}\"\n", rep("\\\""))),
        8 => ("unterminated string", format!(".db \"{}", rep("a"))),
        9 => ("comment", format!(";{}\n", rep("x"))),
        10 => ("comments", rep(";\n")),
        11 => ("line breaks", rep("\n")),
        12 => ("spaces", rep(" ")),
        13 => ("decimal literal", format!(".db {}\n", rep("9"))),
        14 => ("zeros", format!(".db {}\n", rep("0"))),
        15 => ("hexadecimal literal", format!(".db ${}\n", rep("F"))),
        16 => ("binary literal", format!(".db %{}\n", rep("1"))),
        17 => ("binary zeros", format!(".db %{}\n", rep("."))),
        18 => ("identifier", format!("{}: cls\n", rep("a"))),
        19 => ("mnemonic", format!("{}\n", rep("b"))),
        20 => ("labels", many(&|k| format!("L{}:\n", k))),
        21 => ("labels on one line", many(&|k| format!("L{}: ", k))),
        22 => ("same label", rep("L: ")),
        23 => ("constants", many(&|k| format!("L{}: .equ {}\n", k, k % 4096))),
        24 => ("origins", rep(".org $200\n")),
        25 => ("origin and statement", rep(".org $200\n\n")),
        26 => ("instructions", rep("cls\n")),
        27 => ("data on one line", rep(".db 1 ")),
        28 => ("bad characters", rep("?")),
        29 => ("brackets", rep("[")),
        30 => ("quotes", rep("\"")),
        31 => ("backslashes", rep("\\")),
        32 => ("colons", rep(":")),
        33 => ("dots", rep(".")),
        34 => ("commas", format!("ld {}", rep(","))),
        35 => ("carriage returns", rep("\r")),
        36 => ("NUL", rep("\0")),
        37 => ("wide characters", rep("𝄞")),
        38 => ("uses of one label", format!("L: {}", rep("L2: .equ 1 "))),
        39 => ("empty data", rep(".db \"\"\n")),
        40 => {
            let mut v = rep(" ").into_bytes();
            v.push(0xFF);
            return Some(("invalid UTF-8 late", v));
        }
        41 => ("blank lines in a literal list", format!(".db 1,{}", rep(" ;\n"))),
        42 => ("comment then label", format!("A: {}.equ 3\n", rep(";c\n"))),
        _ => return None,
    };
    Some((name, text.into_bytes()))
}

fn sizes(s: &Session) {
    let ns: Vec<usize> = s.t(
        vec![255, 256, 257, 4094, 4095, 4096, 4097, 8191, 8192, 65_535, 65_536, 65_537, 200_000, 1_048_580],
        vec![255, 256, 257, 1023, 1024, 4094, 4095, 4096, 4097, 8191, 8192, 16_384, 32_767, 32_768, 65_535, 65_536, 65_537, 131_072, 200_000, 500_000, 1_048_580, 2_097_200, 4_194_400],
    );
    let kinds = (0..).take_while(|k| size_input(*k, 1).is_some()).count();
    let t0 = Instant::now();
    let n = (kinds * ns.len()) as u64;
    let seen = Mutex::new(HashSet::new());
    let slow = Mutex::new(0f64);
    let done = s.par(n, 1, |t| s.dev_server(&format!("d{}", t)), |srv, a, _| {
        let (k, m) = (a as usize % kinds, ns[ns.len() - 1 - a as usize / kinds]);
        let (what, src) = size_input(k, m).unwrap();
        let t = Instant::now();
        let got = run_sized(s, srv, &src);
        let e = t.elapsed().as_secs_f64();
        {
            let mut w = slow.lock().unwrap();
            if e > *w {
                *w = e;
            }
        }
        s.traces.fetch_add(1, Relaxed);
        seen.lock().unwrap().insert((k, status_text(&got.status)));
        let want = Outcome::Accept(vec![]);
        if m > 300_000 && got.status == Status::Timeout {
            // Speed is not claimed: the largest sizes are there to exhaust the stack and counters.
            s.note(format!("no answer within the time limit, not judged: {} of size {}", what, m));
            return;
        }
        if let Err(why) = judge::terminates(&Case { idx: a, src: &src, want: &want, got: &got }) {
            // Confirm in a fresh process with nothing else changed.
            let mut again = s.dev_server(&format!("again{}", a));
            let g2 = run_sized(s, &mut again, &src);
            if judge::terminates(&Case { idx: a, src: &src, want: &want, got: &g2 }).is_ok() {
                s.note(format!("not reproducible: {} x {}: {}", what, m, why));
                return;
            }
            s.violate(Violation {
                space: "sizes".into(),
                idx: a,
                why: format!("{} of size {}: {}", what, m, why),
                files: vec![("in.S".into(), src), ("case.txt".into(), format!("{} of size {} on the development build\n{}\n", what, m, why).into_bytes())],
            });
        }
    });
    s.note(format!("slowest size case: {:.2}s", slow.lock().unwrap()));
    let d = seen.lock().unwrap().len() as u64;
    s.report_space("sizes", &format!("{} constructs x {} sizes up to {}, on the unoptimised build with the default stack", kinds, ns.len(), ns.last().unwrap()), "c8s binary (dev profile)", n, done, d, t0);
}

fn run_sized(s: &Session, srv: &mut Server, src: &[u8]) -> RunResult {
    std::fs::write(srv.dir.join("in.S"), src).unwrap();
    let mut req = standard_request(&srv.dir.clone());
    req.timeout_ms = 60_000;
    s.cli_runs.fetch_add(1, Relaxed);
    srv.run(&req).expect("run")
}

// ---------------------------------------------------------------- C10

fn c10_prefixes() -> Vec<&'static str> {
    vec![
        "\n", "cls\n", "\tcls ;x\n", "; é日本\n", "ld v0, 5 ", ".db \"é\" ", ".db \"日本𝄞\"\n", ".db \"a\nb\" ", ".db \"\n\né\" , 1 ", "cls\r\n", "   ", "\u{3000}\t", "L@: ", ".org $10\n", "\r", "K@: .equ 3 ; c\n",
        ".db \"q\\\"é\", $F, %1.1\n", ";\n", ".db \"e\u{301}\" ", "jp M@ M@: ", "\u{85}\u{2028}", ".db 1,2,\n",
    ]
}

/// (text, may stand before other errors)
fn c10_errors() -> Vec<&'static str> {
    vec![
        // malformed tokens
        "?", "é", "𝄞", "\u{301}", "$", "#", "%", "$G", "$1234", "#00001", "%1111111111111", "%1..............", "99999", "4096", "[x]", "[", "\"abc", "\"ab\\\n\"", "\0", "ld v0, ?\n", ".db 1, é\n", ".db \"x\", \"y\n", "]", "@",
        // unexpected tokens
        ",", ":", "1", "\"s\"", "\"é\nx\"", ". 5", ".\n", "..", ".db ,1\n", ".db x\n", "ld , v0\n", "ld v0,,v1\n", "ld \"s\"\n", ".org L\n", "cls : ", "ld v0 , : ", "jp 5 5\n", "$F", ".db 1 2\n",
        // premature end
        "cls", ".", ".db", ".db 1,", "ld v0,", "ld v0, v1,",
        // directives
        ".foo 1\n", ".Foo\n", ".org\n", ".org \"x\"\n", ".org 1,2\n", ".equ 5\n", ".db 256\n", ".DB 1,4095,2\n", ".db\n", "E: .equ \"x\"\n", "E: .equ 1,2\n", "E: cls\n.equ 1\n",
        // overflow and redefinition
        ".org $FFE\ncls\n", ".org $FFE .db 1,2\n", ".org $FFF\n.db \"é\"\n", "D: D: ", "D:\n.db 1\nD: .equ 5\n", "D: .equ 4\n  D: cls\n",
        // instructions
        "foo v0\n", "ld v0, 256\n", "ld v0, nolabel\n", "jp nolabel\n", "drw v0,v1,16\n", "cls 5\n", "ld 5, v0\n", "W: .equ $100 add v0, W\n", "ld v0, [i], 1\n", "JP\n", "se v1, Nope\n", "drw v1, v2, V\n",
    ]
}

pub fn c10(s: &Session) {
    let pre = c10_prefixes();
    let err = c10_errors();
    let post = ["", " cls\n", "\n? é\n"];
    let (kp, ke, ks) = (pre.len() as u64, err.len() as u64, post.len() as u64);
    let build = |ps: &[usize], es: &[usize], e: &str| {
        let mut t = String::new();
        for (n, p) in ps.iter().enumerate() {
            t.push_str(&pre[*p].replace('@', &n.to_string()));
        }
        for x in es {
            t.push_str(err[*x]);
            if es.len() > 1 {
                t.push(' ');
            }
        }
        t.push_str(e);
        t.into_bytes()
    };
    let diag = |c: &Case| judge::diagnostic("in.S", c);
    let np = seqs(kp, 0, s.t(3, 4));
    s.space(
        "prefixes",
        "every error kind x every sequence of up to 3 (thorough: 4) of 22 lexical prefixes x 3 continuations",
        np * ke * ks,
        inproc(50_000),
        &|i| {
            let d = digits(i, &[np, ke, ks]);
            build(&seq(kp, 0, d[0] as u64), &[d[1]], post[d[2]])
        },
        &diag,
    );
    let n1 = seqs(kp, 0, 2);
    s.space("prefixes-cli", "every error kind x every sequence of up to 2 prefixes, on the binary", n1 * ke, CLI, &|i| build(&seq(kp, 0, i / ke), &[(i % ke) as usize], ""), &diag);
    s.space("pairs", "every ordered pair of error kinds after up to one prefix", (1 + kp) * ke * ke, inproc(30_000), &|i| {
        let d = digits(i, &[1 + kp, ke, ke]);
        build(&seq(kp, 0, d[0] as u64), &[d[1], d[2]], "\n")
    }, &diag);
    if !s.quick() {
        s.space("triples", "every ordered triple of error kinds", ke * ke * ke, inproc(0), &|i| build(&[], &digits(i, &[ke, ke, ke]), "\n"), &diag);
    }
    // Columns and lines far out.
    let counts: Vec<usize> = vec![0, 1, 2, 7, 8, 9, 98, 99, 100, 254, 255, 256, 257, 998, 999, 1000, 4095, 4096, 65_535, 65_536, 70_000];
    let fill = [" ", "\n", "é\u{0}", "\r\n", "; x\n", "\t", "\u{3000}"];
    let nc = counts.len() as u64;
    s.space("far", "an error of each kind after 21 counts of 7 fillers (columns and lines beyond 65535)", ke * nc * 7, inproc(4000), &|i| {
        let d = digits(i, &[7, nc, ke]);
        let n = counts[d[1]];
        let t = if d[0] == 2 { format!(".db \"{}\" ", "é".repeat(n.min(2000))) } else { fill[d[0]].repeat(n) };
        format!("{}{}", t, err[d[2]]).into_bytes()
    }, &diag);
    // Strings and other tokens over several lines.
    let nls = ["\n", "\r\n", "\r", "\n\r", "\\\n", "\u{2028}", "\u{b}\n", "\n\u{c}"];
    let fills = ["", "a", "\u{e9}", "; x", "\\\"", "\t ", "\u{65e5}\u{1d11e}"];
    let behind = [" ", "\n", " , 1 ", ",\n\"x\ny\" ", " ; \u{e9}\n\t"];
    let npat = seqs(8, 0, s.t(3, 4));
    s.space("strings-over-lines", "strings over several lines - every sequence of up to 3 (thorough: 4) of 8 line ends, repeated 1..4 times, with 7 texts between - x 5 continuations x every error kind", npat * 4 * 7 * 5 * ke, inproc(20_000), &|i| {
        let d = digits(i, &[ke, 5, 7, 4, npat]);
        let mut t = String::from("cls\n.db \"");
        for _ in 0..=d[3] {
            for x in seq(8, 0, d[4] as u64) {
                t.push_str(fills[d[2]]);
                t.push_str(nls[x]);
            }
        }
        t.push_str(fills[d[2]]);
        t.push('"');
        t.push_str(behind[d[1]]);
        t.push_str(err[d[0]]);
        t.into_bytes()
    }, &diag);
    // Every Unicode scalar before an error and as the error.
    s.space("unicode", "every Unicode scalar value in a comment, in a string, alone and before an error", 0x110000 * 4, inproc(0x400 * 4), &|i| {
        let c = char::from_u32((i / 4) as u32).unwrap_or('\u{FFFD}');
        match i % 4 {
            0 => format!("; {}\n ?", c),
            1 => format!(".db \"{}\" ?", c),
            2 => format!(" {} ,", c),
            _ => format!("cls\n{}", c),
        }
        .into_bytes()
    }, &diag);
    let uctx = ["cls \"a@b\"\n", "\"@\" cls\n", "a: .equ 1, \"@\"\n.org \"@@\"\n", "ld v0, \"x@\", 5\n", ".db 1 \"@\"\n", ".db 1,\"@\" ; @\n.db \"@\n@\" \"@\"\n", ".db \"@\" $1ff\n", ".org \"@ @\" \n", "cls \"a long string with @ in it\"\n", ". ; a comment where a name belongs @ .\n", "cls\n.;@\n"];
    let nu = uctx.len() as u64;
    s.space("unicode-reported", "every Unicode scalar value inside a string that is itself the token reported, or stands before it on its line, or in a reported comment, in 11 places", 0x110000 * nu, inproc(0x400 * nu), &|i| {
        let c = char::from_u32((i / nu) as u32).unwrap_or('\u{FFFD}');
        uctx[(i % nu) as usize].replace('@', &c.to_string()).into_bytes()
    }, &diag);
    // Reported strings and comments of every length up to 300 with one special character anywhere in them.
    let sp = ["\r", "\t", "\n", "\u{e9}", "\u{65e5}", "\u{1d11e}", "\\\"", "\r\n", "\u{301}", "\0"];
    let spl: Vec<(u64, u64)> = (1..=s.t(80u64, 300)).flat_map(|l| (0..=l).map(move |p| (l, p))).collect();
    s.space("reported-lengths", "a string or comment that is the token reported, of every length up to 80 (thorough: 300), with one of 10 special characters at every place in it", spl.len() as u64 * 20, inproc(20_000), &|i| {
        let d = digits(i, &[2, 10, spl.len() as u64]);
        let (l, p) = spl[d[2]];
        let body = format!("{}{}{}", "x".repeat(p as usize), sp[d[1]], "y".repeat((l - p) as usize));
        if d[0] == 0 { format!(" cls \"{}\"\n", body) } else { format!(" . ;{}\n", body) }.into_bytes()
    }, &diag);
    // Names: every identifier shape in the error message.
    let id = |k: u64| -> String { format!("{}{}", ["a", "Zz", "_", "v0x", "cls_", "Label"][(k % 6) as usize], "x9_Q".repeat((k / 6) as usize)) };
    s.space("names", "labels, mnemonics and directives of lengths up to 600 named in their diagnostics", 900 * 5, inproc(4500), &|i| {
        let n = id(i / 5);
        match i % 5 {
            0 => format!("jp {}\n", n),
            1 => format!("{} v0\n", n),
            2 => format!(".{} 1\n", n),
            3 => format!("{}: {}: cls\n", n, n),
            _ => format!("ld v0, {}\n", n),
        }
        .into_bytes()
    }, &diag);
    // Values named in width errors.
    s.space("values", "every value too wide for a byte or nibble field, named in its diagnostic", 4096 * 4, inproc(16_384), &|i| {
        let v = i / 4;
        match i % 4 {
            0 => format!("ld v0, {}\n", v),
            1 => format!("drw v0, v1, {}\n", v),
            2 => format!("C: .equ {}\n  add v3, C\n", v),
            _ => format!(" .db 1, {}\n", v),
        }
        .into_bytes()
    }, &diag);
    // Overflow position by address.
    s.space("overflow", "the element that passes the end of memory, at every distance", 300 * 4, inproc(1200), &|i| {
        let k = i / 4;
        let mut t = format!(".org {}\n", 4095 - k);
        for j in 0..k {
            match i % 4 {
                0 => t.push_str(" cls\n"),
                1 => t.push_str(".db 1 "),
                2 => t.push_str(&format!("L{}: .db \"é\"\n", j)),
                _ => t.push_str("ld v1, v2 "),
            }
        }
        t.push_str("ld v1,v2 .db 1\n cls\n");
        t.into_bytes()
    }, &diag);
    crate::props3::battery(s, &diag);
    paths(s);
}

fn paths(s: &Session) {
    // The path as given.
    let err = c10_errors();
    let listed = ["in.S", "./in.S", "sub/x.S", "a b.S", "é.S", "x:y.S", "UPPER", "-dash.S", ".hidden", "quote'\".S", "%s.S", "{}.S", "/abs/in.S", "sub/../in.S", "looooooooooooooooooooooooooooooooooooooooooooooooooooooooooooooooooooooong.S", " in.S", "in.S ", "\tx.S", "x\u{a0}", "sub//x.S", "././in.S", "sub/./x.S", "in.S.", "~x.S", "$HOME.S", "C:\\x.S", "e\u{301}.S", "\u{65e5}\u{672c}.S", "*.S", "#x.S", "1", "x", "x.asm.bak", "\u{feff}x.S", "...", "in.s", "a/b/c/d.S", "in.S/../in.S"];
    let mut names: Vec<String> = listed.iter().map(|x| x.to_string()).collect();
    // Every character at every end of a name.
    for c in (33u8..127).map(|c| c as char).chain("\t\u{85}\u{e9}\u{301}\u{3000}\u{2028}\u{1F600}".chars()).filter(|c| *c != '/') {
        for t in ["@", "@x.S", "x@.S", "in.S@", "d@@/in@@"] {
            if t != "@" || (c != '.' && c != 'a') {
                names.push(t.replace('@', &c.to_string()));
            }
        }
    }
    let t0 = Instant::now();
    let n = (names.len() * err.len()) as u64;
    let done = s.par(n, 4, |t| s.server(&format!("p{}", t)), |srv, a, b| {
        for i in a..b {
            let (f, e) = (names[i as usize / err.len()].as_str(), err[i as usize % err.len()]);
            if f == "in.S/../in.S" {
                continue; // not a path on Linux
            }
            let dir = srv.dir.clone();
            let given = if f == "/abs/in.S" { dir.join("in.S").to_string_lossy().into_owned() } else { f.to_string() };
            let file = dir.join(f.trim_start_matches("/abs/"));
            std::fs::create_dir_all(dir.join("sub")).unwrap();
            std::fs::create_dir_all(dir.join("a/b/c")).unwrap();
            std::fs::create_dir_all(file.parent().unwrap()).unwrap();
            let src = format!("; é\n  {}", e).into_bytes();
            std::fs::write(&file, &src).unwrap();
            let mut req = standard_request(&dir);
            req.argv = args(&["c8s", "-o", "-", "--", &given]);
            let got = srv.run(&req).expect("run");
            s.cli_runs.fetch_add(1, Relaxed);
            s.traces.fetch_add(1, Relaxed);
            let want = expect(&src);
            if let Err(why) = judge::diagnostic(&given, &Case { idx: i, src: &src, want: &want, got: &got }) {
                s.violate(Violation { space: "paths".into(), idx: i, why: format!("file given as {}: {}", given, why), files: case_files(&src, format!("c8s -o - -- {}\n", given)) });
            }
        }
    });
    s.report_space("paths", "every error kind x 37 spellings of the input path and every printable character (and some others) at the start, the middle and the end of names", "c8s binary", n, done, names.len() as u64 - 1, t0);
}

// ---------------------------------------------------------------- C11

fn c11_bases(s: &Session) -> Vec<(String, String)> {
    let mut v: Vec<(String, String)> = vec![
        ("plain".into(), "cls\nret\n".into()),
        ("operands".into(), "A: ld v0, $1f\nld I, A\ndrw v1,v2,$a\njp A\n".into()),
        ("one-line".into(), "ld v0, 5 ld v1, vF .db 1,2 L: jp L\n".into()),
        ("data".into(), ".org $200\n.db \"a;b\", 1, #fE, %1.1,\n.db \"x\\\"y\"\n".into()),
        ("constant".into(), "KK: .equ $0fF\nadd v0, KK\nL:\nM:\n.db 3\njp M\n".into()),
        ("specials".into(), "ld dt, v0\nld v0, dt\nld st, vA\nld v1, k\nld f, v2\nld b, v3\nld [i], v4\nld v5, [i]\nld i, [i]\nadd i, v6\njp v0, $abc\n".into()),
        ("multi-line string".into(), "cls\n.db \"one\ntwo\", 3\nret\n".into()),
        ("sections".into(), ".org $300\nskp v1\n.org $100\n.db 9\n\n; c\ntrap\ntrapret\n".into()),
    ];
    for (n, t) in sample_programs(s) {
        if n != "test_PONG" || !s.quick() {
            v.push((n, t));
        }
    }
    // Every instruction form once.
    let all: String = forms().iter().map(|f| format!("{}\n", f.text("v3", "vb", "$0a"))).collect();
    v.push(("forms".into(), all));
    v
}

/// One place of a program text where layout may change: replace `a..b` by any of the alternatives.
struct Place {
    a: usize,
    b: usize,
    alts: Vec<String>,
}

fn word(c: char) -> bool {
    c == '_' || c.is_ascii_alphanumeric()
}

fn layout_places(t: &str) -> Vec<Place> {
    let mut tr = Trace::default();
    let toks = model::scan(t, &mut tr);
    let spans_all = {
        // Token spans with comments left out; comments belong to the gap before the line break.
        token_spans(t)
    };
    let kinds: Vec<&Tok> = toks.iter().map(|x| &x.0).filter(|k| !matches!(k, Tok::Comment)).collect();
    let mut v = Vec::new();
    let mut prev_end = 0usize;
    let mut prev: Option<&Tok> = None;
    for (k, (a, b)) in kinds.iter().zip(&spans_all) {
        let gap = &t[prev_end..*a];
        if matches!(k, Tok::Newline) {
            // Line end: comments, blanks, blank lines, CRLF.
            let mut alts: Vec<String> = vec![];
            for x in ["", " ", "\t \t", ";", " ; c", ";c\n", "\n", "\r", " \r", "\n\n\t\n", " ; .db 9\n ;;\n", ";\"", "; é \u{3000}𝄞", ";\\", " ; x: jp 5\r", ";\0", "\n; ?\n"] {
                if x != gap {
                    alts.push(x.to_string());
                }
            }
            v.push(Place { a: prev_end, b: *a, alts });
        } else {
            // Within a line (or at its start).
            let needs = match (t[..prev_end].chars().last(), t[*a..].chars().next()) {
                (Some(p), Some(n)) => word(p) && word(n),
                _ => false,
            };
            // After a number, a following '.' would extend a binary literal; after '%' digits keep the space.
            let glue = matches!(prev, Some(Tok::Num(_)) | Some(Tok::Ident(_))) && t[*a..].starts_with('.');
            let mut alts: Vec<String> = vec![];
            for x in ["", " ", "\t", "   ", " \t ", "\r", " \r\t", "\u{b}", "\u{c}", "\u{a0}", "\u{3000}", "\u{85}", "\u{2028}"] {
                if x == gap || (x.is_empty() && (needs || glue)) {
                    continue;
                }
                alts.push(x.to_string());
            }
            if gap.contains('\n') || gap.contains(';') {
                alts.clear();
            }
            v.push(Place { a: prev_end, b: *a, alts });
        }
        prev_end = *b;
        prev = Some(k);
    }
    v
}

fn case_places(t: &str) -> Vec<Place> {
    let mut tr = Trace::default();
    let toks = model::scan(t, &mut tr);
    let kinds: Vec<&Tok> = toks.iter().map(|x| &x.0).filter(|k| !matches!(k, Tok::Comment)).collect();
    let spans = token_spans(t);
    let mut v = Vec::new();
    let mut in_stmt = false; // after a mnemonic, before the end of its operands
    let mut after_comma = false;
    for (i, (k, (a, b))) in kinds.iter().zip(&spans).enumerate() {
        let text = &t[*a..*b];
        let next = kinds.get(i + 1);
        let mut flip = false;
        match k {
            Tok::Ident(id) => {
                let after_dot = i > 0 && matches!(kinds[i - 1], Tok::Dot);
                if after_dot {
                    flip = true;
                    in_stmt = false;
                } else if matches!(next, Some(Tok::Colon)) {
                    in_stmt = false;
                } else if in_stmt && (after_comma || matches!(kinds[i - 1], Tok::Ident(_)) ) {
                    // operand
                    flip = !matches!(model::operand_of(id), model::Operand::Label(_));
                    in_stmt = matches!(next, Some(Tok::Comma));
                } else {
                    flip = true;
                    in_stmt = !matches!(next, Some(Tok::Newline) | None);
                }
            }
            Tok::Num(_) => {
                flip = text.starts_with('$') || text.starts_with('#');
                in_stmt = in_stmt && matches!(next, Some(Tok::Comma));
            }
            Tok::Newline => in_stmt = false,
            _ => {}
        }
        after_comma = matches!(k, Tok::Comma);
        if flip {
            let pos: Vec<usize> = text.char_indices().filter(|(_, c)| c.is_ascii_alphabetic()).map(|(i, _)| i).collect();
            let n = pos.len().min(8);
            let mut alts = Vec::new();
            for m in 0..(1u32 << n) {
                let x: String = text
                    .char_indices()
                    .map(|(i, c)| match pos.iter().position(|p| *p == i) {
                        Some(k) if m >> k.min(7) & 1 == 1 => c.to_ascii_uppercase(),
                        Some(_) => c.to_ascii_lowercase(),
                        None => c,
                    })
                    .collect();
                if x != text {
                    alts.push(x);
                }
            }
            v.push(Place { a: *a, b: *b, alts });
        }
    }
    v
}

fn replace_at(t: &str, places: &[(usize, usize, &str)]) -> Vec<u8> {
    // Places in ascending order.
    let mut o = String::with_capacity(t.len() + 64);
    let mut p = 0;
    for (a, b, x) in places {
        o.push_str(&t[p..*a]);
        o.push_str(x);
        p = *b;
    }
    o.push_str(&t[p..]);
    o.into_bytes()
}

pub fn c11(s: &Session) {
    let mut srv = s.server("base11");
    let bases: Vec<(String, String, RunResult)> = c11_bases(s)
        .into_iter()
        .map(|(n, t)| {
            let r = s.cli(&mut srv, t.as_bytes());
            (n, t, r)
        })
        .collect();
    let accepted = bases.iter().filter(|b| b.2.status == Status::Exit(0)).count();
    if accepted < bases.len() {
        s.note(format!("{} of {} base programs are not accepted by this tree and are left out", bases.len() - accepted, bases.len()));
    }
    for (name, t, base) in bases.iter().filter(|b| b.2.status == Status::Exit(0)) {
        let same = |c: &Case| {
            if c.got.status == base.status && c.got.out == base.out {
                Ok(())
            } else {
                Err(format!("the program '{}' changes its result when rewritten as {}: {} {}", name, show(c.src), status_text(&c.got.status), show(&c.got.out)))
            }
        };
        for (kind, places) in [("layout", layout_places(t)), ("case", case_places(t))] {
            let single: Vec<(usize, usize)> = places.iter().enumerate().flat_map(|(i, p)| (0..p.alts.len()).map(move |j| (i, j))).collect();
            let one = |k: u64| {
                let (i, j) = single[k as usize];
                replace_at(t, &[(places[i].a, places[i].b, &places[i].alts[j])])
            };
            s.space(&format!("{}-{}", kind, name), &format!("every single {} change of base program '{}'", kind, name), single.len() as u64, inproc(4000), &one, &same);
            if single.len() < 6000 || s.quick() {
                // The binary on a covering subset in the quick tier: every place once per alternative index class.
                let step = if s.quick() { (single.len() as u64 / 1500).max(1) } else { 1 };
                if step == 1 {
                    s.space(&format!("{}-{}-cli", kind, name), "the same on the binary", single.len() as u64, CLI, &one, &same);
                }
            }
            let m = single.len() as u64;
            if m * m * t.len() as u64 <= s.t(400_000_000, 6_000_000_000) {
                s.space(
                    &format!("{}-pairs-{}", kind, name),
                    &format!("every pair of {} changes of base program '{}'", kind, name),
                    m * m,
                    inproc(0),
                    &|k| {
                        let (x, y) = (single[(k / m) as usize], single[(k % m) as usize]);
                        if x.0 >= y.0 {
                            return t.clone().into_bytes();
                        }
                        let (p, q) = (&places[x.0], &places[y.0]);
                        replace_at(t, &[(p.a, p.b, &p.alts[x.1]), (q.a, q.b, &q.alts[y.1])])
                    },
                    &same,
                );
            }
            // The same alternative everywhere at once.
            let most = places.iter().map(|p| p.alts.len()).max().unwrap_or(0) as u64;
            s.space(
                &format!("{}-all-{}", kind, name),
                &format!("the same {} change at every place at once", kind),
                most,
                CLI,
                &|k| {
                    let v: Vec<(usize, usize, &str)> = places.iter().filter(|p| (p.alts.len() as u64) > k).map(|p| (p.a, p.b, p.alts[k as usize].as_str())).collect();
                    replace_at(t, &v)
                },
                &same,
            );
        }
        // Whole-text CRLF (outside strings) is the "\r" alternative of every line end; see layout-all.
    }
    // Comments: arbitrary text.
    let host = ["cls @\nret\n", ".db 1, @\n.db 2\n", "A: @\n.equ 5\nld v0, A\n", "jp 5 @\n@\n", "@\ncls\n", ".db \"s\" @\nret @\n", "ld v0,v1, @\ncls\n"];
    let base: Vec<RunResult> = host.iter().map(|h| s.cli(&mut srv, h.replace('@', ";").as_bytes())).collect();
    let same_host = |nh: u64| {
        let base = &base;
        move |c: &Case| {
            let b = &base[(c.idx % nh) as usize];
            if b.status != Status::Exit(0) || (c.got.status == b.status && c.got.out == b.out) {
                Ok(())
            } else {
                Err(format!("a comment changes the result: {}: {} {}", show(c.src), status_text(&c.got.status), show(&c.got.out)))
            }
        }
    };
    let nh = host.len() as u64;
    s.space("comment-characters", "every Unicode scalar value but the line feed in a comment, in 7 places", 0x110000 * nh, inproc(0x400 * nh), &|i| {
        let mut c = char::from_u32((i / nh) as u32).unwrap_or(' ');
        if c == '\n' {
            c = ' ';
        }
        host[(i % nh) as usize].replace('@', &format!(";{}", c)).into_bytes()
    }, &same_host(nh));
    let frag = ["\"", "\\", ";", ".db 9", "X:", ",", "$", "[", "\r", "é", " ", "cls", "%", "\u{2028}", ":", "0"];
    let kf = frag.len() as u64;
    let nf = seqs(kf, 0, s.t(4, 5));
    s.space("comment-text", "every comment of up to 4 (thorough: 5) of 16 fragments, in 7 places", nf * nh, inproc(30_000), &|i| {
        let c: String = seq(kf, 0, i / nh).iter().map(|x| frag[*x]).collect();
        host[(i % nh) as usize].replace('@', &format!(";{}", c)).into_bytes()
    }, &same_host(nh));
    s.space("comment-text-cli", "every comment of up to 3 fragments, on the binary", seqs(kf, 0, 3) * nh, CLI, &|i| {
        let c: String = seq(kf, 0, i / nh).iter().map(|x| frag[*x]).collect();
        host[(i % nh) as usize].replace('@', &format!(";{}", c)).into_bytes()
    }, &same_host(nh));
    // Blank space, line ends and comments in every order where a line ends or starts.
    let lay = ["\n", "\r\n", " ", "\t", "\r", "; ret", ";.db \u{e9}", ";"];
    let kl = lay.len() as u64;
    let lhost = ["cls@ret\n", "A:@.equ 5\nld v0, A\n", "@X: cls@", ".org $300@.db 1, 2@.db \"s\"@", "L:@jp L\n"];
    let lbase: Vec<RunResult> = lhost.iter().map(|h| s.cli(&mut srv, h.replace('@', "\n").as_bytes())).collect();
    let nlh = lhost.len() as u64;
    let lay_src = |i: u64| {
        let c: String = seq(kl, 0, i / nlh).iter().map(|x| lay[*x]).collect();
        lhost[(i % nlh) as usize].replace('@', &format!("{}\n", c)).into_bytes()
    };
    let lay_same = |c: &Case| {
        let b = &lbase[(c.idx % nlh) as usize];
        if b.status != Status::Exit(0) || (c.got.status == b.status && c.got.out == b.out) {
            Ok(())
        } else {
            Err(format!("blank space, line ends or comments change the result: {}: {} {}", show(c.src), status_text(&c.got.status), show(&c.got.out)))
        }
    };
    s.space("layout-sequences", "every sequence of up to 5 (thorough: 6) of 8 pieces of layout (line ends, blanks, comments) at every line end of 5 programs", seqs(kl, 0, s.t(5, 6)) * nlh, inproc(20_000), &lay_src, &lay_same);
    s.space("layout-sequences-cli", "every sequence of up to 3 pieces of layout, on the binary", seqs(kl, 0, 3) * nlh, CLI, &lay_src, &lay_same);
    // Registers and hexadecimal digits in every case, every position that takes one.
    let forms_v: Vec<_> = forms().iter().filter(|f| !f.slots.is_empty()).collect();
    let mut pairs: Vec<(String, String)> = Vec::new();
    for f in &forms_v {
        for x in 0..16u32 {
            for v in [0xau32, 0xfu32, 0xb] {
                let lower = f.text(&format!("v{:x}", x), &format!("v{:x}", 15 - x), &format!("${:x}", v)).to_lowercase();
                let n = lower.chars().filter(|c| c.is_ascii_alphabetic()).count();
                for m in 0..(1u64 << n.min(10)) {
                    let mut k = 0;
                    let t: String = lower
                        .chars()
                        .map(|c| {
                            if c.is_ascii_alphabetic() {
                                k += 1;
                                if m >> ((k - 1) % 10) & 1 == 1 {
                                    return c.to_ascii_uppercase();
                                }
                            }
                            c
                        })
                        .collect();
                    pairs.push((lower.clone() + "\n", t + "\n"));
                }
                if !f.has(Slot::Addr) && !f.has(Slot::Byte) && !f.has(Slot::Nibble) {
                    break;
                }
            }
            if !f.has(Slot::X) && !f.has(Slot::Y) {
                break;
            }
        }
    }
    // The base of each pair is the implementation's own result for the lower-case text.
    let mut base_of: BTreeMap<String, RunResult> = BTreeMap::new();
    for (l, _) in &pairs {
        if !base_of.contains_key(l) {
            let r = s.cli(&mut srv, l.as_bytes());
            base_of.insert(l.clone(), r);
        }
    }
    s.space("case-forms", "every instruction form x every register x every letter-case pattern of the whole statement (up to 10 letters independently)", pairs.len() as u64, inproc(40_000), &|i| pairs[i as usize].1.clone().into_bytes(), &|c: &Case| {
        let b = &base_of[&pairs[c.idx as usize].0];
        if c.got.status == b.status && (b.status != Status::Exit(0) || c.got.out == b.out) {
            Ok(())
        } else {
            Err(format!("letter case changes the result of {}: {} {}", show(c.src), status_text(&c.got.status), show(&c.got.out)))
        }
    });
    s.space("case-hex", "every hexadecimal literal of one to three digits in every case pattern, $ and #", 3 * 4096 * 8 * 2, inproc(20_000), &|i| {
        let d = digits(i, &[3, 4096, 8, 2]);
        let digits_ = format!("{:0w$x}", d[1] & (0xFFF >> (8 - 4 * d[0])), w = d[0] + 1);
        let t: String = digits_.chars().enumerate().map(|(k, c)| if d[2] >> k & 1 == 1 { c.to_ascii_uppercase() } else { c }).collect();
        format!("jp {}{}\n", ["$", "#"][d[3]], t).into_bytes()
    }, &judge::full);
    crate::props3::battery(s, &judge::full);
}

// ---------------------------------------------------------------- C14

fn c14_programs(s: &Session) -> Vec<Vec<u8>> {
    let mut v: Vec<Vec<u8>> = sample_programs(s).into_iter().map(|(_, t)| t.into_bytes()).collect();
    for (_, t) in good_sources() {
        v.push(t);
    }
    for (_, t) in failing_sources() {
        v.push(t);
    }
    let mut labels = String::new();
    for k in 0..60 {
        labels.push_str(&format!("L{}: .equ {}\n", k, k * 3));
    }
    v.push(format!("{}{}", labels, (0..60).map(|k| format!("ld v1, L{}\n", k)).collect::<String>()).into_bytes());
    v.push(format!("{}L7: cls\nL9: cls\n", labels).into_bytes());
    v.push(b"jp a\njp b\njp c\njp d\n".to_vec());
    v.push(b"a: jp x\nb: jp y\nc: jp z\nx: cls\n".to_vec());
    v.push(b"A: B: C: D: E: F1: cls\nB: A: D: C:\n".to_vec());
    v.push(b".db 1,2,3,4\n.org 1\n.db 5,6,7\n.org 2\n.db 8\n.org 0\n.db 9\n.org 3\n.db 1,1,1,1\n".to_vec());
    v.push(b".org 5\n.db 1\n.org 9\n.db 2\n.org 1\n.db 3\n.org 7\n.db 4\n".to_vec());
    v.push("; é\n.db \"日本語\"\n é\n".as_bytes().to_vec());
    v.push(b"#!/usr/bin/env c8s\ncls\n".to_vec());
    v.push(format!("cls\n{}E: jp E\n.db \"end\"\n", "; a long remark of no consequence\n".repeat(5_000)).into_bytes());
    v.push(b"main: jp main\nMAIN: jp Main\nMain: jp MAIN\n".to_vec());
    let mut many = String::new();
    for k in 0..12 {
        many.push_str(&format!("s{}: .org {}\n.db {}, {}\n", k, 0x200 + 37 * (k * 7 % 12), k, 255 - k));
    }
    v.push(many.into_bytes());
    // Large ones: names of many lengths, on many and on few addresses, repeated and missing.
    let name = |k: usize| format!("{}{}", ["a", "Label_", "a_name_of_more_than_forty_characters_for_", "Q_", "x"][k % 5], k);
    let defs = |n: usize| (0..n).map(|k| format!("{}: .equ {}\n", name(k), k % 256)).collect::<String>();
    let at = |n: usize| (0..n).map(|k| format!("{}: cls\n", name(k))).collect::<String>();
    let uses = |n: usize| (0..n).map(|k| format!("call {}\n", name((k * 7 + 3) % n))).collect::<String>();
    v.push(format!("{}{}", defs(700), uses(700)).into_bytes());
    v.push(format!("{}{}", uses(600), at(600)).into_bytes());
    v.push(format!("{}{}{}", at(400), name(17) + ": ", name(5) + ": ret\n").into_bytes());
    v.push(format!("{}jp m1\njp m2\njp m3\n", at(400)).into_bytes());
    v.push(format!("{}ld v1, K1\nld v2, K2\nK1: .equ 300\nK2: .equ 301\n", defs(300)).into_bytes());
    v.push((0..40).map(|k| format!("{}: .org {}\n.db {}, 1, 2\n", name(k), 0x300 + (k * 11) % 40, k)).collect::<String>().into_bytes());
    // Names near a missing one, and near a repeated one.
    let near = ["loop1", "loop2", "loop3", "loop4", "loop5", "Loop", "LOOP", "loopp", "lop", "xloop", "loo", "looq", "lo0p", "loop_", "_loop", "l", "pool", "olop", "loop12", "loop_end", "start_loop"];
    let all: String = near.iter().map(|n| format!("{}: cls\n", n)).collect();
    for u in ["jp loop\n", "ld i, loop\n", "ld v1, loop\n", "lopp v0\n", ".loop 1\n", "loop1: cls\n", "LOOP: .equ 1\n", "jp lOOp\njp oop\n"] {
        v.push(format!("{}{}", all, u).into_bytes());
        v.push(format!("{}{}", u, all).into_bytes());
    }
    v.push((0..200).map(|k| format!(".org {}\n{}: .db {}\n", 0x200 + 16 * ((k * 37) % 200), name(k), k)).collect::<String>().into_bytes());
    v
}

#[derive(PartialEq, Eq, Clone, Debug)]
struct Seen {
    status: Status,
    hex: Option<Vec<u8>>,
    said: Vec<u8>,
}

#[derive(Clone, Copy)]
enum Mode {
    Stdout,
    File,
    Over,
    Stale,
    Extended,
    Default,
}

fn observe(s: &Session, srv: &mut Server, dir: &Path, input: &str, mode: Mode, seed: u64, env: &[String], result: &[u8]) -> (Seen, RunResult) {
    let out = match mode {
        Mode::Stdout => None,
        Mode::File | Mode::Over | Mode::Stale | Mode::Extended => Some("out.hex"),
        Mode::Default => Some("a.hex"),
    };
    if let Some(o) = out {
        let p = dir.join(o);
        match mode {
            Mode::Over | Mode::Stale | Mode::Extended => {
                let prior = match mode {
                    Mode::Over => vec![b'q'; 5000],
                    Mode::Stale => result.iter().map(|b| if *b == b'0' { b'1' } else { *b }).collect(),
                    _ => [result, b":0100000055AA\n"].concat(),
                };
                std::fs::write(&p, prior).unwrap();
                make_rw(&p);
            }
            Mode::File => {
                let _ = std::fs::remove_file(&p);
            }
            _ => {} // whatever an earlier run left
        }
    }
    let stamp = out.map(|o| node(&dir.join(o)));
    let mut req = standard_request(dir);
    req.seed = Some(seed);
    req.env = env.iter().map(|e| e.as_bytes().to_vec()).collect();
    req.argv = match mode {
        Mode::Stdout => args(&["c8s", "-o", "-", input]),
        Mode::Default => args(&["c8s", input]),
        _ => args(&["c8s", "-o", "out.hex", input]),
    };
    req.want_calls = true;
    let r = srv.run(&req).expect("run");
    s.cli_runs.fetch_add(1, Relaxed);
    let ok = r.status == Status::Exit(0);
    let hex = if !ok {
        None
    } else {
        match out {
            None => Some(r.out.clone()),
            Some(o) => std::fs::read(dir.join(o)).ok(),
        }
    };
    let mut said = if ok && out.is_none() { vec![] } else { r.out.clone() };
    said.extend_from_slice(&r.err);
    if !ok {
        if let (Some(o), Some(b)) = (out, stamp) {
            if node(&dir.join(o)) != b {
                said.extend_from_slice(b"(and the output file was changed)");
            }
        }
    }
    (Seen { status: r.status.clone(), hex, said }, r)
}

pub fn c14(s: &Session) {
    let progs = c14_programs(s);
    let e = |v: &[&str]| v.iter().map(|x| x.to_string()).collect::<Vec<_>>();
    let mut envs: Vec<Vec<String>> = vec![
        e(&["PATH=/usr/bin:/bin"]),
        e(&[]),
        e(&["LANG=C", "LC_ALL=C"]),
        e(&["LANG=tr_TR.UTF-8", "LC_ALL=tr_TR.UTF-8", "LC_CTYPE=tr_TR.UTF-8"]),
        e(&["LANG=ja_JP.SJIS", "TZ=Asia/Tokyo"]),
        e(&["RUST_BACKTRACE=1", "RUST_LIB_BACKTRACE=1", "RUST_LOG=trace", "RUST_MIN_STACK=1"]),
        e(&["HOME=/", "TMPDIR=/", "PWD=/", "OLDPWD=/", "USER=x"]),
        e(&["TERM=xterm-256color", "COLUMNS=7", "CLICOLOR_FORCE=1", "NO_COLOR=1", "FORCE_COLOR=1"]),
        e(&["DEBUG=1", "VERBOSE=1", "C8S=1", "C8S_OPTS=-v", "C8S_FLAGS=--help", "C8S_DEBUG=1", "C8S_OUTPUT=x.hex", "CHIP8=1"]),
    ];
    envs.push((0..400).map(|k| format!("V{}={}", k, "y".repeat(k))).collect());
    let modes = [Mode::Stdout, Mode::File, Mode::Over, Mode::Stale, Mode::Extended, Mode::Default];
    let nm = modes.len() as u64;
    let seeds = s.t(24u64, 96);
    // Reference observations.
    let mut srv = s.server("ref");
    let mut asked: BTreeSet<String> = BTreeSet::new();
    let refs: Vec<Seen> = progs
        .iter()
        .map(|p| {
            let dir = srv.dir.clone();
            std::fs::write(dir.join("in.S"), p).unwrap();
            observe(s, &mut srv, &dir, "in.S", Mode::Stdout, 1, &envs[0], b"").0
        })
        .collect();
    // Which variables does the program ask for? Asked again with those set, because one variable may guard another.
    for value in ["", "0", "1", "x"] {
        for _ in 0..3 {
            let known = asked.len();
            let env: Vec<String> = if value.is_empty() { envs[0].clone() } else { asked.iter().map(|a| format!("{}={}", a, value)).collect() };
            for p in &progs {
                let dir = srv.dir.clone();
                std::fs::write(dir.join("in.S"), p).unwrap();
                for m in [Mode::Stdout, Mode::File, Mode::Default] {
                    let (_, r) = observe(s, &mut srv, &dir, "in.S", m, 1, &env, b"");
                    asked.extend(r.calls.iter().filter(|c| c.kind == CallKind::Other && !c.path.starts_with(['@', '?'])).map(|c| c.path.clone()));
                }
            }
            if asked.len() == known {
                break;
            }
        }
    }
    // The harness itself: the environment of a request must reach the program.
    if Path::new("/usr/bin/env").exists() {
        let dir = srv.dir.join("self-test");
        std::fs::create_dir_all(&dir).unwrap();
        make_public(&dir);
        let mut probe = Server::new(Path::new("/usr/bin/env"), &s.paths.shim, &dir).expect("self-test server");
        let mut req = standard_request(&dir);
        req.argv = args(&["env"]);
        req.env = vec![b"ONE=1".to_vec(), b"TWO=22".to_vec()];
        let r = probe.run(&req).expect("self-test");
        assert_eq!(r.out, b"ONE=1\nTWO=22\n", "the harness does not deliver the environment");
        s.note("self-test: the environment of a request reaches the program");
        if Path::new("/usr/bin/date").exists() {
            let mut probe = Server::new(Path::new("/usr/bin/date"), &s.paths.shim, &dir).expect("self-test server");
            req.argv = args(&["date", "-u", "+%s"]);
            req.world.time = Some(951_782_400);
            let r = probe.run(&req).expect("self-test");
            if r.out == b"951782400\n" {
                s.note("self-test: the clock of a request reaches the program");
            } else {
                s.note("self-test: the clock of a request does not reach date(1)");
            }
        }
    }
    for (k, r) in refs.iter().enumerate() {
        s.count_outcome(&format!("reference {}", status_text(&r.status)), 1);
        if k % 6 == 0 {
            s.sample(format!("program {}: {} => {} {}", k, show(&progs[k]), status_text(&r.status), show(r.hex.as_ref().unwrap_or(&r.said))));
        }
    }
    s.note(format!("environment variables the program asks for: {:?}", asked));
    // Variables the program asks for, however they are named, get values of their own.
    for a in &asked {
        for v in ["", "0", "1", "2", "16", "512", "x", "-v", "true", "yes", "on", "full", "debug", "C", "/nonexistent", "."] {
            envs.push(vec![format!("{}={}", a, v)]);
        }
    }
    let report = |space: &str, idx: u64, p: &[u8], how: String, want: &Seen, got: &Seen| {
        s.violate(Violation {
            space: space.into(),
            idx,
            why: format!("the same source gives a different result {}: {} {} instead of {} {}", how, status_text(&got.status), show(got.hex.as_ref().unwrap_or(&got.said)), status_text(&want.status), show(want.hex.as_ref().unwrap_or(&want.said))),
            files: case_files(p, format!("{}\nreference: {:?}\nobserved: {:?}\n", how, want, got)),
        })
    };
    let np = progs.len() as u64;
    let ne = envs.len() as u64;
    let t0 = Instant::now();
    let n = np * ne * nm * seeds;
    let distinct = Mutex::new(HashSet::new());
    let done = s.par(n / seeds, 2, |t| s.server(&format!("e{}", t)), |srv, a, b| {
        for i in a..b {
            let d = digits(i, &[np, ne, nm]);
            let dir = srv.dir.clone();
            std::fs::write(dir.join("in.S"), &progs[d[0]]).unwrap();
            for seed in 0..seeds {
                let (o, _) = observe(s, srv, &dir, "in.S", modes[d[2]], seed, &envs[d[1]], refs[d[0]].hex.as_deref().unwrap_or(b"stale\n"));
                s.traces.fetch_add(1, Relaxed);
                if o != refs[d[0]] {
                    report("environments", i, &progs[d[0]], format!("(environment {:?}, output mode {}, hash seed {})", &envs[d[1]].iter().take(4).collect::<Vec<_>>(), ["stdout", "file", "existing file", "existing file of equal length", "existing longer file with the result first", "default"][d[2]], seed), &refs[d[0]], &o);
                    return;
                }
            }
            distinct.lock().unwrap().insert((d[1], d[2]));
        }
    });
    let dn = distinct.lock().unwrap().len() as u64;
    s.report_space("environments", &format!("{} programs x {} environments x {} output modes (existing files of other length, equal length and longer included) x {} hash seeds", np, ne, nm, seeds), "c8s binary", n, done * seeds, dn, t0);
    s.transitions.fetch_add(done * seeds, Relaxed);
    s.add_states(&(0..np * ne * nm).map(|i| model::mix(77, i)).collect::<Vec<_>>());
    // Many hash seeds for every program.
    let t0 = Instant::now();
    let many = s.t(400u64, 3000);
    let done = s.par(np * many, 16, |t| s.server(&format!("h{}", t)), |srv, a, b| {
        for i in a..b {
            let (p, seed) = ((i / many) as usize, i % many);
            let dir = srv.dir.clone();
            if i == a || i % many == 0 {
                std::fs::write(dir.join("in.S"), &progs[p]).unwrap();
            }
            let (o, _) = observe(s, srv, &dir, "in.S", Mode::Stdout, 1000 + seed, &envs[0], b"");
            s.traces.fetch_add(1, Relaxed);
            if o != refs[p] {
                report("seeds", i, &progs[p], format!("(hash seed {})", 1000 + seed), &refs[p], &o);
                return;
            }
        }
    });
    s.report_space("seeds", &format!("every program x {} hash seeds", many), "c8s binary", np * many, done, np, t0);
    s.transitions.fetch_add(done, Relaxed);
    // Histories: Q after P in the same directory with the same output.
    let t0 = Instant::now();
    let len = s.t(2u32, 2);
    let n = np.pow(len) * 2;
    let done = s.par(n, 4, |t| s.server(&format!("q{}", t)), |srv, a, b| {
        for i in a..b {
            let d = digits(i, &[np, np, 2]);
            let dir = srv.dir.clone();
            wipe(&dir);
            let mode = [Mode::Default, Mode::Stdout][d[2]];
            let env = vec![format!("HOME={}", dir.display()), format!("TMPDIR={}", dir.display()), format!("XDG_CACHE_HOME={}", dir.display())];
            for (step, p) in [d[0], d[1], d[0]].iter().enumerate() {
                std::fs::write(dir.join("in.S"), &progs[*p]).unwrap();
                let (o, _) = observe(s, srv, &dir, "in.S", mode, 1, &env, b"");
                s.traces.fetch_add(1, Relaxed);
                if o != refs[*p] {
                    report("histories", i, &progs[*p], format!("(step {} of the run history {}, {}, {})", step + 1, d[0], d[1], d[0]), &refs[*p], &o);
                    return;
                }
            }
        }
    });
    s.report_space("histories", "every history P, Q, P of runs in one directory, default output and standard output", "c8s binary", n, done, np * np, t0);
    s.transitions.fetch_add(done * 3, Relaxed);
    s.add_states(&(0..n).map(|i| model::mix(78, i)).collect::<Vec<_>>());
    // Working directory and spelling of the path.
    let t0 = Instant::now();
    let spell = ["in.S", "./in.S", "sub/../in.S", ".//in.S", "sub/.././sub/../in.S"];
    let n = np * spell.len() as u64 * 4;
    let done = s.par(n, 4, |t| s.server(&format!("c{}", t)), |srv, a, b| {
        for i in a..b {
            let d = digits(i, &[np, spell.len() as u64, 4]);
            let dir = srv.dir.clone();
            let sub = dir.join("sub");
            std::fs::create_dir_all(&sub).unwrap();
            make_public(&sub);
            std::fs::write(dir.join("in.S"), &progs[d[0]]).unwrap();
            // Run from the directory itself (relative and absolute), from a sub-directory, and from the root.
            let (cwd, path) = match d[2] {
                0 => (dir.clone(), spell[d[1]].to_string()),
                1 => (sub.clone(), format!("../{}", spell[d[1]])),
                2 => (dir.clone(), format!("{}/{}", dir.display(), spell[d[1]])),
                _ => (Path::new("/").to_path_buf(), format!("{}/{}", &dir.display().to_string()[1..], spell[d[1]])),
            };
            let mut req = standard_request(&cwd);
            req.argv = args(&["c8s", "-o", "-", &path]);
            let r = srv.run(&req).expect("run");
            s.cli_runs.fetch_add(1, Relaxed);
            s.traces.fetch_add(1, Relaxed);
            let want = &refs[d[0]];
            let ok = r.status == Status::Exit(0);
            let got = Seen {
                status: r.status.clone(),
                hex: if ok { Some(r.out.clone()) } else { None },
                said: if ok { vec![] } else { String::from_utf8_lossy(&r.out).replace(&path, "in.S").into_bytes() },
            };
            let plain = String::from_utf8_lossy(&want.said).into_owned().into_bytes();
            if got.status != want.status || got.hex != want.hex || got.said != plain {
                report("places", i, &progs[d[0]], format!("(run in {} with the path {})", cwd.display(), path), want, &got);
            }
        }
    });
    s.report_space("places", "every program x 5 spellings of its path x 4 working directories or absolute prefixes, diagnostics compared up to the path as given", "c8s binary", n, done, spell.len() as u64 * 4, t0);
    s.transitions.fetch_add(done, Relaxed);
    s.add_states(&(0..n).map(|i| model::mix(79, i)).collect::<Vec<_>>());
    worlds(s, &progs, &refs, &report);
}

/// The recorded questions that name a file other than the known ones (and other than what the system itself reads).
fn other_paths<'a>(asked: impl Iterator<Item = &'a String>, known: &[&str]) -> Vec<String> {
    let system = ["/proc", "/sys", "/dev", "/usr", "/lib", "/etc/ld.so"];
    asked
        .filter_map(|k| k.strip_prefix('?'))
        .map(|p| p.trim_start_matches("@HOME@/").trim_start_matches("./"))
        .filter(|p| !p.is_empty() && !["-", ".", "..", "/", "@HOME@"].contains(p) && !known.contains(p) && !system.iter().any(|x| p.starts_with(x)))
        .map(|p| p.to_string())
        .collect::<BTreeSet<_>>()
        .into_iter()
        .collect()
}

/// Makes the file exist for the program: really, when it lies in the scratch directory, else by leading the path there.
fn provide(dir: &Path, path: &str, content: &[u8], req: &mut Request) -> bool {
    let f = if path.starts_with('/') || path.split('/').any(|x| x == "..") {
        let f = dir.join("elsewhere");
        req.world.redirect = Some((path.to_string(), f.display().to_string()));
        f
    } else {
        dir.join(path)
    };
    if let Some(p) = f.parent() {
        if p != dir {
            let _ = std::fs::create_dir_all(p);
            make_public(p);
        }
    }
    if std::fs::write(&f, content).is_err() {
        return false;
    }
    make_rw(&f);
    true
}

type Report<'a> = &'a (dyn Fn(&str, u64, &[u8], String, &Seen, &Seen) + Sync);

fn seen_on_stdout(r: &RunResult) -> Seen {
    let ok = r.status == Status::Exit(0);
    Seen { status: r.status.clone(), hex: if ok { Some(r.out.clone()) } else { None }, said: if ok { r.err.clone() } else { [&r.out[..], &r.err[..]].concat() } }
}

/// Diagnostics mention the path as given.
fn with_path(want: &Seen, path: &str) -> Seen {
    let mut w = want.clone();
    w.said = String::from_utf8_lossy(&w.said).replace("in.S", path).into_bytes();
    w
}

/// Clock, process, terminal, other files, and the ways a source can lie in the file system.
fn worlds(s: &Session, progs: &[Vec<u8>], refs: &[Seen], report: Report) {
    let np = progs.len() as u64;
    let t0 = Instant::now();
    let w = World::default();
    let mut all: Vec<World> = vec![w.clone()];
    for t in [0i64, 1, 59, 951_782_400, 1_709_164_800, 1_735_689_599, 0x7FFF_FFFF, 0x8000_0000, 0xFFFF_FFFF, 0x1_0000_0000, 253_402_300_799, -1] {
        all.push(World { time: Some(t), ..w.clone() });
    }
    for p in [1u32, 2, 255, 256, 32768, 4_194_303] {
        all.push(World { pid: p, ..w.clone() });
    }
    for tty in [1, 2] {
        for uid in [0, 1, 1001] {
            for cpus in [0, 1, 64] {
                all.push(World { tty, uid, cpus, ..w.clone() });
            }
        }
    }
    let nw = all.len() as u64;
    let modes: [&[&str]; 3] = [&["c8s", "-o", "-", "in.S"], &["c8s", "in.S", "-o", "out.hex"], &["c8s", "in.S"]];
    let asked: Mutex<BTreeMap<String, u64>> = Mutex::new(BTreeMap::new());
    let n = np * nw * 3;
    let done = s.par(n, 8, |t| s.server(&format!("k{}", t)), |srv, a, b| {
        for i in a..b {
            let d = digits(i, &[np, nw, 3]);
            let dir = srv.dir.clone();
            std::fs::write(dir.join("in.S"), &progs[d[0]]).unwrap();
            let mut req = standard_request(&dir);
            req.argv = args(modes[d[2]]);
            req.world = all[d[1]].clone();
            req.env.push(format!("HOME={}", dir.display()).into_bytes());
            req.want_calls = true;
            let r = srv.run(&req).expect("run");
            s.cli_runs.fetch_add(1, Relaxed);
            s.traces.fetch_add(1, Relaxed);
            {
                let mut m = asked.lock().unwrap();
                for c in &r.calls {
                    let k = match c.kind {
                        CallKind::Other => c.path.clone(),
                        CallKind::Open => format!("?{}", c.path),
                        _ => continue,
                    };
                    *m.entry(k.replace(&dir.display().to_string(), "@HOME@")).or_insert(0) += 1;
                }
            }
            let mut got = seen_on_stdout(&r);
            if d[2] > 0 && r.status == Status::Exit(0) {
                got.said = [&r.out[..], &r.err[..]].concat();
                got.hex = std::fs::read(dir.join(["", "out.hex", "a.hex"][d[2]])).ok();
            }
            if got != refs[d[0]] {
                report("worlds", i, &progs[d[0]], format!("(arguments {:?}, world {:?})", modes[d[2]], all[d[1]]), &refs[d[0]], &got);
                return;
            }
        }
    });
    s.report_space("worlds", "every program x 37 worlds (clock times, process ids, terminal or not, user ids, processor counts) x 3 ways to deliver the result", "c8s binary", n, done, nw, t0);
    s.transitions.fetch_add(done, Relaxed);
    s.add_states(&(0..n).map(|i| model::mix(80, i)).collect::<Vec<_>>());
    // Working directories that are gone, closed or elsewhere, with full paths for source and result.
    let t0 = Instant::now();
    let places = ["removed", "search only", "root"];
    let n = np * places.len() as u64 * 2;
    let done = s.par(n, 4, |t| s.server(&format!("g{}", t)), |srv, a, b| {
        use std::os::unix::fs::PermissionsExt;
        for i in a..b {
            let d = digits(i, &[2, places.len() as u64, np]);
            let dir = srv.dir.clone();
            wipe(&dir);
            std::fs::write(dir.join("in.S"), &progs[d[2]]).unwrap();
            let out = if d[0] == 0 { "-".to_string() } else { dir.join("out.hex").display().to_string() };
            let input = dir.join("in.S").display().to_string();
            let mut seen = Vec::new();
            for odd in [false, true] {
                let _ = std::fs::remove_file(dir.join("out.hex"));
                let mut req = standard_request(&dir);
                req.argv = args(&["c8s", "-o", &out, &input]);
                if odd {
                    let w = dir.join("w");
                    match d[1] {
                        0 => {
                            std::fs::create_dir(&w).unwrap();
                            make_public(&w);
                            req.cwd = w;
                            req.world.gone = true;
                        }
                        1 => {
                            std::fs::create_dir(&w).unwrap();
                            std::fs::set_permissions(&w, std::fs::Permissions::from_mode(0o111)).unwrap();
                            req.cwd = w;
                        }
                        _ => req.cwd = "/".into(),
                    }
                }
                let r = srv.run(&req).expect("run");
                s.cli_runs.fetch_add(1, Relaxed);
                let mut got = seen_on_stdout(&r);
                if d[0] == 1 {
                    got.said = [&r.out[..], &r.err[..]].concat();
                    got.hex = std::fs::read(dir.join("out.hex")).ok();
                }
                seen.push(got);
            }
            s.traces.fetch_add(1, Relaxed);
            if seen[0] != seen[1] {
                report("directories", i, &progs[d[2]], format!("(arguments -o {} {}, working directory {})", out, input, places[d[1]]), &seen[0], &seen[1]);
                return;
            }
        }
    });
    s.report_space("directories", "every program by its full path from a working directory that was removed, may not be listed or is the root, to standard output and to a file", "c8s binary", n, done, 4, t0);
    s.transitions.fetch_add(done * 2, Relaxed);
    // Other files the program looks at.
    let t0 = Instant::now();
    let asked = asked.into_inner().unwrap();
    let facts: Vec<&String> = asked.keys().filter(|k| k.starts_with('@')).collect();
    let files = other_paths(asked.keys(), &["in.S", "out.hex", "a.hex"]);
    s.note(format!("facts of the world the program asks for: {:?}; files other than input and output it looks at: {:?}", facts, files));
    let contents: [&[u8]; 10] = [b"", b"1", b"0\n", b"x", b"cls\n", b".org $300\n", b"L: .equ 5\n", b"org = 512\noutput = z.hex\n", b"--output z.hex\n", b"\xff\xfe"];
    let nf = files.len() as u64 * contents.len() as u64;
    let done = s.par(np * nf * 3, 4, |t| s.server(&format!("l{}", t)), |srv, a, b| {
        for i in a..b {
            let d = digits(i, &[np, files.len() as u64, contents.len() as u64, 3]);
            let dir = srv.dir.clone();
            wipe(&dir);
            std::fs::write(dir.join("in.S"), &progs[d[0]]).unwrap();
            let mut req = standard_request(&dir);
            if !provide(&dir, &files[d[1]], contents[d[2]], &mut req) {
                continue;
            }
            req.argv = args(modes[d[3]]);
            req.env.push(format!("HOME={}", dir.display()).into_bytes());
            let r = srv.run(&req).expect("run");
            s.cli_runs.fetch_add(1, Relaxed);
            s.traces.fetch_add(1, Relaxed);
            let mut got = seen_on_stdout(&r);
            if d[3] > 0 && r.status == Status::Exit(0) {
                got.said = [&r.out[..], &r.err[..]].concat();
                got.hex = std::fs::read(dir.join(["", "out.hex", "a.hex"][d[3]])).ok();
            }
            if got != refs[d[0]] {
                report("other-files", i, &progs[d[0]], format!("(arguments {:?}, with a file {} containing {})", modes[d[3]], files[d[1]], show(contents[d[2]])), &refs[d[0]], &got);
                return;
            }
        }
    });
    s.report_space("other-files", "every program with every other file the program looks at present in 10 contents", "c8s binary", np * nf * 3, done, nf, t0);
    // The source under other names and as other kinds of file.
    let t0 = Instant::now();
    let long = "n".repeat(200) + ".S";
    let names = [
        "in.asm", "in", "IN.S", "in.s", "in.c8s", "in.8o", "in.ch8", "in.hex", "in.txt", ".in", "in.S.S", "a b.S", "\u{e9}.S", "\u{65e5}\u{672c}.S", "in.S~", "main.rs", "in%s.S", "in{}.S", "in:1:2-3", "0", "a.hex.S", "stdin", "con", "d.d/x.S", "d.d/in", long.as_str(),
    ];
    let kinds = ["file", "symbolic link", "link chain", "hard link", "pipe", "read-only", "old", "future"];
    let n = np * names.len() as u64 * kinds.len() as u64;
    let done = s.par(n, 4, |t| s.server(&format!("n{}", t)), |srv, a, b| {
        for i in a..b {
            let d = digits(i, &[np, kinds.len() as u64, names.len() as u64]);
            let (src, name) = (&progs[d[0]], names[d[2]]);
            let dir = srv.dir.clone();
            wipe(&dir);
            std::fs::create_dir(dir.join("d.d")).unwrap();
            make_public(&dir.join("d.d"));
            let p = dir.join(name);
            let stop = std::sync::atomic::AtomicBool::new(false);
            let mut pipe_ = false;
            match kinds[d[1]] {
                "symbolic link" => {
                    std::fs::write(dir.join("real.bin"), src).unwrap();
                    std::os::unix::fs::symlink(dir.join("real.bin"), &p).unwrap();
                }
                "link chain" => {
                    std::fs::write(dir.join("real"), src).unwrap();
                    std::os::unix::fs::symlink("real", dir.join("l1")).unwrap();
                    std::os::unix::fs::symlink(dir.join("l1"), &p).unwrap();
                }
                "hard link" => {
                    std::fs::write(dir.join("real"), src).unwrap();
                    std::fs::hard_link(dir.join("real"), &p).unwrap();
                }
                "pipe" => {
                    make_fifo(&p);
                    pipe_ = true;
                }
                "read-only" => {
                    use std::os::unix::fs::PermissionsExt;
                    std::fs::write(&p, src).unwrap();
                    std::fs::set_permissions(&p, std::fs::Permissions::from_mode(0o444)).unwrap();
                }
                k => {
                    std::fs::write(&p, src).unwrap();
                    let t = std::time::UNIX_EPOCH + std::time::Duration::from_secs(match k { "old" => 1, "future" => 4_000_000_000, _ => 1_600_000_000 });
                    let _ = std::fs::OpenOptions::new().write(true).open(&p).and_then(|f| f.set_modified(t));
                }
            }
            let mut req = standard_request(&dir);
            req.argv = args(&["c8s", "-o", "-", name]);
            let r = if pipe_ {
                std::thread::scope(|sc| {
                    sc.spawn(|| feed_fifo(&p, src, &stop));
                    let r = srv.run(&req).expect("run");
                    stop.store(true, Relaxed);
                    r
                })
            } else {
                srv.run(&req).expect("run")
            };
            s.cli_runs.fetch_add(1, Relaxed);
            s.traces.fetch_add(1, Relaxed);
            let got = seen_on_stdout(&r);
            let want = with_path(&refs[d[0]], name);
            let same = got.status == want.status && got.hex == want.hex && String::from_utf8_lossy(&got.said) == String::from_utf8_lossy(&want.said);
            if !same {
                report("sources", i, src, format!("(the source lies in '{}' as a {})", name, kinds[d[1]]), &want, &got);
                return;
            }
        }
    });
    s.report_space("sources", "every program under 26 file names x as 8 kinds of file (regular, links, named pipe, read-only, old, from the future), diagnostics compared up to the path as given", "c8s binary", n, done, names.len() as u64 * kinds.len() as u64, t0);
    s.transitions.fetch_add(done, Relaxed);
    s.add_states(&(0..n).map(|i| model::mix(81, i)).collect::<Vec<_>>());
}

extern "C" {
    fn mkfifo(path: *const std::ffi::c_char, mode: u32) -> i32;
}

fn make_fifo(p: &Path) {
    let c = std::ffi::CString::new(p.as_os_str().as_encoded_bytes()).unwrap();
    if unsafe { mkfifo(c.as_ptr(), 0o666) } != 0 {
        panic!("mkfifo: {}", std::io::Error::last_os_error());
    }
    make_rw(p);
}

/// Writes the text into a named pipe once somebody reads it; gives up when told to.
fn feed_fifo(p: &Path, text: &[u8], stop: &std::sync::atomic::AtomicBool) {
    use std::io::Write;
    use std::os::unix::fs::OpenOptionsExt;
    while !stop.load(Relaxed) {
        if let Ok(mut f) = std::fs::OpenOptions::new().write(true).custom_flags(0o4000).open(p) {
            let mut rest = text;
            while !rest.is_empty() && !stop.load(Relaxed) {
                match f.write(rest) {
                    Ok(n) => rest = &rest[n..],
                    Err(e) if e.kind() == std::io::ErrorKind::WouldBlock => std::thread::sleep(std::time::Duration::from_micros(50)),
                    Err(_) => return,
                }
            }
            return;
        }
        std::thread::sleep(std::time::Duration::from_micros(50));
    }
}

// ---------------------------------------------------------------- C15

#[derive(Clone, Debug, PartialEq)]
enum Cmd {
    Help,
    Version,
    Refuse,
    Assemble { input: Vec<u8>, output: Vec<u8> },
}

/// What the usage text allows for an argument vector: a set, because a flag given twice or together with an invalid
/// option is not settled by it.
fn command(argv: &[&[u8]]) -> Vec<Cmd> {
    let (mut help, mut version, mut bad) = (0, 0, false);
    let mut outs: Vec<Vec<u8>> = Vec::new();
    let mut free: Vec<Vec<u8>> = Vec::new();
    let mut odd = false; // a flag with a value
    let mut i = 0;
    while i < argv.len() {
        let a = argv[i];
        i += 1;
        if std::str::from_utf8(a).is_err() {
            bad = true;
            continue;
        }
        if a.len() < 2 || a[0] != b'-' {
            free.push(a.to_vec());
            continue;
        }
        if a == b"--" {
            while i < argv.len() {
                if std::str::from_utf8(argv[i]).is_err() {
                    bad = true;
                }
                free.push(argv[i].to_vec());
                i += 1;
            }
            break;
        }
        if let Some(long) = a.strip_prefix(b"--") {
            let (name, val) = match long.iter().position(|c| *c == b'=') {
                Some(p) => (&long[..p], Some(long[p + 1..].to_vec())),
                None => (long, None),
            };
            match name {
                b"output" => match val {
                    Some(v) => outs.push(v),
                    None if i < argv.len() => {
                        outs.push(argv[i].to_vec());
                        i += 1;
                    }
                    None => bad = true,
                },
                b"help" => {
                    help += 1;
                    odd |= val.is_some();
                }
                b"version" => {
                    version += 1;
                    odd |= val.is_some();
                }
                // A one-letter long name is another spelling of the short option, which the usage text does not mention.
                b"o" | b"h" | b"v" => return vec![],
                _ => bad = true,
            }
            continue;
        }
        let mut k = 1;
        while k < a.len() {
            match a[k] {
                b'h' => help += 1,
                b'v' => version += 1,
                b'o' => {
                    if k + 1 < a.len() {
                        outs.push(a[k + 1..].to_vec());
                    } else if i < argv.len() {
                        outs.push(argv[i].to_vec());
                        i += 1;
                    } else {
                        bad = true;
                    }
                    break;
                }
                _ => {
                    bad = true;
                    break;
                }
            }
            k += 1;
        }
    }
    if outs.len() > 1 || outs.iter().any(|o| std::str::from_utf8(o).is_err()) {
        bad = true;
    }
    let mut v = Vec::new();
    if bad || odd || help > 1 || version > 1 {
        v.push(Cmd::Refuse);
    }
    if help > 0 {
        v.push(Cmd::Help);
    }
    if version > 0 {
        v.push(Cmd::Version);
    }
    if v.is_empty() {
        if free.len() == 1 {
            v.push(Cmd::Assemble { input: free[0].clone(), output: outs.first().cloned().unwrap_or(b"a.hex".to_vec()) });
        } else {
            v.push(Cmd::Refuse);
        }
    }
    v
}

const C15_FILES: [(&str, &[u8]); 5] = [("sub/in.S", b".org $123\n.db \"sub\"\n"), ("in.S", b"L: jp L\n.db 7\n"), ("other.S", b".org $300\nret\n"), ("bad.S", b"jp nowhere\n"), ("old.hex", b"previous content, longer than any result of this directory\n")];

/// Every entry below a directory by its relative path (two levels).
fn listing(dir: &Path) -> BTreeMap<Vec<u8>, Node> {
    let mut m = BTreeMap::new();
    if let Ok(rd) = std::fs::read_dir(dir) {
        for e in rd.flatten() {
            let name = e.file_name().as_encoded_bytes().to_vec();
            let n = node(&e.path());
            if n == Node::Dir {
                if let Ok(rd) = std::fs::read_dir(e.path()) {
                    for f in rd.flatten() {
                        m.insert([&name[..], b"/", f.file_name().as_encoded_bytes()].concat(), node(&f.path()));
                    }
                }
            }
            m.insert(name, n);
        }
    }
    m
}

/// A relative path without "." and ".." parts.
fn plain_path(p: &[u8]) -> Vec<u8> {
    let mut v: Vec<&[u8]> = Vec::new();
    for part in p.split(|c| *c == b'/') {
        match part {
            b"" | b"." => {}
            b".." => {
                v.pop();
            }
            x => v.push(x),
        }
    }
    v.join(&b'/')
}

fn c15_setup(dir: &Path) -> BTreeMap<Vec<u8>, Node> {
    wipe(dir);
    std::fs::create_dir(dir.join("sub")).unwrap();
    make_public(&dir.join("sub"));
    for (n, b) in C15_FILES {
        std::fs::write(dir.join(n), b).unwrap();
        make_rw(&dir.join(n));
    }
    listing(dir)
}

fn c15_judge(cmds: &[Cmd], argv: &[&[u8]], before: &BTreeMap<Vec<u8>, Node>, after: &BTreeMap<Vec<u8>, Node>, got: &RunResult, version: &str) -> Result<(), String> {
    let code = match got.status {
        Status::Exit(c @ (0 | 1)) => c,
        ref s => return Err(format!("abnormal termination: {}", status_text(s))),
    };
    let touched: Vec<&Call> = got.calls.iter().filter(|c| c.kind == CallKind::Open && !c.path.starts_with("/proc") && !c.path.starts_with("/sys") && !c.path.starts_with("/dev") && !c.path.starts_with("/etc")).collect();
    let quiet = |what: &str| -> Result<(), String> {
        if before != after {
            return Err(format!("{}: a file was changed", what));
        }
        if let Some(c) = touched.first() {
            return Err(format!("{}: the file '{}' was opened", what, c.path));
        }
        Ok(())
    };
    let text = judge::said(got);
    let mut why = Vec::new();
    for c in cmds {
        let r: Result<(), String> = match c {
            Cmd::Help => quiet("help").and_then(|_| {
                if code != 0 {
                    Err("help must exit 0".into())
                } else if !["--output", "--help", "--version", "-o", "-h", "-v"].iter().all(|o| text.contains(o)) {
                    Err("the usage text does not list every option".into())
                } else {
                    Ok(())
                }
            }),
            Cmd::Version => quiet("version").and_then(|_| {
                if code != 0 {
                    Err("version must exit 0".into())
                } else if !text.contains(version) {
                    Err(format!("the version {} is not printed", version))
                } else {
                    Ok(())
                }
            }),
            Cmd::Refuse => quiet("an invalid command line").and_then(|_| {
                if code != 1 {
                    Err("an invalid command line must exit 1".into())
                } else if text.trim().is_empty() {
                    Err("an invalid command line is refused without a word".into())
                } else {
                    Ok(())
                }
            }),
            Cmd::Assemble { input, output } => {
                let src = match before.get(&plain_path(input)) {
                    Some(Node::File(b)) => Some(b.clone()),
                    _ => None,
                };
                let want = src.map(|b| expect(&b));
                match want {
                    Some(Outcome::Accept(sec)) => {
                        let hex = model::hex_text(&sec).into_bytes();
                        if output == b"-" {
                            if code != 0 || got.out != hex {
                                Err("the result must go to standard output".into())
                            } else if before != after {
                                Err("the result must go to standard output only, but a file changed".into())
                            } else {
                                Ok(())
                            }
                        } else if output.is_empty() {
                            if code == 0 || before != after {
                                Err("an empty output name cannot be written".into())
                            } else {
                                Ok(())
                            }
                        } else {
                            let mut want = before.clone();
                            want.insert(plain_path(output), Node::File(hex.clone()));
                            if code != 0 {
                                Err(format!("must succeed, but exits {}", code))
                            } else if after != &want {
                                Err(format!("the result must go to the file '{}' and nowhere else; files now: {:?}", String::from_utf8_lossy(output), after.keys().map(|k| String::from_utf8_lossy(k).into_owned()).collect::<Vec<_>>()))
                            } else if model::hex_decode(&got.out, false).is_ok() {
                                Err("the result also went to standard output".into())
                            } else {
                                Ok(())
                            }
                        }
                    }
                    _ => {
                        if code != 1 {
                            Err("the input cannot be assembled, but the exit status is 0".into())
                        } else if before != after {
                            Err("the input cannot be assembled, but a file changed".into())
                        } else {
                            Ok(())
                        }
                    }
                }
            }
        };
        match r {
            Ok(()) => return Ok(()),
            Err(w) => why.push(w),
        }
    }
    let _ = argv;
    Err(why.join("; or: "))
}

/// A path below the directory that can be created or replaced by a file.
fn creatable(before: &BTreeMap<Vec<u8>, Node>, p: &[u8]) -> bool {
    let parts: Vec<&[u8]> = p.split(|c| *c == b'/').collect();
    if p.is_empty() || p.ends_with(b"/") || matches!(parts.last(), Some(&b"." | &b"..")) || parts.iter().any(|x| x.len() > 255) {
        return false;
    }
    let mut at: Vec<&[u8]> = Vec::new();
    for part in &parts[..parts.len() - 1] {
        match *part {
            b"" | b"." => {}
            b".." => {
                at.pop();
            }
            x => at.push(x),
        }
        if !at.is_empty() && before.get(&at.join(&b'/')) != Some(&Node::Dir) {
            return false;
        }
    }
    before.get(&plain_path(p)) != Some(&Node::Dir)
}

/// Names of files that look like something else, as output and as input.
fn file_names(s: &Session, version: &str) {
    let mut names: Vec<String> = "stdout stderr stdin STDOUT con CON nul NUL null none nil aux prn lpt1 tty a.hex A.HEX out out. .hex ..hex x.hex.hex ~ ~x $HOME ${HOME} %TEMP% * ? [a] {a,b} a|b >x <x &1 >&1 |cat x;y `x` $(x) x'y x\"y \\x \\n C:x file:x http:x data: @file =x +x !x #x a,b 1 2 0 01 é 日本 . .. sub sub/ nodir/x x/ ./x .//x sub/../x sub//x ./sub/x sub/./x in.S in.s IN.S in.hex in.S.hex in sub/in.S sub/in.hex bad.S bad.hex out.bin out.ihx out.ihex out.txt out.ch8 out.S out.asm out.o c8s default out.hex~ out.tmp out.HEX v1 tmp -x -h -v -o -- --help -out --output -o- = ./- ./-h help version auto output stdout.hex a.out a.bin"
        .split_whitespace()
        .map(|x| x.to_string())
        .collect();
    for x in [" ", " x", "x ", "x y", "x\n", "\nx", "x\t", "\u{a0}", "e\u{301}", "\u{feff}x", "\u{202e}x", "x\u{0}y"] {
        if !x.contains('\0') {
            names.push(x.to_string());
        }
    }
    for n in [1usize, 8, 11, 12, 13, 14, 15, 16, 31, 32, 33, 63, 64, 65, 100, 127, 128, 129, 200, 250, 251, 252, 253, 254, 255, 256, 300] {
        names.push("n".repeat(n));
        names.push(format!("{}.hex", "m".repeat(n)));
        names.push(format!("sub/{}", "k".repeat(n)));
        names.push(format!("{}x", "./".repeat(n)));
        names.push(format!("{}y", "sub/../".repeat(n)));
    }
    names.retain(|n| n != "sub/../" && !n.is_empty());
    let odd = ["~", "$HOME", "${HOME}", "%TEMP%", "*", "a b", ".d", "C:", "d.hex", "-", "--", "@d", "\u{e9}", "stdout", "a.hex", "in", "~root", "~nobody", "x\\y"];
    for d in odd {
        for f in ["x", "x.hex", "a.hex", "-", "in.S", "sub/x"] {
            names.push(format!("{}/{}", d, f));
        }
    }
    let hows = 9usize;
    let t0 = Instant::now();
    let n = (names.len() * hows) as u64;
    let kinds = Mutex::new(HashSet::new());
    let done = s.par(n, 16, |t| s.server(&format!("f{}", t)), |srv, a, b| {
        let dir = srv.dir.clone();
        for i in a..b {
            let (name, how) = (names[i as usize / hows].as_str(), i as usize % hows);
            c15_setup(&dir);
            // A directory of an odd name.
            if let Some(d) = name.split_once('/').map(|x| x.0).filter(|d| odd.contains(d)) {
                std::fs::create_dir(dir.join(d)).unwrap();
                make_public(&dir.join(d));
            }
            // The input of this name, where there can be one.
            let mut before = listing(&dir);
            if how >= 5 && creatable(&before, name.as_bytes()) && !before.contains_key(&plain_path(name.as_bytes())) {
                let p = dir.join(std::str::from_utf8(&plain_path(name.as_bytes())).unwrap());
                std::fs::write(&p, b".org $234\n.db \"name\"\n").unwrap();
                make_rw(&p);
                before = listing(&dir);
            }
            let glued = format!("-o{}", name);
            let equal = format!("--output={}", name);
            let v: Vec<&str> = match how {
                0 => vec!["-o", name, "in.S"],
                1 => vec!["in.S", &equal],
                2 => vec!["in.S", &glued],
                3 => vec!["bad.S", "-o", name],
                4 => vec!["--output", name, "--", "sub/in.S"],
                5 => vec!["--", name],
                6 => vec!["-o", "out.hex", "--", name],
                7 => vec!["-o", "-", "--", name],
                _ => vec!["-o", name, "--", name],
            };
            let argv: Vec<&[u8]> = v.iter().map(|x| x.as_bytes()).collect();
            let cmds = command(&argv);
            let mut req = standard_request(&dir);
            let sub = dir.join("sub").to_string_lossy().into_owned();
            req.env = ["PATH=/usr/bin:/bin".to_string(), format!("HOME={}", sub), format!("TEMP={}", sub), format!("TMPDIR={}", sub)].iter().map(|x| x.as_bytes().to_vec()).collect();
            req.argv = std::iter::once(b"c8s".to_vec()).chain(argv.iter().map(|x| x.to_vec())).collect();
            req.want_calls = true;
            let got = srv.run(&req).expect("run");
            s.cli_runs.fetch_add(1, Relaxed);
            s.traces.fetch_add(1, Relaxed);
            let after = listing(&dir);
            let verdict = match cmds.first() {
                // No such output can be made, or no such input read.
                Some(Cmd::Assemble { input, output }) if (output != b"-" && !creatable(&before, output)) || !creatable(&before, input) => {
                    if got.status != Status::Exit(1) {
                        Err(format!("no such file can be, but {}", status_text(&got.status)))
                    } else if before != after {
                        Err("no such file can be, but another was changed".to_string())
                    } else {
                        Ok(())
                    }
                }
                _ => c15_judge(&cmds, &argv, &before, &after, &got, version),
            };
            kinds.lock().unwrap().insert(format!("{:?} {}", cmds.first().map(|c| format!("{:?}", c).chars().take(9).collect::<String>()), status_text(&got.status)));
            if let Err(why) = verdict {
                s.violate(Violation {
                    space: "file-names".into(),
                    idx: i,
                    why: format!("c8s {:?}: {} ({})", v, why, status_text(&got.status)),
                    files: vec![("case.txt".into(), format!("argv: {:?}\n{}\nstdout:\n{}\n", v, why, show(&got.out)).into_bytes())],
                });
            }
        }
    });
    let d = kinds.lock().unwrap().len() as u64;
    s.report_space("file-names", &format!("{} names of files (words, devices, patterns, options, blanks, long and roundabout paths, directories) as output in 5 and as input in 4 command lines", names.len()), "c8s binary", n, done, d, t0);
}

/// What stands at the output path already, and beside it.
fn c15_existing(s: &Session, version: &str, only_result: bool) {
    let t0 = Instant::now();
    let large: String = (0..3900).map(|k| format!(".org {}\n.db {}\n", k, k % 251)).collect();
    let page: String = (0..250).map(|k| format!("ld v{:x}, {}\n", k % 16, k)).collect();
    let sources: Vec<(&str, String)> = vec![("one instruction", "cls\n".into()), ("a page", page), ("many sections", large), ("a rejected program", "cls\njp nowhere\n".into()), ("nothing", "".into())];
    let result = |t: &str| match expect(t.as_bytes()) {
        Outcome::Accept(sec) => model::hex_text(&sec).into_bytes(),
        _ => b":00000001FF\n".to_vec(),
    };
    let beside = ["out.hex~", "out.hex.bak", "out.hex.tmp", "out.hex.old", "out.hex.orig", "out.hex.new", "out.hex.part", "out.hex.1", "out.hex.lock", ".out.hex.swp", ".out.hex.tmp", "#out.hex#", "out.bak", "out.tmp", "out.lst", "out.sym", "out.map", "out.bin", "a.hex~", "a.hex.bak", "a.hex.tmp", "a.bak", "a.tmp", "a.lst", "in.lst", "in.hex", "in.bin", "in.sym", "in.S~", "in.S.bak", "in.bak", "in.S.hex", "c8s.log", "c8s.tmp", ".c8s", "log", "core", "tmp", "temp", "nul", "NUL", "con", "stdout"];
    let lines: [&[&str]; 6] = [&["-o", "out.hex", "in.S"], &["in.S", "-oout.hex"], &["--output=out.hex", "in.S"], &["in.S"], &["-o", "-", "in.S"], &["-o", "sub/out.hex", "in.S"]];
    // 0: none; otherwise a file of that kind.
    let kinds = 22u64;
    let n = sources.len() as u64 * kinds * 6 * 3;
    let mk = |k: u64, want: &[u8]| -> Option<Vec<u8>> {
        Some(match k {
            0 => return None,
            1 => vec![],
            2 => b"x".to_vec(),
            3 => want.to_vec(),
            4 => want[..want.len() - 1].to_vec(),
            5 => [want, b"\n"].concat(),
            6 => [want, want].concat(),
            7 => want.to_ascii_lowercase(),
            8 => want.iter().rev().cloned().collect(),
            9 => vec![0; want.len()],
            10 => vec![b'x'; 4095],
            11 => vec![b'x'; 4096],
            12 => vec![b'\n'; 4097],
            13 => vec![0xff; 8193],
            14 => vec![b'x'; 65_536],
            15 => vec![b':'; 70_000],
            16 => vec![b'x'; 1_000_000],
            17 => b"\x7fELF\x02\x01\x01 an executable".to_vec(),
            18 => b"; a source\ncls\n".to_vec(),
            19 => b"# do not edit\n".to_vec(),
            20 => b"<html>".to_vec(),
            _ => [&b":0100000001FE\n"[..], want].concat(),
        })
    };
    let done = s.par(n, 16, |t| s.server(&format!("x{}", t)), |srv, a, b| {
        let dir = srv.dir.clone();
        for i in a..b {
            let d = digits(i, &[3, 6, kinds, sources.len() as u64]);
            let (what, text) = &sources[d[3]];
            let want = result(text);
            wipe(&dir);
            std::fs::create_dir(dir.join("sub")).unwrap();
            make_public(&dir.join("sub"));
            let put = |n: &str, b: &[u8]| {
                std::fs::write(dir.join(n), b).unwrap();
                make_rw(&dir.join(n));
            };
            put("in.S", text.as_bytes());
            if let Some(old) = mk(d[2] as u64, &want) {
                put(["out.hex", "out.hex", "out.hex", "a.hex", "-", "sub/out.hex"][d[1]], &old);
            }
            if d[0] > 0 {
                for x in beside {
                    put(x, if d[0] == 1 { b"somebody's file\n" } else { b"" });
                    if d[1] == 5 {
                        put(&format!("sub/{}", x), b"somebody's file\n");
                    }
                }
            }
            let before = listing(&dir);
            let argv: Vec<&[u8]> = lines[d[1]].iter().map(|x| x.as_bytes()).collect();
            let mut req = standard_request(&dir);
            req.argv = std::iter::once(b"c8s".to_vec()).chain(argv.iter().map(|x| x.to_vec())).collect();
            req.want_calls = true;
            let got = srv.run(&req).expect("run");
            s.cli_runs.fetch_add(1, Relaxed);
            s.transitions.fetch_add(argv.len() as u64 + 1, Relaxed);
            let after = listing(&dir);
            let verdict = if only_result {
                // What C08 states: success means the complete result; a rejected program leaves the output path alone.
                let dest: &[u8] = [&b"out.hex"[..], b"out.hex", b"out.hex", b"a.hex", b"", b"sub/out.hex"][d[1]];
                let ok = matches!(expect(text.as_bytes()), Outcome::Accept(_));
                if ok && got.status == Status::Exit(0) && dest.is_empty() && got.out != want {
                    Err("exit 0, but standard output is not the complete result".to_string())
                } else if ok && got.status == Status::Exit(0) && !dest.is_empty() && after.get(dest) != Some(&Node::File(want.clone())) {
                    Err("exit 0, but the output file is not the complete result".to_string())
                } else if !ok && (got.status == Status::Exit(0) || before.get(dest) != after.get(dest)) {
                    Err("the program cannot be assembled, but the exit status is 0 or the output path was touched".to_string())
                } else {
                    Ok(())
                }
            } else {
                c15_judge(&command(&argv), &argv, &before, &after, &got, version)
            };
            if let Err(why) = verdict {
                let changed: Vec<String> = after.iter().filter(|(k, v)| before.get(*k) != Some(v)).map(|(k, _)| show(k)).chain(before.keys().filter(|k| !after.contains_key(*k)).map(|k| show(k))).collect();
                s.violate(Violation {
                    space: "existing-outputs".into(),
                    idx: i,
                    why: format!("c8s {:?} on {}, with a file (kind {}) at the output path{}: {} ({}); changed: {:?}", lines[d[1]], what, d[2], if d[0] > 0 { " and others beside it" } else { "" }, why.chars().take(300).collect::<String>(), status_text(&got.status), changed),
                    files: case_files(text.as_bytes(), format!("c8s {:?}\nkind of file at the output path: {}\n", lines[d[1]], d[2])),
                });
                return;
            }
        }
        s.traces.fetch_add(b - a, Relaxed);
    });
    s.report_space("existing-outputs", "5 sources x 22 kinds of file (or none) at the output path x 6 command lines x nothing, 43 files with usual names, or 43 empty ones beside it", "c8s binary", n, done, 0, t0);
}

pub fn c15(s: &Session) {
    let version = std::fs::read_to_string(s.paths.repo.join("Cargo.toml"))
        .unwrap_or_default()
        .lines()
        .find_map(|l| l.strip_prefix("version").map(|r| r.trim_matches(|c: char| c == ' ' || c == '=' || c == '"').to_string()))
        .unwrap_or_default();
    let alphabet: Vec<&'static [u8]> = vec![
        b"in.S", b"-o", b"out.hex", b"-", b"--output", b"-h", b"-v", b"--", b"bad.S", b"sub/x.hex", b"--output=two.hex", b"-oglued.hex", b"--help", b"--version", b"-x", b"--bogus", b"", b"missing.S", b"other.S", b"old.hex", b"-hv", b"-vo", b"--output=", b"--help=1", b"\xff", b"-o\xff",
        b"--out", b"-ho", b"-o-", b"--output=-", b"-H", b"---", b"-o=x.hex", b"sub/in.S", b"sub/o.hex", b"noext", b"./in.S", b"two words", b"--Output", b"-O",
    ];
    let k = alphabet.len() as u64;
    let go = |space: &str, what: &str, n: u64, vector: &(dyn Fn(u64) -> Vec<&'static [u8]> + Sync)| {
        let t0 = Instant::now();
        let kinds: Mutex<BTreeMap<String, u64>> = Mutex::new(BTreeMap::new());
        let done = s.par(n, 32, |t| s.server(&format!("a{}", t)), |srv, a, b| {
            let dir = srv.dir.clone();
            let mut before = c15_setup(&dir);
            let mut local: BTreeMap<String, u64> = BTreeMap::new();
            let mut states = Vec::new();
            for i in a..b {
                let argv: Vec<&[u8]> = vector(i);
                let cmds = command(&argv);
                let mut req = standard_request(&dir);
                req.argv = std::iter::once(b"c8s".to_vec()).chain(argv.iter().map(|x| x.to_vec())).collect();
                req.want_calls = true;
                let got = srv.run(&req).expect("run");
                s.cli_runs.fetch_add(1, Relaxed);
                let after = listing(&dir);
                *local.entry(format!("{}", match cmds.first() { Some(Cmd::Help) => "help", Some(Cmd::Version) => "version", Some(Cmd::Refuse) => "refuse", Some(_) => "assemble", None => "unsettled" })).or_insert(0) += 1;
                states.push(model::mix_bytes(if got.status == Status::Exit(0) { 5 } else { 6 }, format!("{:?}", cmds).as_bytes()));
                s.transitions.fetch_add(argv.len() as u64 + 1, Relaxed);
                let verdict = if cmds.is_empty() {
                    if matches!(got.status, Status::Exit(0 | 1)) { Ok(()) } else { Err(format!("abnormal termination: {}", status_text(&got.status))) }
                } else {
                    c15_judge(&cmds, &argv, &before, &after, &got, &version)
                };
                if i % (n / 12 + 1) == 0 {
                    s.sample(format!("{:?} => allowed {:?}; c8s: {}", argv.iter().map(|x| String::from_utf8_lossy(x).into_owned()).collect::<Vec<_>>(), cmds.iter().map(|c| format!("{:?}", c).chars().take(9).collect::<String>()).collect::<Vec<_>>(), status_text(&got.status)));
                }
                if let Err(why) = verdict {
                    let shown: Vec<String> = argv.iter().map(|x| show(x)).collect();
                    s.violate(Violation {
                        space: space.into(),
                        idx: i,
                        why: format!("c8s {:?}: {} ({})", shown, why, status_text(&got.status)),
                        files: vec![("case.txt".into(), format!("argv: {:?}\nfiles: in.S, other.S (good), bad.S (rejected), old.hex\n{}\nstdout:\n{}\nstderr:\n{}\n", shown, why, show(&got.out), show(&got.err)).into_bytes())],
                    });
                    return;
                }
                if after != before {
                    before = c15_setup(&dir);
                }
            }
            s.traces.fetch_add(b - a, Relaxed);
            s.add_states(&states);
            let mut m = kinds.lock().unwrap();
            for (k, v) in local {
                *m.entry(k).or_insert(0) += v;
            }
        });
        let m = kinds.lock().unwrap().clone();
        for (k, v) in &m {
            s.count_outcome(&format!("expected {}", k), *v);
        }
        s.report_space(space, what, "c8s binary", n, done, m.len() as u64, t0);
    };
    let run = |space: &str, what: &str, k: u64, lo: u32, hi: u32| go(space, what, seqs(k, lo, hi), &|i| seq(k, lo, i).iter().map(|x| alphabet[*x]).collect());
    run("vectors", &format!("every argument vector of up to 3 of {} arguments", k), k, 0, 3);
    if s.quick() {
        run("vectors-4", "every argument vector of 4 of the first 14 arguments", 14, 4, 4);
    } else {
        run("vectors-4", &format!("every argument vector of 4 of {} arguments", k), k, 4, 4);
        run("vectors-5", "every argument vector of 5 of the first 11 arguments", 11, 5, 5);
    }
    c15_existing(s, &version, false);
    missing_sources(s);
    // Words an eager command line might understand.
    let words: Vec<&'static [u8]> = "help Help HELP version usage about man info ? /? /h /H /help /v /version /o -? -help -version -output -usage --usage --about --info h v o H V O build assemble asm run check lint test list dump disassemble -d -D -E -c -S -s -q -f -i -l -w -W -Wall -g -O2 -O0 -n -m -r -t -u -p -a -b -e -j -k -x -y -z -I. -L. -DX --debug --verbose --quiet --force --input --in --input=in.S --infile --stdout --stdin --format --format=bin --hex --bin --raw --list --listing --symbols --dry-run --no-output --color --no-color --strict --pedantic --version=1 --help=no --output-file --outputs --outpu --o --h --v --o=x --hel --versions --versio -oh -hv -vh -hh -vv -oo -h- -v- -- -- - -- --- +h +o @in.S @x in.s IN.S in .S in.S, in.S:out.hex in.S=out.hex o=out.hex output=out.hex > >out.hex 2>&1 | |cat < <in.S && ; & # %s %n {} {0} $0 $1 $HOME * *.S ? ??.S [i]n.S in.?  true false yes no 0 1 -1 -0 1e9 NaN null"
        .split(' ')
        .filter(|w| !w.is_empty())
        .map(|w| w.as_bytes())
        .collect();
    let shapes: [&[&'static [u8]]; 14] = [&[b"@"], &[b"@", b"in.S"], &[b"in.S", b"@"], &[b"-o", b"out.hex", b"@"], &[b"-o", b"out.hex", b"in.S", b"@"], &[b"@", b"-o", b"out.hex", b"in.S"], &[b"-o", b"out.hex", b"@", b"in.S"], &[b"@", b"@"], &[b"-h", b"@"], &[b"@", b"-v"], &[b"in.S", b"other.S", b"@"], &[b"--", b"@"], &[b"--", b"in.S", b"@"], &[b"-o", b"@"]];
    let w = words.len() as u64;
    go("words", &format!("each of {} words and options of other tools at the place of @ in 14 command lines, and every ordered pair of them alone", w), w * 14 + w * w, &|i| {
        if i < w * 14 {
            shapes[(i % 14) as usize].iter().map(|x| if *x == b"@" { words[(i / 14) as usize] } else { *x }).collect()
        } else {
            let j = i - w * 14;
            vec![words[(j / w) as usize], words[(j % w) as usize]]
        }
    });
    file_names(s, &version);
    // Odd program names and many arguments.
    let t0 = Instant::now();
    let mut srv = s.server("names15");
    let dir = srv.dir.clone();
    let mut n = 0u64;
    let long = vec![b'a'; 100_000];
    for prog in [&b"c8s"[..], b"", b"./c8s", b"/usr/bin/c8s", b"\xff\xfe", b"a b", b"-o"] {
        for rest in [vec![], vec![&b"-h"[..]], vec![&b"-v"[..]], vec![&b"in.S"[..]], vec![&b"in.S"[..], b"-o", b"out.hex"], vec![&b"bad.S"[..]], vec![&b"-q"[..]], vec![&long[..]], vec![&b"in.S"[..]; 300], vec![&b"-"[..]], vec![&b"in.S"[..], b"--output", "é.hex".as_bytes()]] {
            let before = c15_setup(&dir);
            let cmds = command(&rest);
            let mut req = standard_request(&dir);
            req.argv = std::iter::once(prog.to_vec()).chain(rest.iter().map(|x| x.to_vec())).collect();
            req.want_calls = true;
            let got = srv.run(&req).expect("run");
            s.cli_runs.fetch_add(1, Relaxed);
            let after = listing(&dir);
            n += 1;
            if let Err(why) = c15_judge(&cmds, &rest, &before, &after, &got, &version) {
                s.violate(Violation { space: "program-names".into(), idx: n, why: format!("program name {:?}, arguments {:?}: {}", show(prog), rest.iter().map(|x| show(x)).collect::<Vec<_>>(), why), files: vec![] });
            }
        }
    }
    s.traces.fetch_add(n, Relaxed);
    s.report_space("program-names", "7 program names (empty and not UTF-8 included) x 11 argument vectors (very long and very many included)", "c8s binary", n, n, 7, t0);
}

// ---------------------------------------------------------------- C16

/// The words the documented table gives a meaning to, by pattern.
fn matches_table(w: u16) -> bool {
    forms().iter().any(|f| {
        f.pattern.chars().enumerate().all(|(k, c)| match c.to_digit(16) {
            Some(d) if c.is_ascii_digit() || c.is_ascii_uppercase() => (w >> (12 - 4 * k)) & 0xF == d as u16,
            _ => true,
        })
    })
}

pub fn c16(s: &Session) {
    let Some(opc) = s.paths.opc.clone() else {
        s.note("the opcode module of this tree does not build on its own with the expected interface; only the words the assembler itself emits could be examined");
        let n = forms().len() as u64;
        s.space("forms", "every instruction form through the assembler", n, CLI, &|i| format!("{}\n", forms()[i as usize].text("v1", "v2", "3")).into_bytes(), &judge::full);
        return;
    };
    let t0 = Instant::now();
    let dump = std::process::Command::new(&opc).output().expect("opc");
    let text = String::from_utf8_lossy(&dump.stdout).into_owned();
    // word -> text to reassemble, expected word
    let mut todo: Vec<(u16, String, u16)> = Vec::new();
    let mut seen = 0u64;
    let mut nops = 0u64;
    let bad = |w: u16, why: String, line: &str| {
        s.violate(Violation { space: "words".into(), idx: w as u64, why: format!("word {:04X}: {}", w, why), files: vec![("case.txt".into(), format!("word {:04X}\n{}\n{}\n", w, why, line).into_bytes())] });
    };
    let mut distinct = HashSet::new();
    for line in text.lines() {
        let f: Vec<&str> = line.split('\t').collect();
        let Ok(w) = u16::from_str_radix(f[0], 16) else { continue };
        seen += 1;
        if f.len() < 6 {
            bad(w, "decoding, encoding or printing panics".into(), line);
            continue;
        }
        let back = u16::from_str_radix(f[1], 16).unwrap();
        let nop = f[2] == "1";
        let asm = f[4];
        distinct.insert(asm.to_string());
        s.add_states(&[model::mix(16, w as u64)]);
        s.transitions.fetch_add(3, Relaxed);
        let shift = w & 0xF00F == 0x8006 || w & 0xF00F == 0x800E;
        let cleared = if shift { w & 0xFF0F } else { w };
        if nop {
            nops += 1;
            if matches_table(w) && w != 0 {
                bad(w, "is a documented instruction but decodes to nothing".into(), line);
            }
            if !asm.trim().eq_ignore_ascii_case("nop") {
                bad(w, format!("decodes to nothing but is rendered as '{}'", asm), line);
            }
            if back != 0 {
                bad(w, format!("decodes to nothing but encodes to {:04X}", back), line);
            }
        } else {
            if back != w {
                bad(w, format!("encoding the decoded instruction gives {:04X}", back), line);
            }
            if f[3] != "1" {
                bad(w, "decoding the encoded instruction gives another instruction".into(), line);
            }
        }
        let goal = if nop { 0 } else { cleared };
        for t in [f[4], f[5]] {
            todo.push((w, t.to_string(), goal));
            if f[4] == f[5] {
                break;
            }
        }
        if w % 7001 == 0 {
            s.sample(format!("word {:04X} => '{}' => {:04X}", w, asm, back));
        }
    }
    if seen != 65536 {
        s.note(format!("only {} of 65536 words were dumped: {}", seen, String::from_utf8_lossy(&dump.stderr)));
        bad(seen as u16, format!("the program that decodes every word stopped after {} words", seen), "");
    }
    s.traces.fetch_add(seen, Relaxed);
    s.count_outcome("decodes to nothing", nops);
    s.count_outcome("decodes to an instruction", seen - nops);
    s.report_space("words", "all 65536 words: decode, encode, decode again, print", "the opcode module of /repo", 65536, seen, distinct.len() as u64, t0);
    // The printed text through the assembler, one word at a time in the worker, and in programs of 200 on the binary.
    let check = |sec: &[model::Section], part: &[(u16, String, u16)]| -> Result<(), (usize, String)> {
        let bytes: Vec<u8> = sec.iter().flat_map(|x| x.data.clone()).collect();
        for (k, (w, t, goal)) in part.iter().enumerate() {
            let got = bytes.get(2 * k..2 * k + 2).map(|b| u16::from_be_bytes([b[0], b[1]]));
            if got != Some(*goal) {
                return Err((k, format!("word {:04X} is printed as '{}', which assembles to {:04X?}", w, t, got)));
            }
        }
        Ok(())
    };
    let batch = 200usize;
    let nb = todo.len().div_ceil(batch) as u64;
    s.space("texts", "the text of every word reassembled on the binary, 200 words per program", nb, CLI, &|i| {
        let a = i as usize * batch;
        todo[a..(a + batch).min(todo.len())].iter().map(|x| format!("{}\n", x.1)).collect::<String>().into_bytes()
    }, &|c: &Case| {
        let a = c.idx as usize * batch;
        let part = &todo[a..(a + batch).min(todo.len())];
        if c.got.status != Status::Exit(0) {
            return Err(format!("the text printed for one of the words {:04X}..{:04X} is not accepted: {}", part[0].0, part[part.len() - 1].0, show(&c.got.out)));
        }
        let mem = model::hex_decode(&c.got.out, false)?;
        let data: Vec<u8> = mem.iter().map(|x| x.1).collect();
        check(&[model::Section { start: 0, data }], part).map_err(|e| e.1)
    });
    s.space("single-texts", "the text of every word as a program of its own", todo.len() as u64, inproc(66_000), &|i| format!("{}\n", todo[i as usize].1).into_bytes(), &|c: &Case| {
        let part = &todo[c.idx as usize..c.idx as usize + 1];
        if c.got.status != Status::Exit(0) {
            return Err(format!("word {:04X} is printed as '{}', which is not accepted: {}", part[0].0, part[0].1, show(&c.got.out)));
        }
        let mem = model::hex_decode(&c.got.out, false)?;
        let data: Vec<u8> = mem.iter().map(|x| x.1).collect();
        if data.len() != 2 {
            return Err(format!("word {:04X} is printed as '{}', which assembles to {} bytes", part[0].0, part[0].1, data.len()));
        }
        check(&[model::Section { start: 0, data }], part).map_err(|e| e.1)
    });
}
