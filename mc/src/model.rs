//! Reference model of the assembler: an independent, deliberately plain state machine written from the README and
//! the language the tests document. It shares no code with c8s. Every step it takes is counted as a transition, and
//! every configuration it passes through is hashed so that distinct configurations can be counted.

use std::collections::HashMap;
use std::sync::OnceLock;

// ---------------------------------------------------------------- instruction table (README, verbatim notation)

const TABLE: &[(&str, &str)] = &[
    ("0000", "NOP"),
    ("00E0", "CLS"),
    ("00EE", "RET"),
    ("1nnn", "JP addr"),
    ("2nnn", "CALL addr"),
    ("3xkk", "SE Vx, nn"),
    ("4xkk", "SNE Vx, nn"),
    ("5xy0", "SE Vx, Vy"),
    ("6xkk", "LD Vx, nn"),
    ("7xkk", "ADD Vx, nn"),
    ("8xy0", "LD Vx, Vy"),
    ("8xy1", "OR Vx, Vy"),
    ("8xy2", "AND Vx, Vy"),
    ("8xy3", "XOR Vx, Vy"),
    ("8xy4", "ADD Vx, Vy"),
    ("8xy5", "SUB Vx, Vy"),
    ("8xy6", "SHR Vx"),
    ("8xy7", "SUBN Vx, Vy"),
    ("8xyE", "SHL Vx"),
    ("9xy0", "SNE Vx, Vy"),
    ("Annn", "LD I, addr"),
    ("Bnnn", "JP V0, addr"),
    ("Cxkk", "RND Vx, nn"),
    ("Dxyn", "DRW Vx, Vy, n"),
    ("Ex9E", "SKP Vx"),
    ("ExA1", "SKNP Vx"),
    ("Fx07", "LD Vx, DT"),
    ("Fx0A", "LD Vx, K"),
    ("Fx15", "LD DT, Vx"),
    ("Fx18", "LD ST, Vx"),
    ("Fx1E", "ADD I, Vx"),
    ("Fx29", "LD F, Vx"),
    ("Fx33", "LD B, Vx"),
    ("Fx55", "LD [I], Vx"),
    ("Fx65", "LD Vx, [I]"),
    ("00F8", "LD I, [I]"),
    ("00F9", "TRAPRET"),
    ("00FA", "TRAP"),
];

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Slot {
    X,
    Y,
    V0,
    Addr,
    Byte,
    Nibble,
    Fixed(&'static str),
}

#[derive(Clone, Debug)]
pub struct Form {
    pub mnemonic: String,
    pub slots: Vec<Slot>,
    pub pattern: &'static str,
}

impl Form {
    pub fn encode(&self, x: u16, y: u16, v: u16) -> u16 {
        let mut word = 0u16;
        let mut n_left = self.pattern.chars().filter(|c| *c == 'n' || *c == 'k').count();
        for c in self.pattern.chars() {
            let d = match c {
                'x' => x,
                'y' => y,
                'n' | 'k' => {
                    n_left -= 1;
                    (v >> (4 * n_left)) & 0xF
                }
                c => c.to_digit(16).unwrap() as u16,
            };
            word = (word << 4) | d;
        }
        word
    }
    pub fn value_limit(&self) -> Option<u16> {
        self.slots.iter().find_map(|s| match s {
            Slot::Addr => Some(0xFFF),
            Slot::Byte => Some(0xFF),
            Slot::Nibble => Some(0xF),
            _ => None,
        })
    }
    pub fn has(&self, s: Slot) -> bool {
        self.slots.contains(&s)
    }
    /// Source text of this form with the given registers and value text.
    pub fn text(&self, x: &str, y: &str, v: &str) -> String {
        let ops: Vec<String> = self
            .slots
            .iter()
            .map(|s| match s {
                Slot::X => x.to_string(),
                Slot::Y => y.to_string(),
                Slot::V0 => "V0".to_string(),
                Slot::Addr | Slot::Byte | Slot::Nibble => v.to_string(),
                Slot::Fixed(t) => t.to_string(),
            })
            .collect();
        if ops.is_empty() {
            self.mnemonic.clone()
        } else {
            format!("{} {}", self.mnemonic, ops.join(", "))
        }
    }
}

pub fn forms() -> &'static Vec<Form> {
    static F: OnceLock<Vec<Form>> = OnceLock::new();
    F.get_or_init(|| {
        TABLE
            .iter()
            .map(|(pattern, text)| {
                let (mn, rest) = text.split_once(' ').unwrap_or((text, ""));
                let slots = rest
                    .split(',')
                    .map(|s| s.trim())
                    .filter(|s| !s.is_empty())
                    .map(|s| match s {
                        "Vx" => Slot::X,
                        "Vy" => Slot::Y,
                        "V0" => Slot::V0,
                        "addr" => Slot::Addr,
                        "nn" => Slot::Byte,
                        "n" => Slot::Nibble,
                        "I" => Slot::Fixed("I"),
                        "[I]" => Slot::Fixed("[I]"),
                        "DT" => Slot::Fixed("DT"),
                        "ST" => Slot::Fixed("ST"),
                        "K" => Slot::Fixed("K"),
                        "F" => Slot::Fixed("F"),
                        "B" => Slot::Fixed("B"),
                        other => panic!("unknown operand {other}"),
                    })
                    .collect();
                Form { mnemonic: mn.to_string(), slots, pattern }
            })
            .collect()
    })
}

pub fn mnemonics() -> Vec<String> {
    let mut v: Vec<String> = Vec::new();
    for f in forms() {
        if !v.contains(&f.mnemonic) {
            v.push(f.mnemonic.clone());
        }
    }
    v
}

// ---------------------------------------------------------------- results

#[derive(Clone, Copy, PartialEq, Eq, Debug, Default)]
pub struct Loc {
    pub line: usize,
    pub col: usize,
    pub len: usize,
}

impl Loc {
    pub fn show(&self, file: &str) -> String {
        if self.len == 1 {
            format!("{}:{}:{}", file, self.line, self.col)
        } else {
            format!("{}:{}:{}-{}", file, self.line, self.col, self.col + self.len - 1)
        }
    }
}

#[derive(Clone, PartialEq, Eq, Debug)]
pub enum Kind {
    NotUtf8,
    Eof,
    Lexical,
    Token,
    Directive,
    DirectiveSize,
    CounterOverflow,
    ConstantWithoutLabel,
    Redefinition,
    NoForm,
    UnknownLabel,
    TooWide,
}

#[derive(Clone, PartialEq, Eq, Debug)]
pub struct Reject {
    pub kind: Kind,
    pub loc: Option<Loc>,
    /// Text the diagnostic has to contain.
    pub names: Vec<String>,
}

#[derive(Clone, PartialEq, Eq, Debug)]
pub struct Section {
    pub start: u16,
    pub data: Vec<u8>,
}

#[derive(Clone, PartialEq, Eq, Debug)]
pub enum Outcome {
    Accept(Vec<Section>),
    /// Sections in source order, indices of colliding pairs.
    Collide(Vec<Section>, Vec<(usize, usize)>),
    Reject(Reject),
}


/// Observer of the model's steps.
#[derive(Default)]
pub struct Trace {
    pub steps: u64,
    pub states: Vec<u64>,
    pub record: bool,
}

impl Trace {
    fn step(&mut self, state: impl FnOnce() -> u64) {
        self.steps += 1;
        if self.record {
            let s = state();
            self.states.push(s);
        }
    }
}

pub fn mix(h: u64, v: u64) -> u64 {
    let mut z = h ^ v.wrapping_mul(0x9E37_79B9_7F4A_7C15);
    z = (z ^ (z >> 30)).wrapping_mul(0xBF58_476D_1CE4_E5B9);
    z = (z ^ (z >> 27)).wrapping_mul(0x94D0_49BB_1331_11EB);
    z ^ (z >> 31)
}

pub fn mix_bytes(mut h: u64, b: &[u8]) -> u64 {
    for c in b.chunks(8) {
        let mut v = 0u64;
        for (i, x) in c.iter().enumerate() {
            v |= (*x as u64) << (8 * i);
        }
        h = mix(h, v);
    }
    mix(h, b.len() as u64)
}

// ---------------------------------------------------------------- scanner

#[derive(Clone, PartialEq, Debug)]
pub enum Tok<'a> {
    Comment,
    Newline,
    Dot,
    Colon,
    Comma,
    Ident(&'a str),
    Str(&'a str),
    Num(u32),
    Bad(Vec<String>),
}

fn is_ident_start(c: char) -> bool {
    c == '_' || c.is_ascii_alphabetic()
}

fn is_ident(c: char) -> bool {
    c == '_' || c.is_ascii_alphanumeric()
}

pub fn is_space(c: char) -> bool {
    // Unicode White_Space without the line feed.
    matches!(c, '\u{9}' | '\u{b}' | '\u{c}' | '\u{d}' | ' ' | '\u{85}' | '\u{a0}' | '\u{1680}' | '\u{2000}'..='\u{200a}'
        | '\u{2028}' | '\u{2029}' | '\u{202f}' | '\u{205f}' | '\u{3000}')
}

/// Tokens with their positions; the last one may be `Bad`, after which scanning stops.
pub fn scan<'a>(src: &'a str, tr: &mut Trace) -> Vec<(Tok<'a>, Loc)> {
    let mut out = Vec::new();
    let mut pos = 0usize; // byte offset
    let (mut line, mut col) = (1usize, 1usize);
    // Moves over n bytes, returning the location of the text passed.
    fn pass(src: &str, pos: &mut usize, n: usize, line: &mut usize, col: &mut usize) -> Loc {
        let mut loc = Loc { line: *line, col: *col, len: 0 };
        let mut first = true;
        let end = *pos + n;
        for c in src[*pos..end].chars() {
            if first {
                loc.len += 1;
            }
            if c == '\n' {
                first = false;
                *line += 1;
                *col = 1;
            } else {
                *col += 1;
            }
        }
        *pos = end;
        loc
    }
    loop {
        let rest = &src[pos..];
        let Some(c) = rest.chars().next() else { break };
        if is_space(c) {
            pass(src, &mut pos, c.len_utf8(), &mut line, &mut col);
            continue;
        }
        let here = Loc { line, col, len: 1 };
        let run = |pred: &dyn Fn(char) -> bool, skip: usize| -> usize {
            skip + rest[skip..].chars().take_while(|c| pred(*c)).map(|c| c.len_utf8()).sum::<usize>()
        };
        let bad = |out: &mut Vec<(Tok<'a>, Loc)>, loc: Loc, names: Vec<String>| out.push((Tok::Bad(names), loc));
        tr.step(|| mix(mix(1, out.len() as u64), mix(line as u64, col as u64)));
        let (tok, end) = match c {
            '\n' => (Tok::Newline, 1),
            '.' => (Tok::Dot, 1),
            ':' => (Tok::Colon, 1),
            ',' => (Tok::Comma, 1),
            ';' => (Tok::Comment, run(&|c| c != '\n', 0)),
            '"' => {
                // Ends at the first quote that is not preceded by a backslash of its own.
                let mut it = rest.char_indices().skip(1);
                let mut end = None;
                while let Some((i, c)) = it.next() {
                    match c {
                        '"' => {
                            end = Some(i);
                            break;
                        }
                        '\\' => match it.next() {
                            None | Some((_, '\n')) => break,
                            _ => {}
                        },
                        _ => {}
                    }
                }
                match end {
                    Some(i) => (Tok::Str(&rest[1..i]), i + 1),
                    None => {
                        bad(&mut out, here, vec![]);
                        break;
                    }
                }
            }
            '$' | '#' => {
                let end = run(&|c| c.is_ascii_hexdigit(), 1);
                let digits = &rest[1..end];
                match digits.len() {
                    0 => {
                        bad(&mut out, here, vec![]);
                        break;
                    }
                    1..=3 => (Tok::Num(digits.chars().fold(0, |a, d| a * 16 + d.to_digit(16).unwrap())), end),
                    _ => {
                        let loc = pass(src, &mut pos, end, &mut line, &mut col);
                        bad(&mut out, loc, vec![]);
                        break;
                    }
                }
            }
            '%' => {
                let end = run(&|c| c == '0' || c == '1' || c == '.', 1);
                let digits = &rest[1..end];
                if digits.is_empty() {
                    bad(&mut out, here, vec![]);
                    break;
                }
                let significant = digits.trim_start_matches(|c| c == '0' || c == '.');
                if significant.len() > 12 {
                    let loc = pass(src, &mut pos, end, &mut line, &mut col);
                    bad(&mut out, loc, vec![]);
                    break;
                }
                (Tok::Num(significant.chars().fold(0, |a, d| a * 2 + (d == '1') as u32)), end)
            }
            '0'..='9' => {
                let end = run(&|c| c.is_ascii_digit(), 0);
                let digits = &rest[..end];
                let significant = digits.trim_start_matches('0');
                let value = if significant.len() > 4 { 9999 } else { significant.chars().fold(0, |a, d| a * 10 + d.to_digit(10).unwrap()) };
                if value > 4095 {
                    let names = vec![digits.to_string()];
                    let loc = pass(src, &mut pos, end, &mut line, &mut col);
                    bad(&mut out, loc, names);
                    break;
                }
                (Tok::Num(value), end)
            }
            '[' => {
                if rest.starts_with("[i]") || rest.starts_with("[I]") {
                    (Tok::Ident(&rest[..3]), 3)
                } else {
                    bad(&mut out, here, vec![]);
                    break;
                }
            }
            c if is_ident_start(c) => {
                let end = run(&is_ident, 0);
                (Tok::Ident(&rest[..end]), end)
            }
            c => {
                bad(&mut out, here, vec![c.to_string()]);
                break;
            }
        };
        let loc = pass(src, &mut pos, end, &mut line, &mut col);
        out.push((tok, loc));
    }
    out
}

// ---------------------------------------------------------------- parser

#[derive(Clone, PartialEq, Debug)]
pub enum Lit<'a> {
    Str(&'a str),
    Num(u32),
}

#[derive(Clone, PartialEq, Debug)]
pub enum Operand<'a> {
    Num(u32),
    Gpr(u8),
    Special(&'static str),
    Label(&'a str),
}

#[derive(Clone, PartialEq, Debug)]
pub enum Stmt<'a> {
    Directive(&'a str, Loc, Vec<Lit<'a>>),
    Label(&'a str, Loc),
    Instr(&'a str, Loc, Vec<Operand<'a>>),
}

pub fn operand_of(id: &str) -> Operand<'_> {
    match id.to_ascii_lowercase().as_str() {
        "i" => Operand::Special("I"),
        "[i]" => Operand::Special("[I]"),
        "dt" => Operand::Special("DT"),
        "st" => Operand::Special("ST"),
        "k" => Operand::Special("K"),
        "f" => Operand::Special("F"),
        "b" => Operand::Special("B"),
        l => {
            let b = l.as_bytes();
            if b.len() == 2 && b[0] == b'v' && b[1].is_ascii_hexdigit() {
                Operand::Gpr((b[1] as char).to_digit(16).unwrap() as u8)
            } else {
                Operand::Label(id)
            }
        }
    }
}

fn unexpected(at: Option<&(Tok, Loc)>) -> Reject {
    match at {
        None => Reject { kind: Kind::Eof, loc: None, names: vec![] },
        Some((Tok::Bad(names), loc)) => Reject { kind: Kind::Lexical, loc: Some(*loc), names: names.clone() },
        Some((tok, loc)) => {
            let names = match tok {
                Tok::Ident(s) => vec![s.to_string()],
                Tok::Str(s) => vec![s.to_string()],
                Tok::Num(n) => vec![n.to_string()],
                _ => vec![],
            };
            Reject { kind: Kind::Token, loc: Some(*loc), names }
        }
    }
}

pub fn parse<'a>(toks: &[(Tok<'a>, Loc)], tr: &mut Trace) -> Result<Vec<Stmt<'a>>, Reject> {
    let mut out = Vec::new();
    let mut i = 0;
    let ends = |t: Option<&(Tok<'a>, Loc)>| matches!(t, Some((Tok::Newline, _)) | Some((Tok::Comment, _)));
    while i < toks.len() {
        tr.step(|| mix(mix(2, out.len() as u64), i as u64));
        match &toks[i].0 {
            Tok::Newline | Tok::Comment => i += 1,
            Tok::Dot => {
                i += 1;
                let (name, loc) = match toks.get(i) {
                    Some((Tok::Ident(s), l)) => (*s, *l),
                    t => return Err(unexpected(t)),
                };
                i += 1;
                let mut args = Vec::new();
                while !ends(toks.get(i)) {
                    match toks.get(i) {
                        Some((Tok::Str(s), _)) => args.push(Lit::Str(s)),
                        Some((Tok::Num(n), _)) => args.push(Lit::Num(*n)),
                        t => return Err(unexpected(t)),
                    }
                    i += 1;
                    tr.step(|| mix(mix(3, args.len() as u64), i as u64));
                    if let Some((Tok::Comma, _)) = toks.get(i) {
                        i += 1;
                    } else {
                        break;
                    }
                }
                out.push(Stmt::Directive(name, loc, args));
            }
            Tok::Ident(s) => {
                let loc = toks[i].1;
                i += 1;
                if let Some((Tok::Colon, _)) = toks.get(i) {
                    i += 1;
                    out.push(Stmt::Label(s, loc));
                    continue;
                }
                let mut ops = Vec::new();
                while !ends(toks.get(i)) {
                    match toks.get(i) {
                        Some((Tok::Num(n), _)) => ops.push(Operand::Num(*n)),
                        Some((Tok::Ident(id), _)) => ops.push(operand_of(id)),
                        t => return Err(unexpected(t)),
                    }
                    i += 1;
                    tr.step(|| mix(mix(4, ops.len() as u64), i as u64));
                    if let Some((Tok::Comma, _)) = toks.get(i) {
                        i += 1;
                    } else {
                        break;
                    }
                }
                out.push(Stmt::Instr(s, loc, ops));
            }
            _ => return Err(unexpected(toks.get(i))),
        }
    }
    Ok(out)
}

// ---------------------------------------------------------------- the two passes

enum Dir {
    Org(u16),
    Equ(u16),
    Db(Vec<u8>),
}

fn directive(name: &str, loc: Loc, args: &[Lit]) -> Result<Dir, Reject> {
    let bad = |names: Vec<String>| Err(Reject { kind: Kind::Directive, loc: Some(loc), names });
    let lower = name.to_ascii_lowercase();
    match lower.as_str() {
        "org" | "equ" => match args {
            [Lit::Num(n)] => Ok(if lower == "org" { Dir::Org(*n as u16) } else { Dir::Equ(*n as u16) }),
            _ => bad(vec![lower]),
        },
        "db" => {
            if args.is_empty() {
                return bad(vec![lower]);
            }
            let mut bytes = Vec::new();
            for a in args {
                match a {
                    Lit::Num(n) if *n > 255 => return bad(vec![lower, format!("{:X}", n)]),
                    Lit::Num(n) => bytes.push(*n as u8),
                    Lit::Str(s) => bytes.extend_from_slice(s.as_bytes()),
                }
            }
            Ok(Dir::Db(bytes))
        }
        _ => bad(vec![name.to_string()]),
    }
}

pub fn assemble_instr(mn: &str, ops: &[Operand], labels: &HashMap<&str, u16>, loc: Loc) -> Result<u16, Reject> {
    let rej = |kind: Kind, names: Vec<String>| Reject { kind, loc: Some(loc), names };
    'form: for f in forms() {
        if !f.mnemonic.eq_ignore_ascii_case(mn) || f.slots.len() != ops.len() {
            continue;
        }
        let (mut x, mut y) = (0u16, 0u16);
        let mut value: Option<(&Operand, u32)> = None;
        for (s, o) in f.slots.iter().zip(ops) {
            match (s, o) {
                (Slot::X, Operand::Gpr(n)) => x = *n as u16,
                (Slot::Y, Operand::Gpr(n)) => y = *n as u16,
                (Slot::V0, Operand::Gpr(0)) => {}
                (Slot::Addr, Operand::Num(_) | Operand::Label(_)) => value = Some((o, 0xFFF)),
                (Slot::Byte, Operand::Num(_) | Operand::Label(_)) => value = Some((o, 0xFF)),
                (Slot::Nibble, Operand::Num(_) | Operand::Label(_)) => value = Some((o, 0xF)),
                (Slot::Fixed(a), Operand::Special(b)) if a == b => {}
                _ => continue 'form,
            }
        }
        let mut v = 0;
        if let Some((o, limit)) = value {
            v = match o {
                Operand::Num(n) => *n,
                Operand::Label(l) => match labels.get(l) {
                    Some(v) => *v as u32,
                    None => return Err(rej(Kind::UnknownLabel, vec![l.to_string()])),
                },
                _ => unreachable!(),
            };
            if v > limit {
                return Err(rej(Kind::TooWide, vec![format!("{:X}", v)]));
            }
        }
        return Ok(f.encode(x, y, v as u16));
    }
    Err(rej(Kind::NoForm, vec![mn.to_string()]))
}

pub fn assemble(stmts: &[Stmt], tr: &mut Trace) -> Result<Vec<Section>, Reject> {
    // Pass 1: label values.
    let mut labels: HashMap<&str, u16> = HashMap::new();
    let mut counter = 0u32;
    let mut label_hash = 0u64;
    let mut i = 0;
    while i < stmts.len() {
        match &stmts[i] {
            Stmt::Directive(name, loc, args) => {
                let d = directive(name, *loc, args)?;
                match d {
                    Dir::Org(a) => counter = a as u32,
                    Dir::Equ(_) => return Err(Reject { kind: Kind::ConstantWithoutLabel, loc: Some(*loc), names: vec![] }),
                    Dir::Db(b) => {
                        if b.len() > 0xFFF {
                            return Err(Reject { kind: Kind::DirectiveSize, loc: Some(*loc), names: vec!["db".into()] });
                        }
                        counter += b.len() as u32;
                        if counter > 0xFFF {
                            return Err(Reject { kind: Kind::CounterOverflow, loc: Some(*loc), names: vec!["db".into()] });
                        }
                    }
                }
            }
            Stmt::Label(name, loc) => {
                let mut value = counter as u16;
                if let Some(Stmt::Directive(n, l, a)) = stmts.get(i + 1) {
                    if let Ok(Dir::Equ(v)) = directive(n, *l, a) {
                        value = v;
                        i += 1;
                    }
                }
                if labels.contains_key(name) {
                    return Err(Reject { kind: Kind::Redefinition, loc: Some(*loc), names: vec![name.to_string()] });
                }
                labels.insert(name, value);
                if tr.record {
                    label_hash ^= mix(mix_bytes(7, name.as_bytes()), value as u64);
                }
            }
            Stmt::Instr(_, loc, _) => {
                counter += 2;
                if counter > 0xFFF {
                    return Err(Reject { kind: Kind::CounterOverflow, loc: Some(*loc), names: vec![] });
                }
            }
        }
        tr.step(|| mix(mix(5, counter as u64), label_hash));
        i += 1;
    }
    // Pass 2: bytes.
    let mut sections: Vec<Section> = Vec::new();
    let mut cur = Section { start: 0, data: vec![] };
    let mut h = label_hash;
    for s in stmts {
        match s {
            Stmt::Label(..) => {}
            Stmt::Directive(name, loc, args) => match directive(name, *loc, args)? {
                Dir::Org(a) => {
                    let done = std::mem::replace(&mut cur, Section { start: a, data: vec![] });
                    if !done.data.is_empty() {
                        sections.push(done);
                    }
                    h = mix(h, a as u64 + 1);
                }
                Dir::Equ(_) => {}
                Dir::Db(b) => {
                    if tr.record {
                        h = mix_bytes(h, &b);
                    }
                    cur.data.extend_from_slice(&b);
                }
            },
            Stmt::Instr(mn, loc, ops) => {
                let w = assemble_instr(mn, ops, &labels, *loc)?;
                cur.data.extend_from_slice(&w.to_be_bytes());
                h = mix(h, w as u64);
            }
        }
        tr.step(|| mix(6, h));
    }
    if !cur.data.is_empty() {
        sections.push(cur);
    }
    Ok(sections)
}

pub fn collisions(sections: &[Section]) -> Vec<(usize, usize)> {
    let mut pairs = Vec::new();
    for i in 0..sections.len() {
        for j in i + 1..sections.len() {
            let (a, b) = (&sections[i], &sections[j]);
            let (a0, a1) = (a.start as usize, a.start as usize + a.data.len());
            let (b0, b1) = (b.start as usize, b.start as usize + b.data.len());
            if a0 < b1 && b0 < a1 {
                pairs.push((i, j));
            }
        }
    }
    pairs
}

pub fn run(src: &[u8], tr: &mut Trace) -> Outcome {
    let Ok(text) = std::str::from_utf8(src) else {
        return Outcome::Reject(Reject { kind: Kind::NotUtf8, loc: None, names: vec![] });
    };
    let toks = scan(text, tr);
    let stmts = match parse(&toks, tr) {
        Ok(s) => s,
        Err(r) => return Outcome::Reject(r),
    };
    let sections = match assemble(&stmts, tr) {
        Ok(s) => s,
        Err(r) => return Outcome::Reject(r),
    };
    let pairs = collisions(&sections);
    if pairs.is_empty() {
        Outcome::Accept(sections)
    } else {
        Outcome::Collide(sections, pairs)
    }
}

// ---------------------------------------------------------------- I8HEX

/// The exact text a successful run writes.
pub fn hex_text(sections: &[Section]) -> String {
    let mut s = String::new();
    for sec in sections {
        for (k, chunk) in sec.data.chunks(16).enumerate() {
            let addr = sec.start as usize + 16 * k;
            let mut bytes = vec![chunk.len() as u8, (addr >> 8) as u8, addr as u8, 0];
            bytes.extend_from_slice(chunk);
            let sum: u32 = bytes.iter().map(|b| *b as u32).sum();
            bytes.push((0u8).wrapping_sub(sum as u8));
            s.push(':');
            for b in bytes {
                s.push_str(&format!("{:02X}", b));
            }
            s.push('\n');
        }
    }
    s.push_str(":00000001FF\n");
    s
}

/// A record-level decoder: every (address, byte) in order. `strict` demands exactly the documented form.
pub fn hex_decode(out: &[u8], strict: bool) -> Result<Vec<(u16, u8)>, String> {
    let text = std::str::from_utf8(out).map_err(|_| "output is not text".to_string())?;
    let mut mem = Vec::new();
    let mut ended = false;
    if strict && !text.ends_with('\n') {
        return Err("output is not newline-terminated".into());
    }
    let mut lines: Vec<&str> = text.split('\n').collect();
    if lines.last() == Some(&"") {
        lines.pop();
    }
    for (n, line) in lines.iter().enumerate() {
        if ended {
            return Err(format!("line {}: text after the end-of-file record", n + 1));
        }
        let body = line.strip_prefix(':').ok_or_else(|| format!("line {}: does not start a record", n + 1))?;
        if body.len() % 2 != 0 || !body.bytes().all(|c| c.is_ascii_digit() || (b'A'..=b'F').contains(&c) || (!strict && c.is_ascii_hexdigit())) {
            return Err(format!("line {}: not pairs of upper-case hex digits", n + 1));
        }
        let bytes: Vec<u8> = (0..body.len() / 2).map(|i| u8::from_str_radix(&body[2 * i..2 * i + 2], 16).unwrap()).collect();
        if bytes.len() < 5 || bytes.len() != bytes[0] as usize + 5 {
            return Err(format!("line {}: record length does not match", n + 1));
        }
        if bytes.iter().fold(0u8, |a, b| a.wrapping_add(*b)) != 0 {
            return Err(format!("line {}: wrong checksum", n + 1));
        }
        let addr = u16::from_be_bytes([bytes[1], bytes[2]]);
        match bytes[3] {
            0 => {
                if strict && (bytes[0] == 0 || bytes[0] > 16) {
                    return Err(format!("line {}: data record of {} bytes", n + 1, bytes[0]));
                }
                for (i, b) in bytes[4..bytes.len() - 1].iter().enumerate() {
                    mem.push((addr.wrapping_add(i as u16), *b));
                }
            }
            1 => {
                if strict && *line != ":00000001FF" {
                    return Err(format!("line {}: malformed end-of-file record", n + 1));
                }
                ended = true
            }
            t => return Err(format!("line {}: record type {}", n + 1, t)),
        }
    }
    if !ended {
        return Err("no end-of-file record".into());
    }
    Ok(mem)
}

/// The memory image as sorted (address, byte) pairs.
pub fn image(sections: &[Section]) -> Vec<(u16, u8)> {
    let mut v: Vec<(u16, u8)> =
        sections.iter().flat_map(|s| s.data.iter().enumerate().map(move |(i, b)| (s.start + i as u16, *b))).collect();
    v.sort();
    v
}
