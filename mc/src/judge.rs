//! Property-specific comparisons of an observed execution with the model's outcome.

use crate::engine::{status_text, Case};
use crate::exec::{RunResult, Status};
use crate::model::{self, Kind, Outcome, Section};

fn brief(m: &[(u16, u8)]) -> String {
    let v: Vec<String> = m.iter().take(12).map(|(a, b)| format!("{:03X}:{:02X}", a, b)).collect();
    format!("{}{}", v.join(" "), if m.len() > 12 { " ..." } else { "" })
}

/// What the run told the user, on whichever stream.
pub fn said(r: &RunResult) -> String {
    let o = String::from_utf8_lossy(&r.out).into_owned();
    if o.trim().is_empty() {
        String::from_utf8_lossy(&r.err).into_owned()
    } else {
        o
    }
}

pub fn is_rejected(r: &RunResult) -> Result<(), String> {
    if r.status != Status::Exit(1) {
        return Err(format!("must be rejected with exit status 1, but: {}", status_text(&r.status)));
    }
    if model::hex_decode(&r.out, false).is_ok() {
        return Err("exit status 1, but HEX output was written".into());
    }
    Ok(())
}

pub fn image_is(r: &RunResult, sections: &[Section]) -> Result<(), String> {
    if r.status != Status::Exit(0) {
        return Err(format!("must be accepted, but: {} ({})", status_text(&r.status), crate::engine::show(&r.out)));
    }
    let mut got = model::hex_decode(&r.out, false).map_err(|e| format!("output does not decode: {}", e))?;
    got.sort();
    let want = model::image(sections);
    if got != want {
        let d = got.iter().zip(&want).position(|(a, b)| a != b).unwrap_or(got.len().min(want.len()));
        return Err(format!("wrong memory image from entry {}: got {} want {}", d, brief(&got[d..]), brief(&want[d..])));
    }
    Ok(())
}

/// Acceptance and memory image agree with the model.
pub fn full(c: &Case) -> Result<(), String> {
    match c.want {
        Outcome::Accept(s) => image_is(c.got, s),
        _ => is_rejected(c.got),
    }
}

/// What the model rejects is rejected, with a diagnostic.
pub fn rejected_only(c: &Case) -> Result<(), String> {
    match c.want {
        Outcome::Accept(_) => Ok(()),
        _ => {
            is_rejected(c.got)?;
            if c.got.out.iter().all(|b| b.is_ascii_whitespace()) && c.got.err.is_empty() {
                return Err("rejected without any diagnostic".into());
            }
            Ok(())
        }
    }
}

/// Byte-exact output.
pub fn hex_exact(c: &Case) -> Result<(), String> {
    if let Outcome::Accept(s) = c.want {
        if c.got.status != Status::Exit(0) {
            return Err(format!("must be accepted, but: {}", status_text(&c.got.status)));
        }
        model::hex_decode(&c.got.out, true)?;
        let want = model::hex_text(s);
        if c.got.out != want.as_bytes() {
            let d = c.got.out.iter().zip(want.as_bytes()).position(|(a, b)| a != b).unwrap_or(c.got.out.len().min(want.len()));
            return Err(format!("output differs from the expected records at byte {}", d));
        }
    }
    Ok(())
}

/// Collisions are refused, everything else is not refused as a collision.
pub fn collision(c: &Case) -> Result<(), String> {
    match c.want {
        Outcome::Accept(_) => {
            if c.got.status != Status::Exit(0) {
                return Err(format!("no two sections share an address, but: {}", status_text(&c.got.status)));
            }
            Ok(())
        }
        Outcome::Collide(..) => is_rejected(c.got),
        Outcome::Reject(_) => Ok(()),
    }
}

type Rng = (u32, u32, u32);

fn report_ranges(out: &[u8]) -> Vec<Rng> {
    // Every "$AAA...$BBB (N bytes)".
    let text = String::from_utf8_lossy(out);
    let mut v = Vec::new();
    for (i, _) in text.match_indices("...$") {
        let head: String = text[..i].chars().rev().take_while(|c| c.is_ascii_hexdigit()).collect::<Vec<_>>().into_iter().rev().collect();
        let tail: String = text[i + 4..].chars().take_while(|c| c.is_ascii_hexdigit()).collect();
        let rest = &text[i + 4 + tail.len()..];
        let n: String = rest.trim_start_matches([' ', '(']).chars().take_while(|c| c.is_ascii_digit()).collect();
        if let (Ok(a), Ok(b), Ok(n)) = (u32::from_str_radix(&head, 16), u32::from_str_radix(&tail, 16), n.parse()) {
            v.push((a, b, n));
        }
    }
    v
}

pub fn collision_report(c: &Case) -> Result<(), String> {
    match c.want {
        Outcome::Collide(s, pairs) => {
            if c.got.status != Status::Exit(1) {
                return Err(format!("colliding sections must be reported with exit status 1, but: {}", status_text(&c.got.status)));
            }
            let rs = report_ranges(said(c.got).as_bytes());
            if rs.len() % 2 != 0 {
                return Err("the report has an odd number of ranges".into());
            }
            let norm = |a: Rng, b: Rng| if a <= b { (a, b) } else { (b, a) };
            let mut got: Vec<(Rng, Rng)> = rs.chunks(2).map(|p| norm(p[0], p[1])).collect();
            let r = |k: usize| (s[k].start as u32, s[k].start as u32 + s[k].data.len() as u32 - 1, s[k].data.len() as u32);
            let mut want: Vec<(Rng, Rng)> = pairs.iter().map(|(a, b)| norm(r(*a), r(*b))).collect();
            got.sort();
            want.sort();
            if got != want {
                return Err(format!("reported pairs {:X?}, colliding pairs {:X?}", &got[..got.len().min(6)], &want[..want.len().min(6)]));
            }
            Ok(())
        }
        Outcome::Accept(_) => {
            if !report_ranges(&c.got.out).is_empty() {
                return Err("a collision is reported where no sections share an address".into());
            }
            Ok(())
        }
        _ => Ok(()),
    }
}

/// `name` stands in `text` as a word of its own, not as a part of a longer one.
fn names(text: &str, name: &str) -> bool {
    let word = |c: char| c.is_ascii_alphanumeric() || c == '_';
    let (first, last) = (name.chars().next().map_or(false, word), name.chars().last().map_or(false, word));
    text.match_indices(name).any(|(i, _)| {
        let before = text[..i].chars().last().map_or(false, word);
        let after = text[i + name.len()..].chars().next().map_or(false, word);
        !(first && before) && !(last && after)
    })
}

/// Diagnostics: position and named construct.
pub fn diagnostic(file: &str, c: &Case) -> Result<(), String> {
    let Outcome::Reject(r) = c.want else { return Ok(()) };
    if c.got.status != Status::Exit(1) {
        return Err(format!("must be rejected with exit status 1, but: {}", status_text(&c.got.status)));
    }
    let text = said(c.got);
    if text.trim().is_empty() {
        return Err("rejected without a diagnostic".into());
    }
    match (&r.kind, r.loc) {
        (Kind::NotUtf8, _) => {}
        (_, None) => {
            let l = text.lines().next().unwrap_or("");
            if l.starts_with(&format!("{}:", file)) {
                return Err(format!("premature end of file is reported with a position: {}", l));
            }
        }
        (_, Some(loc)) => {
            let prefix = format!("{}: ", loc.show(file));
            // A diagnostic quotes at most the offending token, which may span lines; its first line carries the position.
            if !text.starts_with(&prefix) {
                return Err(format!("diagnostic must be at {} but is: {}", loc.show(file), crate::engine::show(text.as_bytes())));
            }
            for l in text.lines() {
                if l.starts_with(&format!("{}:", file)) && !l.starts_with(&prefix) {
                    return Err(format!("diagnostic must be at {} but a line says: {}", loc.show(file), l));
                }
            }
        }
    }
    let body = match r.loc {
        Some(l) => text[l.show(file).len().min(text.len())..].to_string(),
        None => text.clone(),
    };
    for n in &r.names {
        if !names(&body, n) {
            return Err(format!("diagnostic does not name '{}': {}", crate::engine::show(n.as_bytes()), crate::engine::show(text.as_bytes())));
        }
    }
    Ok(())
}

pub fn terminates(c: &Case) -> Result<(), String> {
    match &c.got.status {
        Status::Exit(0) => Ok(()),
        Status::Exit(1) => {
            if c.got.out.iter().all(|b| b.is_ascii_whitespace()) && c.got.err.iter().all(|b| b.is_ascii_whitespace()) {
                Err("exit status 1 without any diagnostic".into())
            } else {
                Ok(())
            }
        }
        s => Err(format!("abnormal termination: {}", status_text(s))),
    }
}
