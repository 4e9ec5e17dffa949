// In-process executor: the source files of the assembler library modules of /repo compiled unchanged into a worker
// that runs them on batches of source texts. The steps mirror `assemble_file` in /repo/src/main.rs; every discrepancy
// found through this worker is confirmed on the real binary before it counts.
#![allow(warnings)]

#[macro_use] extern crate lazy_static;
#[macro_use] extern crate twelve_bit;
extern crate getopts;
extern crate ihex;
extern crate regex;

#[path = "@REPO@/src/assembler/mod.rs"]
pub mod assembler;

// ==== body
use std::io::{Read, Write};

use assembler::assembler::*;
use assembler::data_range;
use assembler::ihex_writer;
use assembler::parser::*;
use assembler::scanner::Scanner;

fn run(src: &[u8]) -> (u8, Vec<u8>) {
  let text = match std::str::from_utf8(src) {
    Ok(t) => t,
    Err(_) => return (1, b"c8s: error: stream did not contain valid UTF-8\n".to_vec()),
  };
  let scanner = Scanner::new("in.S", text);
  let list = match parse(scanner) {
    Ok(l) => l,
    Err(message) => return (1, format!("{}\n", message).into_bytes()),
  };
  let ranges = match assemble(list) {
    Ok(r) => r,
    Err(message) => return (1, format!("{}\n", message).into_bytes()),
  };
  let overlapping = data_range::find_overlapping_ranges(&ranges);
  if overlapping.len() > 0 {
    let mut s = String::from("c8s: error: Input file specifies overlapping data ranges.\nc8s: error: Data from one section has overflowed into the adjacent.\n");
    for (a, b) in overlapping {
      s.push_str(&format!("c8s: error:   range {} overlaps with:\nc8s: error:   range {}\n", a, b));
    }
    return (1, s.into_bytes());
  }
  (0, ihex_writer::ihex_representation_of_data_ranges(&ranges).into_bytes())
}

fn read_u32<R: Read>(r: &mut R) -> Option<u32> {
  let mut b = [0u8; 4];
  match r.read_exact(&mut b) {
    Ok(()) => Some((b[0] as u32) | (b[1] as u32) << 8 | (b[2] as u32) << 16 | (b[3] as u32) << 24),
    Err(_) => None,
  }
}

fn put_u32(v: &mut Vec<u8>, n: u32) {
  v.push(n as u8); v.push((n >> 8) as u8); v.push((n >> 16) as u8); v.push((n >> 24) as u8);
}

pub fn main() {
  std::panic::set_hook(Box::new(|_| {}));
  let stdin = std::io::stdin();
  let stdout = std::io::stdout();
  let mut input = stdin.lock();
  let mut output = stdout.lock();
  loop {
    let count = match read_u32(&mut input) { Some(n) => n, None => return };
    let total = match read_u32(&mut input) { Some(n) => n, None => return };
    let mut body = vec![0u8; total as usize];
    if input.read_exact(&mut body).is_err() { return; }
    let mut reply = Vec::new();
    let mut p = 0usize;
    for _ in 0 .. count {
      let len = (body[p] as usize) | (body[p + 1] as usize) << 8 | (body[p + 2] as usize) << 16 | (body[p + 3] as usize) << 24;
      let src = &body[p + 4 .. p + 4 + len];
      p += 4 + len;
      let (code, text) = match std::panic::catch_unwind(|| run(src)) {
        Ok(r) => r,
        Err(_) => (101, Vec::new()),
      };
      reply.push(code);
      put_u32(&mut reply, text.len() as u32);
      reply.extend_from_slice(&text);
    }
    let mut head = Vec::new();
    put_u32(&mut head, reply.len() as u32);
    if output.write_all(&head).and_then(|_| output.write_all(&reply)).and_then(|_| output.flush()).is_err() { return; }
  }
}
