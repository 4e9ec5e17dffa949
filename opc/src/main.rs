// Dumps, for every 16-bit word, what /repo's opcode module makes of it: the word the decoded instruction encodes back
// to, whether it decoded to NOP, and the text it renders. Only src/assembler/opcode.rs is compiled in.
#![allow(warnings)]

#[macro_use] extern crate twelve_bit;

pub mod assembler {
  #[path = "@REPO@/src/assembler/opcode.rs"]
  pub mod opcode;
}

// ==== body
use assembler::opcode::Opcode;
use std::io::Write;

pub fn main() {
  std::panic::set_hook(Box::new(|_| {}));
  let stdout = std::io::stdout();
  let mut out = std::io::BufWriter::new(stdout.lock());
  for w in 0u32 .. 0x10000 {
    let word = w as u16;
    let r = std::panic::catch_unwind(|| {
      let op = Opcode::from_instruction(word);
      let back = op.as_instruction();
      let again = Opcode::from_instruction(back);
      (back, op == Opcode::NOP, again == op, op.to_assembly_string(), format!("{}", op))
    });
    match r {
      Ok((back, nop, same, text, display)) => writeln!(out, "{:04X}\t{:04X}\t{}\t{}\t{}\t{}", word, back, nop as u8, same as u8, text, display).unwrap(),
      Err(_) => writeln!(out, "{:04X}\tPANIC", word).unwrap(),
    }
  }
}
