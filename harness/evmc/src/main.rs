mod alu;
mod asm;
mod batch;
mod c07;
mod c08;
mod c09;
mod c10;
mod c11;
mod c12;
mod c13;
mod c14;
mod c16;
mod c16b;
mod c18;
mod c19;
mod c20;
mod c21;
mod c22;
mod c23;
mod c24;
mod c25;
mod common;
mod ctl;
mod prog;
mod refevm;
mod witness;
#[allow(dead_code)]
#[path = "../../smtc/src/common.rs"]
mod refsmt;

fn main() {
    vc::main(|id| match id {
        "C16" => Some(c16::run),
        "C07" => Some(c07::run),
        "C08" => Some(c08::run),
        "C09" => Some(c09::run),
        "C10" => Some(c10::run),
        "C11" => Some(c11::run),
        "C12" => Some(c12::run),
        "C13" => Some(c13::run),
        "C14" => Some(c14::run),
        "C18" => Some(c18::run),
        "C19" => Some(c19::run),
        "C20" => Some(c20::run),
        "C21" => Some(c21::run),
        "C22" => Some(c22::run),
        "C23" => Some(c23::run),
        "C24" => Some(c24::run),
        "C25" => Some(c25::run),
        _ => None,
    })
}
