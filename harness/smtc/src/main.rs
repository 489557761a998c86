mod c05;
mod c06;
mod common;

fn main() {
    vc::main(|id| match id {
        "C05" => Some(c05::run),
        "C06" => Some(c06::run),
        _ => None,
    })
}
