mod c01;
mod c02;
mod c03;
mod c04;
mod common;

fn main() {
    vc::main(|id| match id {
        "C01" => Some(c01::run),
        "C02" => Some(c02::run),
        "C03" => Some(c03::run),
        "C04" => Some(c04::run),
        _ => None,
    })
}
