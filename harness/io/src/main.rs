mod dot;
mod json;
mod lines;
mod robust;
mod tool;
mod turtle;
mod util;
mod w3c;
mod xml;

fn main() {
    if std::env::args().nth(1).as_deref() == Some("calibrate") {
        return w3c::calibrate();
    }
    if std::env::args().nth(1).as_deref() == Some("deep") {
        let a: Vec<String> = std::env::args().collect();
        return robust::deep(&a[2], a[3].parse().expect("a depth"));
    }
    vmon::main_with(&[("W01", lines::w01), ("W02", lines::w02), ("W03", lines::w03), ("W04", json::w04), ("W05", xml::w05), ("W06", xml::w06),
        ("W07", turtle::w07),
        ("W08", turtle::w08),
        ("W09", dot::w09),
        ("W10", robust::w10),
        ("W11", robust::w11),
        ("W12", robust::w12),
        ("T01", tool::t01),
    ]);
}
