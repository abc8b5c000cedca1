mod graphs;
mod literals;
mod names;
mod reify;
mod resource;
mod terms;

fn main() {
    vmon::main_with(&[
        ("C01", graphs::c01),
        ("C02", graphs::c02),
        ("C03", graphs::c03),
        ("C04", literals::c04),
        ("C05", literals::c05),
        ("C06", literals::c06),
        ("C07", terms::c07),
        ("C08", reify::c08),
        ("C09", reify::c09),
        ("C10", reify::c10),
        ("C11", resource::c11),
        ("C12", terms::c12),
        ("N01", names::n01),
    ]);
}
