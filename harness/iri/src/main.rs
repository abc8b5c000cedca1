mod iris;
mod maps;
mod names;

fn main() {
    vmon::main_with(&[
        ("I01", names::i01),
        ("I02", names::i02),
        ("I03", iris::i03),
        ("I04", iris::i04),
        ("I05", iris::i05),
        ("I06", maps::i06),
        ("I07", maps::i07),
        ("I08", maps::i08),
        ("I09", iris::i09),
        ("I10", maps::i10),
    ]);
}
