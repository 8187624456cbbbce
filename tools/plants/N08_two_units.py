PROPERTY = "N08"
NEEDS = "a conversion between units of different quantities inside of the value of a constant"
BREAKS = "the error says that a constant is unknown, although it is the conversion"
EDITS = [("nexsys/src/parsing/mod.rs", "    nil = conversions(&nil)?;", "    nil = conversions(&nil).map_err(|e| if nil.contains(\"const \") { ConstFormatError.into() } else { e })?;")]
CRATES = ["nexsys"]
MAIN = r'''
use nexsys::errors::UnitConversionError;
fn main() {
    for t in ["x = 2 * [m->kg]", "const k = 2 * [m->kg]\nx = k"] {
        let e = nexsys::solve_with_preprocessors(t, 1e-6, 50).unwrap_err();
        assert!(e.is::<UnitConversionError>(), "{t}: {e}");
    }
}
'''
