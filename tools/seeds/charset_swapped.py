PROPERTY = "P22"
HOST = "src/onestore/object_space.rs"
PRELUDE = "prelude.rs"
NEEDS = "text in the Turkish or the Vietnamese character set"
BREAKS = "the codes of two character sets are exchanged"
EDITS = [("src/one/property/charset.rs", "            162 => Charset::Turkish,\n            163 => Charset::Vietnamese,", "            162 => Charset::Vietnamese,\n            163 => Charset::Turkish,")]
DEMO = '''#[test]
fn turkish() {
    use crate::one::property::charset::Charset;
    let o = object(0x0012004D, &[(PropertyType::Charset as u32, vec![162])], &[], &[]);
    assert!(matches!(Charset::parse(PropertyType::Charset, &o).unwrap(), Some(Charset::Turkish)));
}
'''
