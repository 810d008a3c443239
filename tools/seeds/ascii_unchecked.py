PROPERTY = "P37"
HOST = "src/onestore/object_space.rs"
PRELUDE = "prelude.rs"
NEEDS = "a text stored in the 8-bit encoding with a byte of 0x80 or more"
BREAKS = "the bytes are taken for UTF-8 without a check: a String that is not valid UTF-8"
EDITS = [("src/one/property/simple.rs", "    let text = decode_latin1(data).to_string();\n",
          "    let text = if data.is_ascii() { decode_latin1(data).to_string() } else { unsafe { String::from_utf8_unchecked(data.to_vec()) } };\n")]
DEMO = '''#[test]
fn text_is_valid_utf8() {
    use crate::one::property::{PropertyType, simple};
    let code = PropertyType::TextExtendedAscii as u32;
    let o = object(0x0006000E, &[(code, vec_prop(&[0x63, 0xE9, 0x20]))], &[], &[]);
    let s = simple::parse_ascii(PropertyType::TextExtendedAscii, &o).unwrap().unwrap();
    assert!(std::str::from_utf8(s.as_bytes()).is_ok());
}
'''
