PROPERTY = "P01"
HOST = "src/fsshttpb/data/compact_u64.rs"
NEEDS = "input that ends after four bytes of a five-byte compact integer"
BREAKS = "the length test admits one byte too few, so reading the fifth byte panics"
EDITS = [("src/fsshttpb/data/compact_u64.rs", "if reader.remaining() < 5 {", "if reader.remaining() < 4 {")]
DEMO = '''use super::*;
#[test]
fn truncated_five_byte_form() {
    assert!(CompactU64::parse(&mut crate::reader::Reader::new(&[16, 0, 0, 0])).is_err());
}
'''
