PROPERTY = "P08"
HOST = "src/fsshttpb/data/stream_object.rs"
NEEDS = "a 32-bit stream object header whose type uses the topmost bit of the 14-bit type field"
BREAKS = "the object type of a 32-bit header is decoded from 13 instead of 14 bits, so an undefined type is taken for a defined one"
EDITS = [("src/fsshttpb/data/stream_object.rs", "(data >> 3) & 0x3fff", "(data >> 3) & 0x1fff")]
DEMO = '''use super::*;
#[test]
fn undefined_type_is_rejected() {
    let h: u32 = 0x2 | (0x2001 << 3);
    assert!(ObjectHeader::parse(&mut crate::reader::Reader::new(&h.to_le_bytes())).is_err());
    let h: u32 = 0x2 | (0x0001 << 3);
    assert!(ObjectHeader::parse(&mut crate::reader::Reader::new(&h.to_le_bytes())).is_ok());
}
'''
