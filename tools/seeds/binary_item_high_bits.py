PROPERTY = "P36"
HOST = "src/fsshttpb/data/binary_item.rs"
NEEDS = "a byte array whose stored length is 2^32 or more"
BREAKS = "only the low 32 bits of the length count, so other bytes are taken for the array instead of failing"
EDITS = [("src/fsshttpb/data/binary_item.rs", "        let data = reader.read(size as usize)?.to_vec();\n",
          "        let data = reader.read(size as u32 as usize)?.to_vec();\n")]
DEMO = '''use super::*;
#[test]
fn length_beyond_32_bits() {
    // compact integer of 5 bytes: (2^32 + 2) << 5 | 0x10
    let n: u64 = ((1u64 << 32) + 2) << 5 | 0x10;
    let mut data = n.to_le_bytes()[..5].to_vec();
    data.extend([1, 2, 3, 4]);
    assert!(BinaryItem::parse(&mut crate::reader::Reader::new(&data)).is_err());
}
'''
