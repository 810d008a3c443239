PROPERTY = "P36"
HOST = "src/shared/multi_byte.rs"
NEEDS = "an encoded coordinate of 2^31 or more"
BREAKS = "the upper half of a decoded signed number is dropped"
EDITS = [("src/shared/multi_byte.rs", "            let shifted = (value >> 1) as i64;\n", "            let shifted = i64::from((value >> 1) as u32);\n")]
DEMO = '''use super::*;
#[test]
fn large_values_are_kept() {
    // one value: 2^33, stored as 2^34
    let mut data = vec![2];
    let mut v: u64 = 1 << 34;
    while v >= 0x80 {
        data.push(0x80 | (v & 0x7f) as u8);
        v >>= 7;
    }
    data.push(v as u8);
    assert_eq!(decode_signed(&data).unwrap(), vec![1i64 << 33]);
}
'''
