PROPERTY = "P37"
HOST = "src/shared/multi_byte.rs"
NEEDS = "an encoded ink path that ends inside or right before an integer"
BREAKS = "the bytes of an integer are read without a bounds check, beyond the end of the input"
EDITS = [("src/shared/multi_byte.rs", """        let (value, offset) = decode_uint(&input[index..])?;
""", """        let (value, offset) = decode_uint(unsafe { std::slice::from_raw_parts(input.as_ptr().add(index), 10) })?;
""")]
DEMO = '''use super::*;
#[test]
fn nothing_is_read_past_the_end() {
    // one value, its second byte is missing
    let store = [2u8, 0x80, 0x01, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0];
    assert!(decode(&store[..2]).is_err());
}
'''
