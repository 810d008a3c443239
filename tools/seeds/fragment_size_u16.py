PROPERTY = "P36"
HOST = "src/fsshttpb/data_element/data_element_fragment.rs"
NEEDS = "a data element fragment of 65536 bytes or more"
BREAKS = "the size of a fragment is taken modulo 65536 when its data is read"
EDITS = [("src/fsshttpb/data_element/data_element_fragment.rs", "        let data = reader.read(size as usize)?.to_vec();\n",
          "        let data = reader.read(usize::from(size as u16))?.to_vec();\n")]
DEMO = '''use super::*;
#[test]
fn fragment_sizes_beyond_16_bits() {
    // start header of the fragment, empty id, size 65537, offset 0, length 0, one byte of data
    let head: u32 = 0x2 | (0x6A << 3);
    let mut data = head.to_le_bytes().to_vec();
    data.push(0);
    data.extend(&((65537u32 << 3) | 4).to_le_bytes()[..3]);
    data.extend([0, 0, 9, 5]);
    let r = DataElement::parse_data_element_fragment(&mut crate::reader::Reader::new(&data));
    assert!(r.is_err());
}
'''
