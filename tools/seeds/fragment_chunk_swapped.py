PROPERTY = "P09"
HOST = "src/fsshttpb/data_element/data_element_fragment.rs"
NEEDS = "a data element fragment whose chunk does not start at its own length"
BREAKS = "the chunk reference's two integers are read in the opposite order"
EDITS = [("src/fsshttpb/data_element/data_element_fragment.rs", """        let offset = CompactU64::parse(reader)?.value();
        let length = CompactU64::parse(reader)?.value();
""", """        let length = CompactU64::parse(reader)?.value();
        let offset = CompactU64::parse(reader)?.value();
""")]
DEMO = '''use super::*;
#[test]
fn chunk_reference_fields() {
    let mut ok = false;
    for compound in [0u32, 1] {
        let header = 2u32 | (compound << 2) | ((ObjectType::DataElementFragment as u32) << 3) | (9 << 17);
        let mut data = header.to_le_bytes().to_vec();
        data.push(0); // null id
        data.extend([(1 << 1) | 1, (4 << 1) | 1, (7 << 1) | 1]);
        data.push(0xAA);
        data.push((1 << 2) | 1); // end of the data element
        if let Ok(f) = DataElement::parse_data_element_fragment(&mut crate::reader::Reader::new(&data)) {
            assert_eq!((f.chunk_reference.offset, f.chunk_reference.length), (4, 7));
            ok = true;
        }
    }
    assert!(ok);
}
'''
