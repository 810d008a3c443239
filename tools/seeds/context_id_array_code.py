PROPERTY = "P11"
HOST = "src/onestore/types/property.rs"
NEEDS = "an object with a property holding an array of context ids before one holding object space ids"
BREAKS = "type code 0xD is decoded as an array of object space ids"
EDITS = [("src/onestore/types/property.rs", "0xD => PropertyValue::ContextIds(reader.get_u32()?)", "0xD => PropertyValue::ObjectSpaceIds(reader.get_u32()?)")]
DEMO = '''use super::*;
#[test]
fn context_id_array() {
    let v = PropertyValue::parse(PropertyId::new(0xD << 26), &mut crate::reader::Reader::new(&[2, 0, 0, 0])).unwrap();
    assert!(matches!(v, PropertyValue::ContextIds(2)));
    assert_eq!(v.to_object_space_ids(), None);
}
'''
