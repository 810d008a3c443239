PROPERTY = "P15"
HOST = "src/onestore/object_space.rs"
PRELUDE = "prelude.rs"
NEEDS = "a single object space reference property before an array of them"
BREAKS = "the single reference takes no place in the id stream, so later references are shifted"
EDITS = [("src/one/property/object_space_reference.rs", "                PropertyValue::ObjectSpaceId => 1,\n", "")]
DEMO = '''#[test]
fn single_reference_before_array() {
    let o = object(0x00060007, &[
        (0x28001C00, vec![]),
        (PropertyType::ChildGraphSpaceElementNodes as u32, u32_prop(1)),
    ], &[], &[7, 8]);
    let v = ObjectSpaceReference::parse_vec(PropertyType::ChildGraphSpaceElementNodes, &o).unwrap().unwrap();
    assert_eq!(v, vec![CellId(ex(0), ex(201))]);
}
'''
