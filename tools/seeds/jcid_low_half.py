PROPERTY = "P18"
HOST = "src/onestore/object_space.rs"
PRELUDE = "prelude.rs"
NEEDS = "an object whose class id agrees with the expected one in the index but not in the flags"
BREAKS = "only the index part of the class id is compared"
EDITS = [("src/one/property_set/mod.rs", "if object.id() == expected.as_jcid() {", "if object.id().0 & 0xFFFF == expected.as_jcid().0 & 0xFFFF {")]
DEMO = '''#[test]
fn class_id_with_other_flags() {
    let right = object(0x00060023, &[], &[], &[]);
    let wrong = object(0x00120023, &[], &[], &[]);
    assert!(assert_property_set(&right, PropertySetId::TableRowNode).is_ok());
    assert!(assert_property_set(&wrong, PropertySetId::TableRowNode).is_err());
}
'''
