PROPERTY = "P19"
HOST = "src/onestore/object_space.rs"
PRELUDE = "prelude.rs"
NEEDS = "a paragraph style that names a next style"
BREAKS = "the next style is read from the property holding the style's own id"
EDITS = [("src/one/property_set/paragraph_style_object.rs", "simple::parse_string(PropertyType::NextStyle, object)?", "simple::parse_string(PropertyType::ParagraphStyleId, object)?")]
DEMO = '''
#[test]
fn next_style() {
    let o = object(PropertySetId::ParagraphStyleObject as u32, &[(PropertyType::NextStyle as u32, vec_prop(&[b'n', 0, 0, 0])),
        (PropertyType::ParagraphStyleId as u32, vec_prop(&[b'p', 0, 0, 0]))], &[], &[]);
    let d = paragraph_style_object::parse(&o).unwrap();
    assert_eq!(d.next_style.as_deref(), Some("n"));
    assert_eq!(d.style_id.as_deref(), Some("p"));
}
'''
