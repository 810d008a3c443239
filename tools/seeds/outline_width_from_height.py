PROPERTY = "P20"
HOST = "src/onestore/object_space.rs"
PRELUDE = "prelude.rs"
NEEDS = "an outline whose layout maximum width and height differ"
BREAKS = "an outline reports its maximum height as its maximum width"
EDITS = [("src/onenote/outline.rs", "        layout_max_height: data.layout_max_height,\n        layout_max_width: data.layout_max_width,", "        layout_max_height: data.layout_max_height,\n        layout_max_width: data.layout_max_width.and(data.layout_max_height),")]
DEMO = '''
#[test]
fn outline_width() {
    let o = object(PropertySetId::OutlineNode as u32, &[(PropertyType::LayoutMaxHeight as u32, 1f32.to_le_bytes().to_vec()), (PropertyType::LayoutMaxWidth as u32, 2f32.to_le_bytes().to_vec()), (PropertyType::RgOutlineIndentDistance as u32, vec_prop(&[0,0,0,0])), (PropertyType::LastModifiedTime as u32, u32_prop(1)), (PropertyType::OutlineElementChildLevel as u32, vec![1])], &[], &[]);
    let s = space(vec![(7, o)]);
    let o = crate::onenote::outline::parse_outline(ex(7), &s).unwrap();
    assert_eq!(o.layout_max_width(), Some(2.0));
}
'''
