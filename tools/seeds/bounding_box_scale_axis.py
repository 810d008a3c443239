PROPERTY = "P31"
HOST = "src/onestore/object_space.rs"
PRELUDE = "prelude.rs"
NEEDS = "ink whose horizontal and vertical scaling differ"
BREAKS = "the bounding box's height is scaled by the horizontal factor"
EDITS = [("src/onenote/ink.rs", "height: (y_max as f32 - y_min as f32) * scale_y,", "height: (y_max as f32 - y_min as f32) * scale_x,")]
DEMO = '''#[test]
fn different_scales() {
    let mut bb = vec![];
    for v in [0i32, 0, 10, 10] {
        bb.extend(v.to_le_bytes());
    }
    let data = object(0x0002003B, &[(PropertyType::InkBoundingBox as u32, vec_prop(&bb)), (PropertyType::InkStrokes as u32, u32_prop(0))], &[], &[]);
    let s = space(vec![(1, data)]);
    let (_, b) = crate::onenote::ink::parse_ink_data(ex(1), &s, Some(2.0), Some(3.0)).unwrap();
    assert_eq!(b.unwrap().height(), 30.0);
}
'''
