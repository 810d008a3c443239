PROPERTY = "P16"
HOST = "src/onestore/object_space.rs"
PRELUDE = "prelude.rs"
NEEDS = "an object that references contexts and also uses one compact id for two different objects"
BREAKS = "the mapping entries of the contexts are numbered before those of the objects, so a repeated compact id resolves to another object's entry"
EDITS = [("src/onestore/object.rs", "mapping_objects.chain(mapping_contexts)", "mapping_contexts.chain(mapping_objects)")]
DEMO = '''#[test]
fn repeated_compact_id_with_context() {
    use crate::fsshttpb::data_element::object_group::ObjectGroupData;
    let mut d = vec![];
    d.extend((2u32 | 1 << 30).to_le_bytes()); // two object ids, extended streams follow, osids present
    d.extend(cid(5));
    d.extend(cid(5));
    d.extend((0u32 | 1 << 30).to_le_bytes()); // object space ids, context ids follow
    d.extend(1u32.to_le_bytes()); // context ids
    d.extend(cid(6));
    d.extend(0u16.to_le_bytes());
    let mut bytes = d;
    bytes.extend([0u8; 8]);
    let data = ObjectGroupData::Object {
        group: vec![ex(100), ex(101)],
        cells: vec![CellId(ex(9), ex(0))],
        data: bytes,
    };
    let meta = ObjectGroupData::Object { group: vec![], cells: vec![], data: 0x0006000Eu32.to_le_bytes().to_vec() };
    let mut g: GroupData = HashMap::new();
    g.insert((ex(1), 1), &data);
    g.insert((ex(1), 4), &meta);
    let p = packaging(vec![]);
    let o = Object::parse(ex(1), ex(0), ex(0), &g, &p).unwrap();
    assert_eq!(o.mapping().get_object(0, compact(5)), Some(ex(100)));
    assert_eq!(o.mapping().get_object(1, compact(5)), Some(ex(101)));
}
'''
