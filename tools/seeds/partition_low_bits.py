PROPERTY = "P32"
HOST = "src/onestore/object_space.rs"
PRELUDE = "prelude.rs"
NEEDS = "an object group that declares an object under an unknown partition whose low bits match a known one"
BREAKS = "data of another partition takes the place of the object's data"
EDITS = [("src/onestore/revision.rs", "((decl.object_id(), decl.partition_id()), data)", "((decl.object_id(), decl.partition_id() & 0x7), data)")]
DEMO = '''
#[test]
fn unknown_partition() {
    use crate::fsshttpb::data_element::object_group::*;
    let decl = |p: u64| ObjectGroupDeclaration::Object { object_id: ex(5), partition_id: p, data_size: 0, object_reference_count: 0, cell_reference_count: 0 };
    let data = |b: Vec<u8>| ObjectGroupData::Object { group: vec![], cells: vec![], data: b };
    let mut empty = 0x8000_0000u32.to_le_bytes().to_vec();
    empty.extend([0, 0]);
    let group = ObjectGroup {
        declarations: vec![decl(4), decl(1), decl(12)],
        metadata: vec![],
        objects: vec![data(0x0006_0007u32.to_le_bytes().to_vec()), data(empty), data(0x0002_0001u32.to_le_bytes().to_vec())],
    };
    let mut m = manifest(1, None, 5);
    m.group_references.push(ex(50));
    let mut p = packaging(vec![(1, m)]);
    p.data_element_package.object_groups.insert(ex(50), group);
    let index = StorageIndex { manifest_mappings: vec![], cell_mappings: Default::default(), revision_mappings: Default::default() };
    let mapping = StorageIndexCellMapping { cell_id: CellId(ex(0), ex(0)), id: ex(1), serial: SerialNumber { guid: Guid::nil(), serial: 0 } };
    let mut cache = HashMap::new();
    let (_, s) = ObjectSpace::parse(&mapping, &index, &p, &mut cache).unwrap();
    assert_eq!(s.get_object(ex(5)).unwrap().id().0, 0x0006_0007);
}
'''
