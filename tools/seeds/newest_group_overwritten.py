PROPERTY = "P14"
HOST = "src/onestore/object_space.rs"
PRELUDE = "prelude.rs"
NEEDS = "an object that a newer and an older revision of the same chain both define"
BREAKS = "only objects of the same class count as already defined, and then an older revision replaces the newer content"
EDITS = [("src/onestore/revision.rs", """            if objects.contains_key(&object_id) {
                continue;
            }
""", """            if objects.get(&object_id).is_some_and(|object| !object.props().object_ids().is_empty()) {
                continue;
            }
""")]
DEMO = '''
#[test]
fn newer_object_wins() {
    use crate::fsshttpb::data_element::object_group::*;
    let decl = |p: u64| ObjectGroupDeclaration::Object { object_id: ex(5), partition_id: p, data_size: 0, object_reference_count: 0, cell_reference_count: 0 };
    let data = |b: Vec<u8>| ObjectGroupData::Object { group: vec![], cells: vec![], data: b };
    let mut empty = 0x8000_0000u32.to_le_bytes().to_vec();
    empty.extend([0, 0]);
    let group = |jc: u32| ObjectGroup { declarations: vec![decl(4), decl(1)], metadata: vec![], objects: vec![data(jc.to_le_bytes().to_vec()), data(empty.clone())] };
    let mut new = manifest(2, Some(1), 5);
    new.group_references.push(ex(50));
    let mut old = manifest(1, None, 5);
    old.group_references.push(ex(51));
    let mut p = packaging(vec![(2, new), (1, old)]);
    p.data_element_package.object_groups.insert(ex(50), group(0x0006_0007));
    p.data_element_package.object_groups.insert(ex(51), group(0x0006_0008));
    let index = StorageIndex { manifest_mappings: vec![], cell_mappings: Default::default(), revision_mappings: Default::default() };
    let mapping = StorageIndexCellMapping { cell_id: CellId(ex(0), ex(0)), id: ex(2), serial: SerialNumber { guid: Guid::nil(), serial: 0 } };
    let mut cache = HashMap::new();
    let (_, s) = ObjectSpace::parse(&mapping, &index, &p, &mut cache).unwrap();
    assert_eq!(s.get_object(ex(5)).unwrap().id().0, 0x0006_0007);
}
'''
