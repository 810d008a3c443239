PROPERTY = "P28"
HOST = "src/onestore/object_space.rs"
PRELUDE = "prelude.rs"
NEEDS = "an object group with two objects that fail to decode in different ways"
BREAKS = "the objects of a group are decoded in hash order, so that the reported error varies between runs"
EDITS = [("src/onestore/revision.rs", "        let object_ids: Vec<_> = group", "        let object_ids: std::collections::HashSet<_> = group")]
DEMO = '''
#[test]
fn same_error_every_time() {
    use crate::fsshttpb::data_element::object_group::*;
    let decl = |o: u32, p: u64| ObjectGroupDeclaration::Object { object_id: ex(o), partition_id: p, data_size: 0, object_reference_count: 0, cell_reference_count: 0 };
    let data = |b: Vec<u8>| ObjectGroupData::Object { group: vec![], cells: vec![], data: b };
    let mut errors = std::collections::BTreeSet::new();
    for _ in 0..64 {
        let group = ObjectGroup {
            declarations: vec![decl(5, 4), decl(6, 4), decl(6, 1)],
            metadata: vec![],
            objects: vec![data(0x0006_0007u32.to_le_bytes().to_vec()), data(vec![1]), data(vec![])],
        };
        let mut m = manifest(1, None, 5);
        m.group_references.push(ex(50));
        let mut p = packaging(vec![(1, m)]);
        p.data_element_package.object_groups.insert(ex(50), group);
        let index = StorageIndex { manifest_mappings: vec![], cell_mappings: Default::default(), revision_mappings: Default::default() };
        let mapping = StorageIndexCellMapping { cell_id: CellId(ex(0), ex(0)), id: ex(1), serial: SerialNumber { guid: Guid::nil(), serial: 0 } };
        let mut cache = HashMap::new();
        errors.insert(format!("{}", ObjectSpace::parse(&mapping, &index, &p, &mut cache).err().unwrap()));
    }
    assert_eq!(errors.len(), 1, "{errors:?}");
}
'''
