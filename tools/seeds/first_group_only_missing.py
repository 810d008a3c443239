PROPERTY = "P06"
HOST = "src/onestore/object_space.rs"
PRELUDE = "prelude.rs"
NEEDS = "a revision that refers to an object group that is not in the file"
BREAKS = "the missing object group is skipped instead of failing"
EDITS = [("src/onestore/revision.rs", """        let group = packaging
            .data_element_package
            .find_object_group(group_id)
            .ok_or_else(|| ErrorKind::MalformedOneStoreData("object group not found".into()))?;
""", """        let group = match packaging.data_element_package.find_object_group(group_id) {
            Some(group) => group,
            None if objects.is_empty() => {
                return Err(ErrorKind::MalformedOneStoreData("object group not found".into()).into());
            }
            None => return Ok(()),
        };
""")]
DEMO = '''
#[test]
fn second_group_missing() {
    use crate::fsshttpb::data_element::object_group::*;
    let decl = |p: u64| ObjectGroupDeclaration::Object { object_id: ex(5), partition_id: p, data_size: 0, object_reference_count: 0, cell_reference_count: 0 };
    let data = |b: Vec<u8>| ObjectGroupData::Object { group: vec![], cells: vec![], data: b };
    let mut empty = 0x8000_0000u32.to_le_bytes().to_vec();
    empty.extend([0, 0]);
    let group = ObjectGroup { declarations: vec![decl(4), decl(1)], metadata: vec![], objects: vec![data(0x0006_0007u32.to_le_bytes().to_vec()), data(empty)] };
    let mut m = manifest(1, None, 5);
    m.group_references.push(ex(50));
    m.group_references.push(ex(51));
    let mut p = packaging(vec![(1, m)]);
    p.data_element_package.object_groups.insert(ex(50), group);
    let index = StorageIndex { manifest_mappings: vec![], cell_mappings: Default::default(), revision_mappings: Default::default() };
    let mapping = StorageIndexCellMapping { cell_id: CellId(ex(0), ex(0)), id: ex(1), serial: SerialNumber { guid: Guid::nil(), serial: 0 } };
    let mut cache = HashMap::new();
    assert!(ObjectSpace::parse(&mapping, &index, &p, &mut cache).is_err());
}
'''
