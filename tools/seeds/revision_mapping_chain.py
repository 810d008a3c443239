PROPERTY = "P03"
HOST = "src/onestore/object_space.rs"
PRELUDE = "prelude.rs"
NEEDS = "a revision mapping that maps an id to itself"
BREAKS = "revision mappings are followed recursively without a limit"
EDITS = [("src/fsshttpb/data_element/mod.rs", """            .find_revision_mapping_id(id)
            .or_else(|| self.revision_manifests.get(&id).map(|_| id))""", """            .find_revision_mapping_id(id)
            .map(|mapped| {
                self.resolve_revision_manifest_id(storage_index, mapped)
                    .unwrap_or(mapped)
            })
            .or_else(|| self.revision_manifests.get(&id).map(|_| id))""")]
DEMO = '''
#[test]
fn mapping_to_itself() {
    use crate::fsshttpb::data_element::storage_index::StorageIndexRevisionMapping;
    let p = packaging(vec![(1, manifest(1, None, 5))]);
    let mut index = StorageIndex { manifest_mappings: vec![], cell_mappings: Default::default(), revision_mappings: Default::default() };
    index.revision_mappings.insert(ex(1), StorageIndexRevisionMapping { revision_mapping: ex(1), serial: SerialNumber { guid: Guid::nil(), serial: 0 } });
    assert_eq!(p.data_element_package.resolve_revision_manifest_id(&index, ex(1)), Some(ex(1)));
}
'''
