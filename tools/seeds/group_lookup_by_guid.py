PROPERTY = "P17"
HOST = "src/onestore/object_space.rs"
PRELUDE = "prelude.rs"
NEEDS = "a revision mapping for another id that shares the GUID part with the requested one"
BREAKS = "a missing revision manifest is replaced by one with the same GUID but another value"
EDITS = [("src/fsshttpb/data_element/mod.rs", "self.revision_manifests.get(&id)\n    }", "self.revision_manifests.get(&id).or_else(|| {\n            self.revision_manifests\n                .iter()\n                .filter(|(other, _)| other.guid == id.guid && other.value < id.value)\n                .max_by_key(|(other, _)| other.value)\n                .map(|(_, manifest)| manifest)\n        })\n    }")]
DEMO = '''#[test]
fn missing_manifest_is_not_replaced() {
    let p = packaging(vec![(1, manifest(1, None, 10))]);
    assert!(p.data_element_package.find_revision_manifest(ex(1)).is_some());
    assert!(p.data_element_package.find_revision_manifest(ex(2)).is_none());
}
'''
