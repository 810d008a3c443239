PROPERTY = "P06"
HOST = "src/onestore/object_space.rs"
PRELUDE = "prelude.rs"
NEEDS = "an object whose file data refers to a blob that is not in the file"
BREAKS = "a missing blob is treated as if the object had no file data"
EDITS = [("src/onestore/object.rs", """            .map(|blob_id| {
                packaging
                    .data_element_package
                    .find_blob(blob_id)
                    .ok_or_else(|| ErrorKind::MalformedOneStoreData("blob not found".into()))
            })
            .transpose()?;""", """            .and_then(|blob_id| packaging.data_element_package.find_blob(blob_id));""")]
DEMO = '''#[test]
fn missing_blob() {
    use crate::fsshttpb::data_element::object_group::ObjectGroupData;
    let mut bytes = (1u32 << 31).to_le_bytes().to_vec();
    bytes.extend(0u16.to_le_bytes());
    let data = ObjectGroupData::Object { group: vec![], cells: vec![], data: bytes };
    let meta = ObjectGroupData::Object { group: vec![], cells: vec![], data: 0x0006000Eu32.to_le_bytes().to_vec() };
    let file = ObjectGroupData::BlobReference { objects: vec![], cells: vec![], blob: ex(77) };
    let mut g: GroupData = HashMap::new();
    g.insert((ex(1), 1), &data);
    g.insert((ex(1), 4), &meta);
    let p = packaging(vec![]);
    assert!(Object::parse(ex(1), ex(0), ex(0), &g, &p).is_ok());
    g.insert((ex(1), 2), &file);
    assert!(Object::parse(ex(1), ex(0), ex(0), &g, &p).is_err());
}
'''
