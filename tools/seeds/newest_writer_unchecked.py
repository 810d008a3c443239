PROPERTY = "P13"
HOST = "src/fsshttpb/packaging.rs"
NEEDS = "a header whose newest writer version is not a prescribed one"
BREAKS = "the second half of the test looks at another version field, so any newest writer version is accepted"
EDITS = [("src/fsshttpb/packaging.rs", "if newest_writer_version != 0x0000002A && newest_writer_version != 0x0000001B {", "if newest_writer_version != 0x0000002A && oldest_writer_version != 0x0000001B\n            && oldest_writer_version != 0x0000002A {")]
DEMO = '''use super::*;
#[test]
fn wrong_newest_writer_version() {
    let data = std::fs::read("tests/samples/non-legacy/Open Notebook.onetoc2").unwrap();
    assert!(OneStorePackaging::parse(&mut crate::reader::Reader::new(&data)).is_ok());
    let mut bad = data.clone();
    bad[72] = 0x77;
    assert!(OneStorePackaging::parse(&mut crate::reader::Reader::new(&bad)).is_err());
}
'''
