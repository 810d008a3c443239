PROPERTY = "P14"
HOST = "src/onestore/object_space.rs"
PRELUDE = "prelude.rs"
NEEDS = "a revision whose base revision id has a genuine GUID and the value 0, and a root only the base declares"
BREAKS = "the base revision is taken for absent, so roots and objects that only older revisions define are lost"
EDITS = [("src/fsshttpb/data/exguid.rs", "self.guid.is_nil() && self.value == 0", "self.guid.is_nil() || self.value == 0")]
DEMO = '''#[test]
fn base_with_value_zero_is_followed() {
    let mut newest = manifest(1, Some(0), 10);
    newest.root_declare.clear();
    let r = parse_space(vec![(1, newest), (0, manifest(7, None, 20))], 1).unwrap();
    assert_eq!(r, Some(ex(20)));
}
'''
