PROPERTY = "P12"
HOST = "src/shared/guid.rs"
NEEDS = "a GUID whose last eight bytes are zero but whose first eight are not"
BREAKS = "such a GUID counts as the nil GUID"
EDITS = [("src/shared/guid.rs", "self.0.is_nil()", "self.0.as_u64_pair().1 == 0")]
DEMO = '''use super::*;
#[test]
fn only_zero_is_nil() {
    assert!(Guid::nil().is_nil());
    assert!(!Guid::from_str("11111111-2222-3333-0000-000000000000").unwrap().is_nil());
}
'''
