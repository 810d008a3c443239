PROPERTY = "P30"
HOST = "src/utils.rs"
NEEDS = "text that contains an unpaired surrogate"
BREAKS = "invalid text is reported as malformed store data instead of malformed note data"
EDITS = [("src/utils.rs", "            ErrorKind::MalformedOneNoteData(", "            ErrorKind::MalformedOneStoreData(")]
DEMO = '''use super::*;
#[test]
fn category_of_invalid_text() {
    let d: &[u8] = &[0x00, 0xD8];
    let e = d.utf16_to_string().unwrap_err();
    assert!(format!("{e:?}").contains("MalformedOneNoteData"), "{e:?}");
}
'''
