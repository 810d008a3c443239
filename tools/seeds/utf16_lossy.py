PROPERTY = "P23"
HOST = "src/utils.rs"
NEEDS = "text that contains an unpaired surrogate"
BREAKS = "invalid UTF-16 is replaced by U+FFFD instead of being reported"
EDITS = [("src/utils.rs", """        value.to_string().map_err(|err| {
            ErrorKind::MalformedOneNoteData(
                format!("UTF-16 string conversion failed: {err}").into(),
            )
            .into()
        })""", """        if value.is_empty() {
            return value.to_string().map_err(|err| {
                ErrorKind::MalformedOneNoteData(
                    format!("UTF-16 string conversion failed: {err}").into(),
                )
                .into()
            });
        }
        Ok(value.to_string_lossy())""")]
DEMO = '''use super::*;
#[test]
fn unpaired_surrogate_is_an_error() {
    let d: &[u8] = &[0x41, 0x00, 0x00, 0xD8, 0x42, 0x00];
    assert!(d.utf16_to_string().is_err());
    let d: &[u8] = &[0x41, 0x00];
    assert_eq!(d.utf16_to_string().unwrap(), "A");
}
'''
