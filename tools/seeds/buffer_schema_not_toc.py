PROPERTY = "P26"
HOST = "src/onenote/mod.rs"
NEEDS = "a buffer whose schema identifier is neither the section's nor the table of contents'"
BREAKS = "parse_section_buffer only rejects tables of contents instead of everything that is not a section"
EDITS = [("src/onenote/mod.rs", """        if store.schema_guid() != guid!("1F937CB4-B26F-445F-B9F8-17E20160E461") {
            return Err(ErrorKind::NotASectionFile {
                file: file_name""", """        if store.schema_guid() == guid!("E4DBFD38-E5C7-408B-A8A1-0E7B421E1F5F") {
            return Err(ErrorKind::NotASectionFile {
                file: file_name""")]
DEMO = '''use super::*;
#[test]
fn foreign_schema_is_not_a_section() {
    let mut d = std::fs::read("tests/samples/New Section 1.one").unwrap();
    let schema = [0xB4u8, 0x7C, 0x93, 0x1F, 0x6F, 0xB2, 0x5F, 0x44, 0xB9, 0xF8, 0x17, 0xE2, 0x01, 0x60, 0xE4, 0x61];
    assert!(Parser::new().parse_section_buffer(&d, Path::new("x.one")).is_ok());
    let mut i = 0;
    let mut n = 0;
    while i + 16 <= d.len() {
        if d[i..i + 16] == schema {
            d[i] ^= 0xFF;
            n += 1;
        }
        i += 1;
    }
    assert!(n > 0);
    assert!(Parser::new().parse_section_buffer(&d, Path::new("x.one")).is_err());
}
'''
