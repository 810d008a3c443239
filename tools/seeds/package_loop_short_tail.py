PROPERTY = "P02"
HOST = "src/fsshttpb/data_element/mod.rs"
NEEDS = "a data element package that is cut off with less than a header's worth of bytes left and no end marker"
BREAKS = "the element loop neither reads an element nor ends when only a few bytes remain, so it never terminates"
EDITS = [("src/fsshttpb/data_element/mod.rs", "            DataElement::parse(reader, &mut package)?\n", "            if reader.remaining() > 2 {\n                DataElement::parse(reader, &mut package)?\n            }\n")]
DEMO = '''use super::*;
#[test]
fn short_tail_ends() {
    let (tx, rx) = std::sync::mpsc::channel();
    std::thread::spawn(move || {
        let header = ((0x15u16) << 3 | 0x4).to_le_bytes();
        let data = [header[0], header[1], 0, 0xFC, 0xFC];
        let _ = tx.send(DataElementPackage::parse(&mut crate::reader::Reader::new(&data)).is_err());
    });
    assert!(rx.recv_timeout(std::time::Duration::from_secs(10)).expect("does not terminate"));
}
'''
