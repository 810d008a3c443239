PROPERTY = "P04"
HOST = "src/fsshttpb/data/exguid.rs"
NEEDS = "an array whose stored count is huge while the data ends right after it"
BREAKS = "storage for the stored count is reserved before any element is known to be present"
EDITS = [("src/fsshttpb/data/exguid.rs", """        let mut values = vec![];

        let count = CompactU64::parse(reader)?.value();
""", """        let count = CompactU64::parse(reader)?.value();
        let mut values = Vec::with_capacity(count as usize);

""")]
DEMO = '''use super::*;
#[test]
fn huge_count_without_data() {
    let r = std::panic::catch_unwind(|| {
        let mut data = vec![0x80u8];
        data.extend((u64::MAX >> 1).to_le_bytes());
        ExGuid::parse_array(&mut crate::reader::Reader::new(&data)).is_err()
    });
    assert!(matches!(r, Ok(true)));
}
'''
