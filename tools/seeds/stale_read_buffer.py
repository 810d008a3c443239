PROPERTY = "P27"
HOST = "src/onenote/mod.rs"
NEEDS = "two files read by the same thread, the second one shorter"
BREAKS = "a thread-local buffer that is only cleared when the next file is longer carries bytes over"
EDITS = [("src/onenote/mod.rs", """        let size = file.metadata()?.len();
        let mut data = Vec::with_capacity(size as usize);

        let mut buf = BufReader::new(file);
        buf.read_to_end(&mut data)?;

        Ok(data)
""", """        thread_local! {
            static BUFFER: std::cell::RefCell<Vec<u8>> = const { std::cell::RefCell::new(Vec::new()) };
        }

        BUFFER.with(|data| {
            let mut data = data.borrow_mut();
            let mut buf = BufReader::new(file);
            let mut fresh = vec![];
            buf.read_to_end(&mut fresh)?;
            if data.len() < fresh.len() {
                data.clear();
                data.extend_from_slice(&fresh);
            } else {
                data[..fresh.len()].copy_from_slice(&fresh);
            }

            Ok(data.clone())
        })
""")]
DEMO = '''use super::*;
#[test]
fn second_file_is_shorter() {
    let d = tempfile::tempdir().unwrap();
    let (a, b) = (d.path().join("a"), d.path().join("b"));
    std::fs::write(&a, [1u8; 20]).unwrap();
    std::fs::write(&b, [2u8; 5]).unwrap();
    assert_eq!(Parser::read(File::open(&a).unwrap()).unwrap(), [1u8; 20]);
    assert_eq!(Parser::read(File::open(&b).unwrap()).unwrap(), [2u8; 5]);
}
'''
