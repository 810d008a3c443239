PROPERTY = "P29"
HOST = "src/onenote/mod.rs"
NEEDS = "a section given by a path whose reported size is not its content's, such as a named pipe"
BREAKS = "reading stops at the size the file system reports, so the bytes beyond it are not taken into account"
EDITS = [("src/onenote/mod.rs", "        let mut buf = BufReader::new(file);", "        let mut buf = BufReader::new(file).take(size);")]
DEMO = '''use super::*;
#[test]
fn file_without_reported_size() {
    // files below /proc report size 0
    let f = File::open("/proc/self/maps").unwrap();
    assert!(!Parser::read(f).unwrap().is_empty());
}
'''
