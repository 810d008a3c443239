PROPERTY = "P25"
HOST = "src/onenote/mod.rs"
NEEDS = "a path that does not exist"
BREAKS = "the notebook file is opened for appending and created when it is missing"
EDITS = [("src/onenote/mod.rs", """    fn parse_nested_notebook(&self, path: &Path, depth: usize) -> Result<Notebook> {
        let file = File::open(path)?;""", """    fn parse_nested_notebook(&self, path: &Path, depth: usize) -> Result<Notebook> {
        let file = File::options().read(true).append(true).create(true).open(path)?;""")]
DEMO = '''use super::*;
#[test]
fn missing_file_is_not_created() {
    let d = tempfile::tempdir().unwrap();
    let p = d.path().join("none.onetoc2");
    assert!(Parser::new().parse_notebook(&p).is_err());
    assert!(!p.exists());
}
'''
