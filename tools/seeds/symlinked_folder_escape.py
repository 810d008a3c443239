PROPERTY = "P24"
HOST = "src/onenote/mod.rs"
NEEDS = "a notebook entry that is a symbolic link to a folder outside the notebook folder"
BREAKS = "the containment check is skipped for entries that are folders"
EDITS = [("src/onenote/mod.rs", "if candidate.exists() {", "if candidate.is_file() {")]
DEMO = '''use super::*;
#[test]
fn linked_folder_outside_is_rejected() {
    let dir = tempfile::tempdir().unwrap();
    let base = dir.path().join("book");
    let out = dir.path().join("outside");
    std::fs::create_dir(&base).unwrap();
    std::fs::create_dir(&out).unwrap();
    std::os::unix::fs::symlink(&out, base.join("group")).unwrap();
    assert!(resolve_entry_path(&base, "group").is_err());
    std::fs::create_dir(base.join("real")).unwrap();
    assert!(resolve_entry_path(&base, "real").is_ok());
}
'''
