PROPERTY = "P21"
HOST = "src/onestore/object_space.rs"
PRELUDE = "prelude.rs"
NEEDS = "a table whose row count property is smaller than its list of rows"
BREAKS = "only as many rows as the row count says are reported"
EDITS = [("src/onenote/table.rs", """        .rows
        .into_iter()
        .map(|row_id| parse_row""", """        .rows.into_iter().take(data.row_count as usize)
        .map(|row_id| parse_row""")]
DEMO = '''#[test]
fn all_rows_are_reported() {
    let table = object(0x00060022, &[
        (0x14001D7A, u32_prop(1)),
        (0x14001D57, u32_prop(1)),
        (0x14001D58, u32_prop(1)),
        (0x24001C20, u32_prop(2)),
        (0x1C001D66, vec_prop(&[1, 0, 0, 128, 63])),
    ], &[1, 2], &[]);
    let row = || object(0x00060023, &[(0x24001C20, u32_prop(0))], &[], &[]);
    let s = space(vec![(1, table), (100, row()), (101, row())]);
    let t = crate::onenote::table::parse_table(ex(1), &s, 0).unwrap();
    assert_eq!(t.contents().len(), 2);
}
'''
