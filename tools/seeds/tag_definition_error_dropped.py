PROPERTY = "P05"
HOST = "src/onestore/object_space.rs"
PRELUDE = "prelude.rs"
NEEDS = "a note tag whose definition object cannot be decoded"
BREAKS = "the failure to decode the definition is turned into a tag without definition"
EDITS = [("src/onenote/note_tag.rs", """                    .map(|definition_id| parse_note_tag_definition(definition_id, space))
                    .transpose()?,""", """                    .and_then(|definition_id| parse_note_tag_definition(definition_id, space).ok()),""")]
DEMO = '''
#[test]
fn broken_tag_definition() {
    use crate::one::property::note_tag::ActionItemStatus;
    let s = space(vec![(7, object(PropertySetId::OutlineNode as u32, &[], &[], &[]))]);
    let mut t = vec![];
    t.extend(0u16.to_le_bytes());
    let tag = object(1, &[(PropertyType::NoteTagCreated as u32, u32_prop(1)), (PropertyType::ActionItemStatus as u32, 0u16.to_le_bytes().to_vec())], &[], &[]);
    let created_at = crate::one::property::time::Time::parse(PropertyType::NoteTagCreated, &tag).unwrap().unwrap();
    let item_status = ActionItemStatus::parse(&tag).unwrap().unwrap();
    let data = note_tag_container::Data { definition: Some(ex(7)), created_at, completed_at: None, item_status };
    assert!(crate::onenote::note_tag::parse_note_tags(vec![data], &s).is_err());
}
'''
