## crate::onenote::note_tag::NoteTag::completed_at
=> p0.completed_at

## crate::onenote::note_tag::NoteTag::definition
=> p0.definition

## crate::onenote::note_tag::NoteTag::item_status
=> p0.item_status

## crate::onenote::note_tag::NoteTagDefinition::action_item_type
=> p0.action_item_type

## crate::onenote::note_tag::NoteTagDefinition::highlight_color
=> p0.highlight_color

## crate::onenote::note_tag::NoteTagDefinition::label
=> p0.label

## crate::onenote::note_tag::NoteTagDefinition::shape
=> p0.shape

## crate::onenote::note_tag::NoteTagDefinition::status
=> p0.status

## crate::onenote::note_tag::NoteTagDefinition::text_color
=> p0.text_color

## crate::onenote::note_tag::parse_note_tag_definition
$1 = onestore::object_space::ObjectSpace::get_object(p1, p0)
$2 = one::property_set::note_tag_shared_definition_container::parse($1.some)
=> if !is1($1): Err(E)
else if is1($2): Err(E)
else Ok(NoteTagDefinition{label: $2.ok.label, status: $2.ok.status, shape: $2.ok.shape, highlight_color: $2.ok.highlight_color, text_color: $2.ok.text_color, action_item_type: $2.ok.action_item_type})

## crate::onenote::note_tag::parse_note_tags
$1 = onenote::note_tag::parse_note_tag_definition(elb[1].definition.some, p1)
$2 = if !is1(elb[1].definition): false
  else is1($1)
$3 = lp[1, p0, (), (), (), $2]
$4 = if !is1(elb[1].definition): None
  else Some($1.ok)
=> if !ldone[$3]: Err(E)
else Ok(gen[p0, true, NoteTag{completed_at: elb[1].completed_at, item_status: elb[1].item_status, definition: $4}, 1])

