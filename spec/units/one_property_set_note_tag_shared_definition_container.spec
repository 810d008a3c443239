## crate::one::property_set::note_tag_shared_definition_container::parse
$1 = one::property::note_tag_property_status::NoteTagPropertyStatus::parse(p0)
$2 = one::property::note_tag::ActionItemType::parse(p0)
$3 = one::property::color_ref::ColorRef::parse(PropertyType::NoteTagTextColor, p0)
$4 = one::property::color_ref::ColorRef::parse(PropertyType::NoteTagHighlightColor, p0)
$5 = one::property::simple::parse_string(PropertyType::NoteTagLabel, p0)
$6 = one::property::simple::parse_u16(PropertyType::NoteTagShape, p0)
$7 = one::property_set::assert_property_set(p0, PropertySetId::NoteTagSharedDefinitionContainer)
$8 = one::property::note_tag_shape::NoteTagShape::parse($6.ok.some)
=> if is1($1): Err(E)
else if is1($2): Err(E)
else if is1($3): Err(E)
else if is1($4): Err(E)
else if is1($5): Err(E)
else if is1($6): Err(E)
else if is1($7): Err(E)
else if !is1($1.ok): Err(E)
else if !is1($2.ok): Err(E)
else if !is1($6.ok): Err(E)
else if !is1($5.ok): Err(E)
else if is1($8): Err(E)
else Ok(note_tag_shared_definition_container::Data{label: $5.ok.some, status: $1.ok.some, shape: $8.ok, highlight_color: $4.ok, text_color: $3.ok, action_item_type: $2.ok.some})

