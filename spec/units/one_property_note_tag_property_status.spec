## crate::one::property::note_tag_property_status::NoteTagPropertyStatus::due_custom
=> p0.due_custom

## crate::one::property::note_tag_property_status::NoteTagPropertyStatus::due_later
=> p0.due_later

## crate::one::property::note_tag_property_status::NoteTagPropertyStatus::due_next_week
=> p0.due_next_week

## crate::one::property::note_tag_property_status::NoteTagPropertyStatus::due_this_week
=> p0.due_this_week

## crate::one::property::note_tag_property_status::NoteTagPropertyStatus::due_today
=> p0.due_today

## crate::one::property::note_tag_property_status::NoteTagPropertyStatus::due_tomorrow
=> p0.due_tomorrow

## crate::one::property::note_tag_property_status::NoteTagPropertyStatus::has_font_color
=> p0.has_font_color

## crate::one::property::note_tag_property_status::NoteTagPropertyStatus::has_highlight_color
=> p0.has_highlight_color

## crate::one::property::note_tag_property_status::NoteTagPropertyStatus::has_icon
=> p0.has_icon

## crate::one::property::note_tag_property_status::NoteTagPropertyStatus::has_label
=> p0.has_label

## crate::one::property::note_tag_property_status::NoteTagPropertyStatus::parse
$1 = onestore::object::Object::props(p0)
$2 = onestore::types::object_prop_set::ObjectPropSet::get($1, PropertyType::NoteTagPropertyStatus)
$3 = onestore::types::property::PropertyValue::to_u32($2.some)
$4 = if !(u8{$3.some[0:1]} == 0): true
  else false
$5 = if !(u8{$3.some[1:2]} == 0): true
  else false
$6 = if !(u8{$3.some[2:3]} == 0): true
  else false
$7 = if !(u8{$3.some[3:4]} == 0): true
  else false
$8 = if !(u8{$3.some[6:7]} == 0): true
  else false
$9 = if !(u8{$3.some[7:8]} == 0): true
  else false
$10 = if !(u8{$3.some[8:9]} == 0): true
  else false
$11 = if !(u8{$3.some[9:10]} == 0): true
  else false
$12 = if !(u8{$3.some[10:11]} == 0): true
  else false
$13 = if !(u8{$3.some[11:12]} == 0): true
  else false
=> if !is1($2): Ok(None)
else if !is1($3): Err(E)
else Ok(Some(NoteTagPropertyStatus{has_label: $4, has_font_color: $5, has_highlight_color: $6, has_icon: $7, due_today: $8, due_tomorrow: $9, due_this_week: $10, due_next_week: $11, due_later: $12, due_custom: $13}))

