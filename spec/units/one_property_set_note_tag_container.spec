## crate::one::property_set::note_tag_container::Data::get_object_ids
$1 = onestore::types::prop_set::PropertySet::values(p0)
$2 = one::property::object_reference::ObjectReference::count_references($1)
=> take[skip[p1.props.object_ids, p2], $2]

## crate::one::property_set::note_tag_container::Data::get_object_space_ids
$1 = onestore::types::prop_set::PropertySet::values(p0)
$2 = one::property::object_space_reference::ObjectSpaceReference::count_references($1)
=> take[skip[p1.props.object_space_ids, p2], $2]

## crate::one::property_set::note_tag_container::Data::parse
$1 = one::property::object_reference::ObjectReference::get_offset(PropertyType::NoteTags, p0)
$2 = onestore::object::Object::props(p0)
$3 = onestore::types::object_prop_set::ObjectPropSet::get($2, PropertyType::NoteTags)
$4 = one::property::object_space_reference::ObjectSpaceReference::get_offset(PropertyType::NoteTags, p0)
$5 = onestore::types::property::PropertyValue::to_property_values($3.some)
$6 = onestore::types::prop_set::PropertySet::values(elb[1])
$7 = one::property::object_reference::ObjectReference::count_references($6)
$8 = one::property::object_space_reference::ObjectSpaceReference::count_references($6)
$9 = one::property_set::note_tag_container::Data::parse_object(p0, $5.some.0, elb[1], (lvb[1, 0] +.usize $1.ok), (lvb[1, 1] +.usize $4.ok))
$10 = one::property_set::note_tag_container::Data::parse_data($9)
$11 = lp[1, $5.some.1, (0, 0), ((lvb[1, 0] +.usize $7), (lvb[1, 1] +.usize $8)), (), is1($10)]
$12 = ldone[$11]
$13 = lp[1, $5.some.1, (0, 0, vecnil), ((lvb[1, 0] +.usize $7), (lvb[1, 1] +.usize $8), push[lvb[1, 2], $10.ok]), (), is1($10)]
=> if is1($1): 
  if !is1($3): Ok(None)
  else Err(E)
else if is1($4): 
  if !is1($3): Ok(None)
  else Err(E)
else if !is1($3): Ok(None)
else if !is1($5): Err(E)
else if !$12: Err(E)
else Ok(Some(lpv[$13, done, lvb[1, 2]]))

## crate::one::property_set::note_tag_container::Data::parse_data
$1 = one::property::note_tag::ActionItemStatus::parse(p0)
$2 = one::property::object_reference::ObjectReference::parse(PropertyType::NoteTagDefinitionOid, p0)
$3 = one::property::time::Time::parse(PropertyType::NoteTagCompleted, p0)
$4 = one::property::time::Time::parse(PropertyType::NoteTagCreated, p0)
=> if is1($1): Err(E)
else if is1($2): Err(E)
else if is1($3): Err(E)
else if is1($4): Err(E)
else if !is1($1.ok): Err(E)
else if !is1($4.ok): Err(E)
else Ok(note_tag_container::Data{definition: $2.ok, created_at: $4.ok.some, completed_at: $3.ok, item_status: $1.ok.some})

## crate::one::property_set::note_tag_container::Data::parse_object
$1 = onestore::types::property::PropertyId::value(p1)
$2 = one::property_set::note_tag_container::Data::get_object_ids(p2, p0, p3)
$3 = one::property_set::note_tag_container::Data::get_object_space_ids(p2, p0, p4)
$4 = onestore::mapping_table::MappingTable::nested(p0.mapping, p3, p4)
=> Object{context_id: p0.context_id, jc_id: JcId($1), props: ObjectPropSet{object_ids: $2, object_space_ids: $3, context_ids: vecnil, properties: p2}, file_data: None, mapping: $4}

