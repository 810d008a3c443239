## crate::one::property_set::text_run_data::get_object_ids
$1 = onestore::types::prop_set::PropertySet::values(p0)
$2 = one::property::object_reference::ObjectReference::count_references($1)
=> take[skip[p1.props.object_ids, p2], $2]

## crate::one::property_set::text_run_data::get_object_space_ids
$1 = onestore::types::prop_set::PropertySet::values(p0)
$2 = one::property::object_space_reference::ObjectSpaceReference::count_references($1)
=> take[skip[p1.props.object_space_ids, p2], $2]

## crate::one::property_set::text_run_data::parse
$1 = one::property::object_reference::ObjectReference::get_offset(PropertyType::TextRunData, p0)
$2 = onestore::object::Object::props(p0)
$3 = onestore::types::object_prop_set::ObjectPropSet::get($2, PropertyType::TextRunData)
$4 = one::property::object_space_reference::ObjectSpaceReference::get_offset(PropertyType::TextRunData, p0)
$5 = onestore::types::property::PropertyValue::to_property_values($3.some)
$6 = one::property_set::text_run_data::parse_object(p0, $5.some.0, elb[1], (lvb[1, 1] +.usize $1.ok), (lvb[1, 2] +.usize $4.ok))
$7 = onestore::types::prop_set::PropertySet::values(elb[1])
$8 = one::property::object_reference::ObjectReference::count_references($7)
$9 = one::property::object_space_reference::ObjectSpaceReference::count_references($7)
$10 = lp[1, $5.some.1, (vecnil, 0, 0), (push[lvb[1, 0], $6], (lvb[1, 1] +.usize $8), (lvb[1, 2] +.usize $9)), (), false]
=> if is1($1): 
  if !is1($3): Ok(None)
  else Err(E)
else if is1($4): 
  if !is1($3): Ok(None)
  else Err(E)
else if !is1($3): Ok(None)
else if !is1($5): Err(E)
else Ok(Some(lpv[$10, done, lvb[1, 0]]))

## crate::one::property_set::text_run_data::parse_object
$1 = onestore::types::property::PropertyId::value(p1)
$2 = one::property_set::text_run_data::get_object_ids(p2, p0, p3)
$3 = one::property_set::text_run_data::get_object_space_ids(p2, p0, p4)
$4 = onestore::mapping_table::MappingTable::nested(p0.mapping, p3, p4)
=> Object{context_id: p0.context_id, jc_id: JcId($1), props: ObjectPropSet{object_ids: $2, object_space_ids: $3, context_ids: vecnil, properties: p2}, file_data: None, mapping: $4}

