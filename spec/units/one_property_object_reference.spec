## crate::one::property::object_reference::ObjectReference::count_references
$1 = onestore::types::prop_set::PropertySet::values(elb[1])
$2 = one::property::object_reference::ObjectReference::count_references($1)
$3 = lp[1, elb[2].1, (0), ((lvb[1, 0] +.usize $2)), (), false]
$4 = if is13(elb[2]): (lvb[2, 0] +.usize lpv[$3, done, lvb[1, 0]])
  else if !is8(elb[2]): 
    if !is7(elb[2]): lvb[2, 0]
    else (1 +.usize lvb[2, 0])
  else (lvb[2, 0] +.usize usize{elb[2].0[0:32]})
$5 = lp[2, p0, (0), ($4), (), false]
=> lpv[$5, done, lvb[2, 0]]

## crate::one::property::object_reference::ObjectReference::get_offset
$1 = one::property::references::References::get_predecessors(p0, p1)
$2 = one::property::object_reference::ObjectReference::count_references($1.ok)
=> if is1($1): Err(E)
else Ok($2)

## crate::one::property::object_reference::ObjectReference::parse
$1 = one::property::object_reference::ObjectReference::get_offset(p0, p1)
$2 = onestore::object::Object::props(p1)
$3 = onestore::types::object_prop_set::ObjectPropSet::get($2, p0)
$4 = onestore::types::object_prop_set::ObjectPropSet::object_ids($2)
$5 = onestore::types::property::PropertyValue::to_object_id($3.some)
$6 = one::property::object_reference::ObjectReference::resolve_id($1.ok, idx[$4, $1.ok], p1)
=> if is1($1): 
  if !is1($3): Ok(None)
  else Err(E)
else if !($1.ok < len[$4]): 
  if !is1($3): Ok(None)
  else Err(E)
else if !is1($3): Ok(None)
else if !is1($5): Err(E)
else Ok($6)

## crate::one::property::object_reference::ObjectReference::parse_vec
$1 = one::property::object_reference::ObjectReference::get_offset(p0, p1)
$2 = onestore::object::Object::props(p1)
$3 = onestore::types::object_prop_set::ObjectPropSet::get($2, p0)
$4 = onestore::types::object_prop_set::ObjectPropSet::object_ids($2)
$5 = onestore::types::property::PropertyValue::to_object_ids($3.some)
$6 = usize{$5.some[0:32]}
$7 = one::property::object_reference::ObjectReference::resolve_id((elb[1].0 +.usize $1.ok), elb[1].1, p1)
$8 = gen[enum[sub2[$4, $1.ok, ($1.ok +.usize $6)]], is1($7), $7.some, 1]
=> if is1($1): 
  if !is1($3): Ok(None)
  else Err(E)
else if (len[$4] < $1.ok): 
  if !is1($3): Ok(None)
  else Err(E)
else if !is1($3): Ok(None)
else if ((len[$4] -.usize $1.ok) < $6): Err(E)
else if !is1($5): Err(E)
else Ok(Some($8))

## crate::one::property::object_reference::ObjectReference::resolve_id
$1 = onestore::object::Object::mapping(p2)
$2 = onestore::mapping_table::MappingTable::get_object($1, p0, p1)
=> $2

