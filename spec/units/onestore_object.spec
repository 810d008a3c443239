## crate::onestore::object::Object::<'a>::context_id
=> p0.context_id

## crate::onestore::object::Object::<'a>::file_data
=> p0.file_data

## crate::onestore::object::Object::<'a>::find_blob_id
$1 = onestore::object::Object::find_object(p0, Partition::FileData, p1)
=> if !is1($1): Ok(None)
else if !is2($1.some): Err(E)
else Ok(Some($1.some.blob))

## crate::onestore::object::Object::<'a>::find_object
$1 = mapget(p2, (p0, (discr[p1, isize, onestore::object::Partition] as u64)))
=> $1

## crate::onestore::object::Object::<'a>::id
=> p0.jc_id

## crate::onestore::object::Object::<'a>::mapping
=> p0.mapping

## crate::onestore::object::Object::<'a>::parse
$1 = onestore::object::Object::find_blob_id(p0, p3)
$2 = onestore::object::Object::find_object(p0, Partition::ObjectData, p3)
$3 = onestore::object::Object::find_object(p0, Partition::Metadata, p3)
$4 = reader::Reader::new($2.some.data)
$5 = onestore::types::object_prop_set::ObjectPropSet::parse($4)
$6 = reader::Reader::new($3.some.data)
$7 = onestore::types::jcid::JcId::parse($6)
$8 = onestore::types::object_prop_set::ObjectPropSet::object_ids($5.ok)
$9 = onestore::types::object_prop_set::ObjectPropSet::context_ids($5.ok)
$10 = onestore::types::object_prop_set::ObjectPropSet::object_space_ids($5.ok)
$11 = fsshttpb::data_element::DataElementPackage::find_blob(p4.data_element_package, $1.ok.some)
$12 = if !is1($1.ok): None
  else Some($11.some)
$13 = (p2.guid == elb[1].1.guid)
$14 = (p2.value == elb[1].1.value)
$15 = if !$13: false
  else $14
$16 = ext[zip[$8, $2.some.group], zip[$9, gen[$2.some.cells, $15, elb[1].0, 1]]]
$17 = iter[$16, ()]
$18 = if !$13: true
  else if !$14: true
  else false
$19 = onestore::mapping_table::MappingTable::from_entries($17, iter[zip[$10, gen[$2.some.cells, $18, elb[1], 1]], ()])
=> if is1($1): Err(E)
else if !is1($2): Err(E)
else if !is1($3): Err(E)
else if !is1($1.ok): 
  if !is0($2.some): Err(E)
  else if !is0($3.some): Err(E)
  else if is1($5): Err(E)
  else if is1($7): Err(E)
  else if (len[$8] < len[$2.some.group]): Err(E)
  else if !(len[$2.some.cells] == (len[$9] +.usize len[$10])): Err(E)
  else Ok(Object{context_id: p1, jc_id: $7.ok, props: $5.ok, file_data: $12, mapping: $19})
else if !is0($2.some): Err(E)
else if !is0($3.some): Err(E)
else if !is1($11): Err(E)
else if is1($5): Err(E)
else if is1($7): Err(E)
else if (len[$8] < len[$2.some.group]): Err(E)
else if !(len[$2.some.cells] == (len[$9] +.usize len[$10])): Err(E)
else Ok(Object{context_id: p1, jc_id: $7.ok, props: $5.ok, file_data: $12, mapping: $19})

## crate::onestore::object::Object::<'a>::props
=> p0.props

