## crate::onestore::header::StoreHeader::parse
$1 = fsshttpb::data_element::object_group::ObjectGroupDeclaration::partition_id(elb[1].0)
$2 = ($1 == 1)
$3 = lp[1, zip[p0.declarations, p0.objects], (), (), ($2), false]
$4 = reader::Reader::new(lpv[$3, $2, elb[1].1.data])
$5 = onestore::types::object_prop_set::ObjectPropSet::parse($4)
$6 = onestore::types::object_prop_set::ObjectPropSet::get($5.ok, PropertyType::FileAncestorIdentityGuid)
$7 = onestore::types::object_prop_set::ObjectPropSet::get($5.ok, PropertyType::FileNameCrc)
$8 = onestore::types::object_prop_set::ObjectPropSet::get($5.ok, PropertyType::FileIdentityGuid)
$9 = onestore::types::object_prop_set::ObjectPropSet::get($5.ok, PropertyType::FileLastCodeVersionThatWroteToIt)
$10 = onestore::header::StoreHeader::parse_guid($6.some)
$11 = onestore::header::StoreHeader::parse_guid($8.some)
$12 = onestore::header::StoreHeader::parse_u32($7.some)
$13 = onestore::header::StoreHeader::parse_u32($9.some)
$14 = if !is1($9): None
  else Some($13.ok)
=> if !lexit[$3, $2]: Err(E)
else if !is0(lpv[$3, $2, elb[1].1]): Err(E)
else if is1($5): Err(E)
else if !is1($6): Err(E)
else if !is1($7): Err(E)
else if !is1($8): Err(E)
else if !is1($9): 
  if is1($10): Err(E)
  else if is1($11): Err(E)
  else if is1($12): Err(E)
  else Ok(StoreHeader{file_identity: $11.ok, ancestor_identity: $10.ok, last_code_version_that_wrote_to_it: $14, file_name_crc: $12.ok})
else if is1($10): Err(E)
else if is1($11): Err(E)
else if is1($13): Err(E)
else if is1($12): Err(E)
else Ok(StoreHeader{file_identity: $11.ok, ancestor_identity: $10.ok, last_code_version_that_wrote_to_it: $14, file_name_crc: $12.ok})

## crate::onestore::header::StoreHeader::parse_guid
$1 = reader::Reader::new(p0.0)
$2 = shared::guid::Guid::parse($1)
=> if !is6(p0): Err(E)
else $2

## crate::onestore::header::StoreHeader::parse_u32
=> if !is4(p0): Err(E)
else Ok(p0.0)

