## crate::onestore::object_space::ObjectSpace::<'a>::content_root
$1 = mapget(p0.roots, RevisionRole::DefaultContent)
=> $1

## crate::onestore::object_space::ObjectSpace::<'a>::get_object
$1 = mapget(p0.objects, p1)
=> $1

## crate::onestore::object_space::ObjectSpace::<'a>::metadata_root
$1 = mapget(p0.roots, RevisionRole::Metadata)
=> $1

## crate::onestore::object_space::ObjectSpace::<'a>::parse
$1 = fsshttpb::data_element::storage_index::StorageIndex::find_revision_mapping_by_serial(p1, p0.serial)
$2 = fsshttpb::data_element::DataElementPackage::resolve_cell_revision_manifest_id(p2.data_element_package, p1, p0.id)
$3 = if !is1($1): $2.some
  else if !is1($2): $1.some
  else $2.some
$4 = onestore::revision::Revision::parse(lvb[1, 0], p0.cell_id.0, p0.cell_id.1, p1, p2, lvb[1, 4], lvb[1, 2], lvb[1, 3])
$5 = if setin[lvb[1, 1], lvb[1, 0]]: false
  else if is1($4): false
  else if !is1($4.ok): true
  else false
$6 = if setin[lvb[1, 1], lvb[1, 0]]: true
  else is1($4)
$7 = lp[1, unit, ($3, setnil, mapnil, mapnil, *p3), ($4.ok.some, setput[lvb[1, 1], lvb[1, 0]], $4'6, $4'7, $4'5), ($5), $6]
$8 = ldone[$7]
$9 = fsshttpb::data_element::DataElementPackage::find_cell_revision_id(p2.data_element_package, p0.id)
$10 = fsshttpb::data::exguid::ExGuid::is_nil($9.some)
=> if is1($1): 
  if !$8: Err(E)
  else Ok((p0.cell_id, ObjectSpace{id: p0.cell_id.1, context: p0.cell_id.0, roots: lpv[$7, $5, $4'7], objects: lpv[$7, $5, $4'6]}))
else if !is1($9): 
  if !is1($2): Err(E)
  else if !$8: Err(E)
  else Ok((p0.cell_id, ObjectSpace{id: p0.cell_id.1, context: p0.cell_id.0, roots: lpv[$7, $5, $4'7], objects: lpv[$7, $5, $4'6]}))
else if !is1($2): 
  if !$10: Err(E)
  else Ok((p0.cell_id, ObjectSpace{id: p0.cell_id.1, context: p0.cell_id.0, roots: mapnil, objects: mapnil}))
else if !$8: Err(E)
else Ok((p0.cell_id, ObjectSpace{id: p0.cell_id.1, context: p0.cell_id.0, roots: lpv[$7, $5, $4'7], objects: lpv[$7, $5, $4'6]}))
state p3: $1 = fsshttpb::data_element::storage_index::StorageIndex::find_revision_mapping_by_serial(p1, p0.serial)
$2 = fsshttpb::data_element::DataElementPackage::resolve_cell_revision_manifest_id(p2.data_element_package, p1, p0.id)
$3 = if !is1($1): $2.some
  else if !is1($2): $1.some
  else $2.some
$4 = onestore::revision::Revision::parse(lvb[1, 0], p0.cell_id.0, p0.cell_id.1, p1, p2, lvb[1, 4], lvb[1, 2], lvb[1, 3])
$5 = if setin[lvb[1, 1], lvb[1, 0]]: false
  else if is1($4): false
  else if !is1($4.ok): true
  else false
$6 = if setin[lvb[1, 1], lvb[1, 0]]: true
  else is1($4)
$7 = lp[1, unit, ($3, setnil, mapnil, mapnil, *p3), ($4.ok.some, setput[lvb[1, 1], lvb[1, 0]], $4'6, $4'7, $4'5), ($5), $6]
$8 = lpv[$7, $5, $4'5]
=> if is1($1): $8
else if !is1($2): *p3
else $8

