## crate::onestore::OneStore::<'a>::data_root
=> p0.data_root

## crate::onestore::OneStore::<'a>::object_space
$1 = mapget(p0.object_spaces, p1)
=> $1

## crate::onestore::OneStore::<'a>::schema_guid
=> p0.schema

## crate::onestore::find_data_root_cell_id
$1 = shared::guid::Guid::from_str('84DEFAB9-AAA3-4A0D-A3A8-520C77AC7073')
$2 = fsshttpb::data::exguid::ExGuid::from_guid($1.ok, 2)
$3 = mapget(p0.roots, $2)
=> if !is1($3): Err(E)
else Ok($3.some)

## crate::onestore::find_header_cell_id
$1 = shared::guid::Guid::from_str('1A5A319C-C26B-41AA-B9C5-9BD8C44E07D4')
$2 = fsshttpb::data::exguid::ExGuid::from_guid($1.ok, 1)
$3 = mapget(p0.roots, $2)
=> if !is1($3): Err(E)
else Ok($3.some)

## crate::onestore::parse_object_space
$1 = mapget(p1.cell_mappings, p0)
$2 = onestore::object_space::ObjectSpace::parse($1.some, p1, p2, *p3)
=> if !is1($1): Err(E)
else $2
state p3: $1 = mapget(p1.cell_mappings, p0)
$2 = onestore::object_space::ObjectSpace::parse($1.some, p1, p2, *p3)
=> $2'3

## crate::onestore::parse_store
$1 = fsshttpb::data_element::DataElementPackage::find_storage_index(p0.data_element_package)
$2 = fsshttpb::data_element::DataElementPackage::find_storage_index_by_id(p0.data_element_package, p0.storage_index)
$3 = if !is1($1): $2.some
  else if !is1($2): $1.some
  else $2.some
$4 = fsshttpb::data_element::DataElementPackage::find_storage_manifest(p0.data_element_package, $3)
$5 = onestore::find_header_cell_id($4.some)
$6 = onestore::find_data_root_cell_id($4.some)
$7 = fsshttpb::data_element::storage_index::StorageIndex::find_cell_mapping($3, $5.ok)
$8 = onestore::parse_object_space($6.ok, $3, p0, mapnil)
$9 = fsshttpb::data_element::DataElementPackage::find_objects(p0.data_element_package, $7.some, $3)
$10 = len[$9.ok]
$11 = ($10 == 0)
$12 = if !is1($1): $2.some.cell_mappings
  else if !is1($2): $1.some.cell_mappings
  else $2.some.cell_mappings
$13 = mapvals[$12]
$14 = fsshttpb::data::exguid::ExGuid::is_nil(elb[1].id)
$15 = (elb[1].cell_id.0.guid == $6.ok.0.guid)
$16 = (elb[1].cell_id.0.value == $5.ok.0.value)
$17 = onestore::parse_object_space(elb[1].cell_id, $3, p0, lvb[1, 0])
$18 = (elb[1].cell_id.1.value == $5.ok.1.value)
$19 = (elb[1].cell_id.1.guid == $5.ok.1.guid)
$20 = (elb[1].cell_id.0.guid == $5.ok.0.guid)
$21 = (elb[1].cell_id.0.value == $6.ok.0.value)
$22 = (elb[1].cell_id.1.guid == $6.ok.1.guid)
$23 = (elb[1].cell_id.1.value == $6.ok.1.value)
$24 = if $14: lvb[1, 0]
  else if !$15: 
    if !$16: $17'3
    else if !$18: $17'3
    else if !$19: $17'3
    else if $20: lvb[1, 0]
    else $17'3
  else if !$16: 
    if !$21: $17'3
    else if !$22: $17'3
    else if $23: lvb[1, 0]
    else $17'3
  else if !$18: 
    if !$21: $17'3
    else if !$22: $17'3
    else if $23: lvb[1, 0]
    else $17'3
  else if !$21: 
    if !$19: $17'3
    else if $20: lvb[1, 0]
    else $17'3
  else if !$19: 
    if !$22: $17'3
    else if $23: lvb[1, 0]
    else $17'3
  else if $20: lvb[1, 0]
  else if !$22: $17'3
  else if $23: lvb[1, 0]
  else $17'3
$25 = if $14: false
  else if !is1($17): false
  else if !$15: 
    if !$16: true
    else if !$18: true
    else if !$19: true
    else if !$20: true
    else false
  else if !$16: 
    if !$21: true
    else if !$22: true
    else if !$23: true
    else false
  else if !$18: 
    if !$21: true
    else if !$22: true
    else if !$23: true
    else false
  else if !$21: 
    if !$19: true
    else if !$20: true
    else false
  else if !$19: 
    if !$22: true
    else if !$23: true
    else false
  else if $20: false
  else if !$22: true
  else if !$23: true
  else false
$26 = lp[1, $13, ($8'3), ($24), (), $25]
$27 = ldone[$26]
$28 = idx[$9.ok, 0]
$29 = onestore::header::StoreHeader::parse($28)
$30 = mapput[lvb[1, 1], $17.ok.0, $17.ok.1]
$31 = if $14: lvb[1, 1]
  else if !$15: 
    if !$16: $30
    else if !$18: $30
    else if !$19: $30
    else if $20: lvb[1, 1]
    else $30
  else if !$16: 
    if !$21: $30
    else if !$22: $30
    else if $23: lvb[1, 1]
    else $30
  else if !$18: 
    if !$21: $30
    else if !$22: $30
    else if $23: lvb[1, 1]
    else $30
  else if !$21: 
    if !$19: $30
    else if $20: lvb[1, 1]
    else $30
  else if !$19: 
    if !$22: $30
    else if $23: lvb[1, 1]
    else $30
  else if $20: lvb[1, 1]
  else if !$22: $30
  else if $23: lvb[1, 1]
  else $30
$32 = lp[1, $13, ($8'3, mapnil), ($24, $31), (), $25]
=> if is1($1): 
  if !is1($4): Err(E)
  else if is1($5): Err(E)
  else if is1($6): Err(E)
  else if !is1($7): Err(E)
  else if is1($8): Err(E)
  else if $11: Err(E)
  else if !$27: Err(E)
  else if is1($9): Err(E)
  else if is1($29): Err(E)
  else Ok(OneStore{schema: $4.some.id, header: $29.ok, data_root: $8.ok.1, object_spaces: lpv[$32, done, lvb[1, 1]]})
else if !is1($2): Err(E)
else if !is1($4): Err(E)
else if is1($5): Err(E)
else if is1($6): Err(E)
else if !is1($7): Err(E)
else if is1($8): Err(E)
else if $11: Err(E)
else if !$27: Err(E)
else if is1($9): Err(E)
else if is1($29): Err(E)
else Ok(OneStore{schema: $4.some.id, header: $29.ok, data_root: $8.ok.1, object_spaces: lpv[$32, done, lvb[1, 1]]})

