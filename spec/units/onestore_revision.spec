## crate::onestore::revision::Revision::<'a>::parse
$1 = fsshttpb::data_element::DataElementPackage::find_revision_manifest(p4.data_element_package, p0)
$2 = fsshttpb::data::exguid::ExGuid::as_option($1.some.base_rev_id)
$3 = mapget(*p5, CellId(p1, $1.some.rev_id))
$4 = fsshttpb::data_element::DataElementPackage::resolve_revision_manifest_id(p4.data_element_package, p3, $2.some)
$5 = if !is1($2): None
  else Some($4.some)
$6 = onestore::revision_role::RevisionRole::parse(elb[1].root_id)
$7 = lp[1, $1.some.root_declare, (), (), (), is1($6)]
$8 = ldone[$7]
$9 = onestore::revision::Revision::parse_group(p1, elb[1], p2, p4, lvb[1, 0])
$10 = lp[1, $1.some.group_references, (*p6), ($9'4), (), is1($9)]
$11 = ldone[$10]
=> if !is1($1): Err(E)
else if !is1($2): 
  if is1($3): Ok($5)
  else if !$8: Err(E)
  else if !$11: Err(E)
  else Ok($5)
else if is1($3): 
  if !is1($4): Err(E)
  else Ok($5)
else if !$8: Err(E)
else if !$11: Err(E)
else if !is1($4): Err(E)
else Ok($5)
state p5: => *p5
state p6: $1 = fsshttpb::data_element::DataElementPackage::find_revision_manifest(p4.data_element_package, p0)
$2 = mapget(*p5, CellId(p1, $1.some.rev_id))
$3 = onestore::revision::Revision::parse_group(p1, elb[1], p2, p4, lvb[1, 0])
$4 = lp[1, $1.some.group_references, (*p6), ($3'4), (), is1($3)]
$5 = mapget(lvb[1, 0], elb[1].0)
$6 = if is1($5): lvb[1, 0]
  else mapput[lvb[1, 0], elb[1].0, elb[1].1]
$7 = lp[1, mapiter[$2.some.objects], (*p6), ($6), (), false]
=> if !is1($2): lpv[$4, done, lvb[1, 0]]
else lpv[$7, done, lvb[1, 0]]
state p7: $1 = fsshttpb::data_element::DataElementPackage::find_revision_manifest(p4.data_element_package, p0)
$2 = mapget(*p5, CellId(p1, $1.some.rev_id))
$3 = mapget(lvb[1, 0], elb[1].0)
$4 = if is1($3): lvb[1, 0]
  else mapput[lvb[1, 0], elb[1].0, elb[1].1]
$5 = lp[1, mapiter[$2.some.roots], (*p7), ($4), (), false]
$6 = onestore::revision_role::RevisionRole::parse(elb[1].root_id)
$7 = mapget(lvb[1, 0], $6.ok)
$8 = if is1($7): lvb[1, 0]
  else mapput[lvb[1, 0], $6.ok, elb[1].object_id]
$9 = lp[1, $1.some.root_declare, (*p7), ($8), (), is1($6)]
=> if is1($2): lpv[$5, done, lvb[1, 0]]
else lpv[$9, done, lvb[1, 0]]

## crate::onestore::revision::Revision::<'a>::parse_group
$1 = fsshttpb::data_element::DataElementPackage::find_object_group(p3.data_element_package, p1)
$2 = fsshttpb::data_element::object_group::ObjectGroupDeclaration::object_id(elb[2])
$3 = mapget(lvb[2, 0], $2)
$4 = fsshttpb::data_element::object_group::ObjectGroupDeclaration::object_id(elb[1].0)
$5 = fsshttpb::data_element::object_group::ObjectGroupDeclaration::partition_id(elb[1].0)
$6 = onestore::object::Object::parse($2, p0, p2, mapext[mapnil, gen[zip[$1.some.declarations, $1.some.objects], true, (($4, $5), elb[1].1), 1]], p3)
$7 = if is1($3): lvb[2, 0]
  else mapput[lvb[2, 0], $2, $6.ok]
$8 = if !(len[$1.some.objects] == len[$1.some.declarations]): 
    if !is1($3): true
    else false
  else if is1($3): false
  else is1($6)
$9 = lp[2, $1.some.declarations, (*p4), ($7), (), $8]
$10 = ldone[$9]
=> if !is1($1): Err(E)
else if $10: Ok(unit)
else Err(E)
state p4: $1 = fsshttpb::data_element::DataElementPackage::find_object_group(p3.data_element_package, p1)
$2 = fsshttpb::data_element::object_group::ObjectGroupDeclaration::object_id(elb[2])
$3 = mapget(lvb[2, 0], $2)
$4 = fsshttpb::data_element::object_group::ObjectGroupDeclaration::object_id(elb[1].0)
$5 = fsshttpb::data_element::object_group::ObjectGroupDeclaration::partition_id(elb[1].0)
$6 = onestore::object::Object::parse($2, p0, p2, mapext[mapnil, gen[zip[$1.some.declarations, $1.some.objects], true, (($4, $5), elb[1].1), 1]], p3)
$7 = if is1($3): lvb[2, 0]
  else mapput[lvb[2, 0], $2, $6.ok]
$8 = if !(len[$1.some.objects] == len[$1.some.declarations]): 
    if !is1($3): true
    else false
  else if is1($3): false
  else is1($6)
$9 = lp[2, $1.some.declarations, (*p4), ($7), (), $8]
=> lpv[$9, done, lvb[2, 0]]

