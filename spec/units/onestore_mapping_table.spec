## crate::onestore::mapping_table::MappingTable::from_entries
$1 = mapget(lvb[1, 0], elb[1].1.0)
$2 = (elb[1].0, elb[1].1.1)
$3 = if !is1($1): push[vecnil, $2]
  else push[$1.some, $2]
$4 = mapput[lvb[1, 0], elb[1].1.0, $3]
$5 = lp[1, enum[p0], (mapnil), ($4), (), false]
$6 = lp[1, enum[p1], (mapnil), ($4), (), false]
=> MappingTable{objects: lpv[$5, done, lvb[1, 0]], object_spaces: lpv[$6, done, lvb[1, 0]]}

## crate::onestore::mapping_table::MappingTable::get
$1 = mapget(p3, p2)
$2 = lp[1, $1.some, (), (), ((p1 == elb[1].0)), false]
=> if (len[$1.some] == 1): 
  if !is1($1): None
  else Some(idx[$1.some, 0].1)
else if !is1($1): None
else if !lexit[$2, (p1 == elb[1].0)]: None
else Some(lpv[$2, (p1 == elb[1].0), elb[1].1])

## crate::onestore::mapping_table::MappingTable::get_object
$1 = onestore::mapping_table::MappingTable::get(p0, p1, p2, p0.objects)
=> $1

## crate::onestore::mapping_table::MappingTable::get_object_space
$1 = onestore::mapping_table::MappingTable::get(p0, p1, p2, p0.object_spaces)
=> $1

## crate::onestore::mapping_table::MappingTable::nested
$1 = onestore::mapping_table::MappingTable::shift(p0.objects, p1)
$2 = onestore::mapping_table::MappingTable::shift(p0.object_spaces, p2)
=> MappingTable{objects: $1, object_spaces: $2}

## crate::onestore::mapping_table::MappingTable::shift
=> mapext[mapnil, gen[mapiter[p0], true, (elb[2].0, gen[elb[2].1, true, ((elb[1].0 -.usize p1), elb[1].1), 1]), 2]]

