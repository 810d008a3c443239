## crate::one::property::references::References::get_predecessors
$1 = onestore::object::Object::props(p1)
$2 = onestore::types::object_prop_set::ObjectPropSet::properties($1)
$3 = onestore::types::property::PropertyId::new((discr[p0, isize, one::property::PropertyType] as u32))
$4 = onestore::types::prop_set::PropertySet::index($2, $3)
$5 = onestore::types::prop_set::PropertySet::values_with_index($2)
=> if !is1($4): Err(E)
else Ok(iter[gen[$5, (elb[1].0 < $4.some), elb[1].1, 1], ()])

