## crate::<fsshttpb::data::object_types::ObjectType as std::fmt::LowerHex>::fmt
$1 = core::fmt::num::<impl std::fmt::LowerHex for u64>::fmt((discr[p0, isize, fsshttpb::data::object_types::ObjectType] as u64), *p1)
=> $1
state p1: $1 = core::fmt::num::<impl std::fmt::LowerHex for u64>::fmt((discr[p0, isize, fsshttpb::data::object_types::ObjectType] as u64), *p1)
=> $1'1

