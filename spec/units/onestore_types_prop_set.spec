## crate::onestore::types::prop_set::PropertySet::get
$1 = onestore::types::property::PropertyId::id(p1)
$2 = mapget(p0.values, $1)
=> if !is1($2): None
else Some($2.some.1)

## crate::onestore::types::prop_set::PropertySet::index
$1 = onestore::types::property::PropertyId::id(p1)
$2 = mapget(p0.values, $1)
=> if !is1($2): None
else Some($2.some.0)

## crate::onestore::types::prop_set::PropertySet::parse
$1 = onestore::types::prop_set::PropertySet::parse_nested(*p0, 0)
=> $1
state p0: $1 = onestore::types::prop_set::PropertySet::parse_nested(*p0, 0)
=> $1'

## crate::onestore::types::prop_set::PropertySet::parse_nested
$1 = reader::Reader::get_u16(*p0)
$2 = range[0, $1.ok]
$3 = onestore::types::property::PropertyId::parse(lvb[1, 0])
$4 = lp[1, $2, ($1'), ($3'), (), is1($3)]
$5 = lp[1, $2, ($1', vecnil), ($3', push[lvb[1, 1], $3.ok]), (), is1($3)]
$6 = lpv[$5, done, lvb[1, 1]]
$7 = lpv[$4, done, lvb[1, 0]]
$8 = onestore::types::property::PropertyValue::parse_nested(elb[1], lvb[1, 0], p1)
$9 = lp[1, $6, ($7), ($8'1), (), is1($8)]
$10 = onestore::types::property::PropertyId::id(elb[1].1)
$11 = onestore::types::property::PropertyValue::parse_nested(elb[1].1, lvb[1, 1], p1)
$12 = lp[1, enum[$6], (mapnil, $7), (mapput[lvb[1, 0], $10, (elb[1].0, $11.ok)], $11'1), (), is1($11)]
=> if !(p1 < 65): Err(E)
else if is1($1): Err(E)
else if !ldone[$4]: Err(E)
else if !ldone[$9]: Err(E)
else Ok(PropertySet{values: lpv[$12, done, lvb[1, 0]]})
state p0: $1 = reader::Reader::get_u16(*p0)
$2 = range[0, $1.ok]
$3 = onestore::types::property::PropertyId::parse(lvb[1, 0])
$4 = lp[1, $2, ($1', vecnil), ($3', push[lvb[1, 1], $3.ok]), (), is1($3)]
$5 = lp[1, $2, ($1'), ($3'), (), is1($3)]
$6 = onestore::types::property::PropertyValue::parse_nested(elb[1], lvb[1, 0], p1)
$7 = lp[1, lpv[$4, done, lvb[1, 1]], (lpv[$5, done, lvb[1, 0]]), ($6'1), (), is1($6)]
=> lpv[$7, done, lvb[1, 0]]

## crate::onestore::types::prop_set::PropertySet::values
=> iter[gen[mapvals[p0.values], true, elb[1].1, 1], ()]

## crate::onestore::types::prop_set::PropertySet::values_with_index
=> iter[mapvals[p0.values], ()]

