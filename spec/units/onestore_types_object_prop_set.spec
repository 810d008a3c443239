## crate::onestore::types::object_prop_set::ObjectPropSet::context_ids
=> p0.context_ids

## crate::onestore::types::object_prop_set::ObjectPropSet::get
$1 = onestore::types::property::PropertyId::new((discr[p1, isize, one::property::PropertyType] as u32))
$2 = onestore::types::prop_set::PropertySet::get(p0.properties, $1)
=> $2

## crate::onestore::types::object_prop_set::ObjectPropSet::object_ids
=> p0.object_ids

## crate::onestore::types::object_prop_set::ObjectPropSet::object_space_ids
=> p0.object_space_ids

## crate::onestore::types::object_prop_set::ObjectPropSet::parse
$1 = onestore::types::object_stream_header::ObjectStreamHeader::parse(*p0)
$2 = range[0, $1.ok.count]
$3 = onestore::types::compact_id::CompactId::parse(lvb[1, 0])
$4 = lp[1, $2, ($1'), ($3'), (), is1($3)]
$5 = ldone[$4]
$6 = lpv[$4, done, lvb[1, 0]]
$7 = onestore::types::object_stream_header::ObjectStreamHeader::parse($6)
$8 = range[0, $7.ok.count]
$9 = lp[1, $8, ($7'), ($3'), (), is1($3)]
$10 = lpv[$9, done, lvb[1, 0]]
$11 = onestore::types::object_stream_header::ObjectStreamHeader::parse($10)
$12 = range[0, $11.ok.count]
$13 = lp[1, $12, ($11'), ($3'), (), is1($3)]
$14 = if $1.ok.osid_stream_not_present: $6
  else if !$7.ok.extended_streams_present: $10
  else lpv[$13, done, lvb[1, 0]]
$15 = onestore::types::prop_set::PropertySet::parse($14)
$16 = lp[1, $2, ($1', vecnil), ($3', push[lvb[1, 1], $3.ok]), (), is1($3)]
$17 = onestore::types::compact_id::CompactId::parse(lvb[1, 1])
$18 = push[lvb[1, 0], $17.ok]
$19 = lp[1, $8, (vecnil, $7'), ($18, $17'), (), is1($17)]
$20 = if $1.ok.osid_stream_not_present: vecnil
  else lpv[$19, done, lvb[1, 0]]
$21 = lp[1, $12, (vecnil, $11'), ($18, $17'), (), is1($17)]
$22 = if $1.ok.osid_stream_not_present: vecnil
  else if !$7.ok.extended_streams_present: vecnil
  else lpv[$21, done, lvb[1, 0]]
$23 = ldone[$9]
$24 = ldone[$13]
=> if $1.ok.osid_stream_not_present: 
  if is1($1): Err(E)
  else if !$5: Err(E)
  else if is1($15): Err(E)
  else Ok(ObjectPropSet{object_ids: lpv[$16, done, lvb[1, 1]], object_space_ids: $20, context_ids: $22, properties: $15.ok})
else if is1($1): Err(E)
else if !$5: Err(E)
else if !$7.ok.extended_streams_present: 
  if is1($7): Err(E)
  else if !$23: Err(E)
  else if is1($15): Err(E)
  else Ok(ObjectPropSet{object_ids: lpv[$16, done, lvb[1, 1]], object_space_ids: $20, context_ids: $22, properties: $15.ok})
else if is1($7): Err(E)
else if !$23: Err(E)
else if is1($11): Err(E)
else if !$24: Err(E)
else if is1($15): Err(E)
else Ok(ObjectPropSet{object_ids: lpv[$16, done, lvb[1, 1]], object_space_ids: $20, context_ids: $22, properties: $15.ok})
state p0: $1 = onestore::types::object_stream_header::ObjectStreamHeader::parse(*p0)
$2 = onestore::types::compact_id::CompactId::parse(lvb[1, 0])
$3 = lp[1, range[0, $1.ok.count], ($1'), ($2'), (), is1($2)]
$4 = lpv[$3, done, lvb[1, 0]]
$5 = onestore::types::object_stream_header::ObjectStreamHeader::parse($4)
$6 = lp[1, range[0, $5.ok.count], ($5'), ($2'), (), is1($2)]
$7 = lpv[$6, done, lvb[1, 0]]
$8 = onestore::types::object_stream_header::ObjectStreamHeader::parse($7)
$9 = range[0, $8.ok.count]
$10 = lp[1, $9, ($8'), ($2'), (), is1($2)]
$11 = if $1.ok.osid_stream_not_present: $4
  else if !$5.ok.extended_streams_present: $7
  else lpv[$10, done, lvb[1, 0]]
$12 = onestore::types::prop_set::PropertySet::parse($11)
=> $12'

## crate::onestore::types::object_prop_set::ObjectPropSet::properties
=> p0.properties

