## crate::fsshttpb::data::cell_id::CellId::parse
$1 = fsshttpb::data::exguid::ExGuid::parse(*p0)
$2 = fsshttpb::data::exguid::ExGuid::parse($1')
=> if is1($1): Err(E)
else if is1($2): Err(E)
else Ok(CellId($1.ok, $2.ok))
state p0: $1 = fsshttpb::data::exguid::ExGuid::parse(*p0)
$2 = fsshttpb::data::exguid::ExGuid::parse($1')
=> $2'

## crate::fsshttpb::data::cell_id::CellId::parse_array
$1 = fsshttpb::data::compact_u64::CompactU64::parse(*p0)
$2 = fsshttpb::data::compact_u64::CompactU64::value($1.ok)
$3 = range[0, $2]
$4 = fsshttpb::data::cell_id::CellId::parse(lvb[1, 0])
$5 = lp[1, $3, ($1'), ($4'), (), is1($4)]
$6 = lp[1, $3, ($1', vecnil), ($4', push[lvb[1, 1], $4.ok]), (), is1($4)]
=> if is1($1): Err(E)
else if !ldone[$5]: Err(E)
else Ok(lpv[$6, done, lvb[1, 1]])
state p0: $1 = fsshttpb::data::compact_u64::CompactU64::parse(*p0)
$2 = fsshttpb::data::compact_u64::CompactU64::value($1.ok)
$3 = fsshttpb::data::cell_id::CellId::parse(lvb[1, 0])
$4 = lp[1, range[0, $2], ($1'), ($3'), (), is1($3)]
=> lpv[$4, done, lvb[1, 0]]

