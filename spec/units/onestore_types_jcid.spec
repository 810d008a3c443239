## crate::<onestore::types::jcid::JcId as std::fmt::Debug>::fmt
$1 = std::fmt::Formatter::write_fmt(*p1, fmtargs[[7, 74, 99, 73, 100, 40, 48, 120, 195, 32, 0, 0, 105, 8, 0, 1, 41, 0], [fmtarg[upper_hex, p0.0]]])
=> $1
state p1: $1 = std::fmt::Formatter::write_fmt(*p1, fmtargs[[7, 74, 99, 73, 100, 40, 48, 120, 195, 32, 0, 0, 105, 8, 0, 1, 41, 0], [fmtarg[upper_hex, p0.0]]])
=> $1'

## crate::onestore::types::jcid::JcId::parse
$1 = reader::Reader::get_u32(*p0)
=> if is1($1): Err(E)
else Ok(JcId($1.ok))
state p0: $1 = reader::Reader::get_u32(*p0)
=> $1'

