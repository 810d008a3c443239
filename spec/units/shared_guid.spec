## crate::<shared::guid::Guid as std::fmt::Debug>::fmt
$1 = std::fmt::Formatter::write_fmt(*p1, fmtargs[[5, 71, 117, 105, 100, 32, 192, 0], [fmtarg[display, p0]]])
=> $1
state p1: $1 = std::fmt::Formatter::write_fmt(*p1, fmtargs[[5, 71, 117, 105, 100, 32, 192, 0], [fmtarg[display, p0]]])
=> $1'

## crate::<shared::guid::Guid as std::fmt::Display>::fmt
$1 = std::fmt::Formatter::write_fmt(*p1, fmtargs[[1, 123, 192, 1, 125, 0], [fmtarg[upper_hex, p0.0]]])
=> $1
state p1: $1 = std::fmt::Formatter::write_fmt(*p1, fmtargs[[1, 123, 192, 1, 125, 0], [fmtarg[upper_hex, p0.0]]])
=> $1'

## crate::shared::guid::Guid::from_str
$1 = uuid::parser::<impl uuid::Uuid>::parse_str(p0)
=> if is1($1): Err(E)
else Ok(Guid($1.ok))

## crate::shared::guid::Guid::is_nil
$1 = uuid::builder::<impl uuid::Uuid>::nil()
=> (p0.0 == $1)

## crate::shared::guid::Guid::nil
$1 = uuid::builder::<impl uuid::Uuid>::nil()
=> Guid($1)

## crate::shared::guid::Guid::parse
$1 = reader::Reader::get_u128(*p0)
$2 = uuid::builder::<impl uuid::Uuid>::from_bytes([u8{$1.ok[24:32]}, u8{$1.ok[16:24]}, u8{$1.ok[8:16]}, u8{$1.ok[0:8]}, u8{$1.ok[40:48]}, u8{$1.ok[32:40]}, u8{$1.ok[56:64]}, u8{$1.ok[48:56]}, u8{$1.ok[64:72]}, u8{$1.ok[72:80]}, u8{$1.ok[80:88]}, u8{$1.ok[88:96]}, u8{$1.ok[96:104]}, u8{$1.ok[104:112]}, u8{$1.ok[112:120]}, u8{$1.ok[120:128]}])
=> if is1($1): Err(E)
else Ok(Guid($2))
state p0: $1 = reader::Reader::get_u128(*p0)
=> $1'

