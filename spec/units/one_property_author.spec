## crate::one::property::author::Author::into_value
=> p0.0

## crate::one::property::author::Author::parse
$1 = one::property::simple::parse_string(PropertyType::Author, p0)
$2 = if !is1($1.ok): None
  else Some(Author($1.ok.some))
=> if is1($1): Err(E)
else Ok($2)

