## crate::onenote::iframe::IFrame::embed_type
=> p0.embed_type

## crate::onenote::iframe::IFrame::source_url
=> p0.source_url

## crate::onenote::iframe::parse_iframe
$1 = onestore::object_space::ObjectSpace::get_object(p1, p0)
$2 = one::property_set::iframe_node::parse($1.some)
=> if !is1($1): Err(E)
else if is1($2): Err(E)
else Ok(IFrame{embed_type: $2.ok.embed_type, source_url: $2.ok.source_url})

