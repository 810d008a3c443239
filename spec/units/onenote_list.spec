## crate::onenote::list::List::bold
=> p0.bold

## crate::onenote::list::List::font
=> p0.font

## crate::onenote::list::List::font_color
=> p0.font_color

## crate::onenote::list::List::font_size
=> p0.font_size

## crate::onenote::list::List::italic
=> p0.italic

## crate::onenote::list::List::list_font
=> p0.list_font

## crate::onenote::list::List::list_format
=> p0.list_format

## crate::onenote::list::List::list_restart
=> p0.list_restart

## crate::onenote::list::parse_list
$1 = onestore::object_space::ObjectSpace::get_object(p1, p0)
$2 = one::property_set::number_list_node::parse($1.some)
=> if !is1($1): Err(E)
else if is1($2): Err(E)
else Ok(List{list_font: $2.ok.list_font, list_restart: $2.ok.list_restart, list_format: $2.ok.list_format, bold: $2.ok.bold, italic: $2.ok.italic, font: $2.ok.font, font_size: $2.ok.font_size, font_color: $2.ok.font_color})

