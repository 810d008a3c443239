## crate::onenote::page::Page::author
=> p0.author

## crate::onenote::page::Page::contents
=> p0.contents

## crate::onenote::page::Page::height
=> p0.height

## crate::onenote::page::Page::level
=> p0.level

## crate::onenote::page::Page::outline_text
$1 = onenote::outline::OutlineItem::element(idx[p0.items, 0])
$2 = onenote::content::Content::rich_text(idx[$1.some.contents, 0])
=> if (len[p0.items] == 0): None
else if (len[$1.some.contents] == 0): None
else if !is1($1): None
else if (len[$2.some.text] == 0): None
else if !is1($2): None
else Some($2.some.text)

## crate::onenote::page::Page::title
=> p0.title

## crate::onenote::page::Page::title_text
$1 = onenote::page_content::PageContent::outline(elb[1])
$2 = onenote::page::Page::outline_text($1.some)
$3 = if !is1($1): false
  else is1($2)
$4 = lp[1, p0.contents, (), (), ($3), false]
$5 = onenote::page::Page::outline_text(idx[p0.title.some.contents, 0])
=> if (len[p0.title.some.contents] == 0): 
  if !lexit[$4, $3]: None
  else Some(lpv[$4, $3, $2.some])
else if !is1(p0.title): 
  if !lexit[$4, $3]: None
  else Some(lpv[$4, $3, $2.some])
else if is1($5): $5
else if !lexit[$4, $3]: None
else Some(lpv[$4, $3, $2.some])

## crate::onenote::page::Title::contents
=> p0.contents

## crate::onenote::page::Title::layout_alignment_in_parent
=> p0.layout_alignment_in_parent

## crate::onenote::page::Title::layout_alignment_self
=> p0.layout_alignment_self

## crate::onenote::page::Title::offset_horizontal
=> p0.offset_horizontal

## crate::onenote::page::Title::offset_vertical
=> p0.offset_vertical

## crate::onenote::page::parse_data
$1 = onestore::object_space::ObjectSpace::get_object(p1, p0.page)
$2 = one::property_set::page_node::parse($1.some)
=> if !is1($1): Err(E)
else $2

## crate::onenote::page::parse_manifest
$1 = onestore::object_space::ObjectSpace::content_root(p0)
$2 = onestore::object_space::ObjectSpace::get_object(p0, $1.some)
$3 = one::property_set::page_manifest_node::parse($2.some)
=> if !is1($1): Err(E)
else if !is1($2): Err(E)
else $3

## crate::onenote::page::parse_metadata
$1 = onestore::object_space::ObjectSpace::metadata_root(p0)
$2 = onestore::object_space::ObjectSpace::get_object(p0, $1.some)
$3 = one::property_set::page_metadata::parse($2.some)
=> if !is1($1): Err(E)
else if !is1($2): Err(E)
else $3

## crate::onenote::page::parse_page
$1 = onenote::page::parse_manifest(p0)
$2 = onenote::page::parse_metadata(p0)
$3 = onenote::page::parse_data($1.ok, p0)
$4 = onenote::page_content::parse_page_content(elb[1], p0)
$5 = lp[1, $3.ok.content, (), (), (), is1($4)]
$6 = ldone[$5]
$7 = onenote::page::parse_title($3.ok.title.some, p0)
$8 = if !is1($3.ok.title): None
  else Some($7.ok)
$9 = one::property::author::Author::into_value($3.ok.author.some)
$10 = if !is1($3.ok.author): None
  else Some($9)
=> if is1($1): Err(E)
else if is1($2): Err(E)
else if is1($3): Err(E)
else if !is1($3.ok.title): 
  if !$6: Err(E)
  else Ok(Page{title: $8, level: $2.ok.page_level, author: $10, height: $3.ok.page_height, contents: gen[$3.ok.content, true, $4.ok, 1]})
else if !$6: Err(E)
else if is1($7): Err(E)
else Ok(Page{title: $8, level: $2.ok.page_level, author: $10, height: $3.ok.page_height, contents: gen[$3.ok.content, true, $4.ok, 1]})

## crate::onenote::page::parse_title
$1 = onestore::object_space::ObjectSpace::get_object(p1, p0)
$2 = one::property_set::title_node::parse($1.some)
$3 = onenote::outline::parse_outline(elb[1], p1)
$4 = lp[1, $2.ok.children, (), (), (), is1($3)]
=> if !is1($1): Err(E)
else if is1($2): Err(E)
else if !ldone[$4]: Err(E)
else Ok(Title{contents: gen[$2.ok.children, true, $3.ok, 1], offset_horizontal: $2.ok.offset_horizontal, offset_vertical: $2.ok.offset_vertical, layout_alignment_in_parent: $2.ok.layout_alignment_in_parent, layout_alignment_self: $2.ok.layout_alignment_self})

