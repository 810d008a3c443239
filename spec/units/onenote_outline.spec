## crate::onenote::outline::Outline::alignment_in_parent
=> p0.alignment_in_parent

## crate::onenote::outline::Outline::alignment_self
=> p0.alignment_self

## crate::onenote::outline::Outline::child_level
=> p0.child_level

## crate::onenote::outline::Outline::indents
=> p0.indents

## crate::onenote::outline::Outline::is_layout_size_set_by_user
=> p0.is_layout_size_set_by_user

## crate::onenote::outline::Outline::items
=> p0.items

## crate::onenote::outline::Outline::layout_max_height
=> p0.layout_max_height

## crate::onenote::outline::Outline::layout_max_width
=> p0.layout_max_width

## crate::onenote::outline::Outline::layout_minimum_outline_width
=> p0.layout_minimum_outline_width

## crate::onenote::outline::Outline::layout_reserved_width
=> p0.layout_reserved_width

## crate::onenote::outline::Outline::list_spacing
=> p0.list_spacing

## crate::onenote::outline::Outline::offset_horizontal
=> p0.offset_horizontal

## crate::onenote::outline::Outline::offset_vertical
=> p0.offset_vertical

## crate::onenote::outline::OutlineElement::child_level
=> p0.child_level

## crate::onenote::outline::OutlineElement::children
=> p0.children

## crate::onenote::outline::OutlineElement::contents
=> p0.contents

## crate::onenote::outline::OutlineElement::list_contents
=> p0.list_contents

## crate::onenote::outline::OutlineElement::list_spacing
=> p0.list_spacing

## crate::onenote::outline::OutlineGroup::child_level
=> p0.child_level

## crate::onenote::outline::OutlineGroup::outlines
=> p0.outlines

## crate::onenote::outline::OutlineItem::element
=> p0

## crate::onenote::outline::check_nesting
=> if (p0 < 65): Ok(unit)
else Err(E)

## crate::onenote::outline::parse_outline
$1 = onestore::object_space::ObjectSpace::get_object(p1, p0)
$2 = one::property_set::outline_node::parse($1.some)
$3 = onenote::outline::parse_outline_item(elb[1], p1, 0)
$4 = lp[1, $2.ok.children, (), (), (), is1($3)]
$5 = one::property::outline_indent_distance::OutlineIndentDistance::into_value($2.ok.outline_indent_distance)
=> if !is1($1): Err(E)
else if is1($2): Err(E)
else if !ldone[$4]: Err(E)
else Ok(Outline{child_level: $2.ok.child_level, list_spacing: $2.ok.list_spacing, indents: $5, alignment_in_parent: $2.ok.layout_alignment_in_parent, alignment_self: $2.ok.layout_alignment_self, layout_max_height: $2.ok.layout_max_height, layout_max_width: $2.ok.layout_max_width, layout_reserved_width: $2.ok.layout_reserved_width, layout_minimum_outline_width: $2.ok.layout_minimum_outline_width, is_layout_size_set_by_user: $2.ok.is_layout_size_set_by_user, offset_horizontal: $2.ok.offset_from_parent_horiz, offset_vertical: $2.ok.offset_from_parent_vert, items: gen[$2.ok.children, true, $3.ok, 1]})

## crate::onenote::outline::parse_outline_element
$1 = onenote::outline::check_nesting(p2)
$2 = onestore::object_space::ObjectSpace::get_object(p1, p0)
$3 = one::property_set::outline_element_node::parse($2.some)
$4 = onenote::list::parse_list(elb[1], p1)
$5 = lp[1, $3.ok.list_contents, (), (), (), is1($4)]
$6 = onenote::content::parse_content(elb[1], p1, (1 +.usize p2))
$7 = lp[1, $3.ok.contents, (), (), (), is1($6)]
$8 = onenote::outline::parse_outline_item(elb[1], p1, (1 +.usize p2))
$9 = lp[1, $3.ok.children, (), (), (), is1($8)]
=> if is1($1): Err(E)
else if !is1($2): Err(E)
else if is1($3): Err(E)
else if !ldone[$5]: Err(E)
else if !ldone[$7]: Err(E)
else if !ldone[$9]: Err(E)
else Ok(OutlineElement{contents: gen[$3.ok.contents, true, $6.ok, 1], list_contents: gen[$3.ok.list_contents, true, $4.ok, 1], list_spacing: $3.ok.list_spacing, child_level: $3.ok.child_level, children: gen[$3.ok.children, true, $8.ok, 1]})

## crate::onenote::outline::parse_outline_group
$1 = onenote::outline::check_nesting(p2)
$2 = onestore::object_space::ObjectSpace::get_object(p1, p0)
$3 = one::property_set::outline_group::parse($2.some)
$4 = onenote::outline::parse_outline_item(elb[1], p1, (1 +.usize p2))
$5 = lp[1, $3.ok.children, (), (), (), is1($4)]
=> if is1($1): Err(E)
else if !is1($2): Err(E)
else if is1($3): Err(E)
else if !ldone[$5]: Err(E)
else Ok(OutlineGroup{child_level: $3.ok.child_level, outlines: gen[$3.ok.children, true, $4.ok, 1]})

## crate::onenote::outline::parse_outline_item
$1 = onestore::object_space::ObjectSpace::get_object(p1, p0)
$2 = onenote::outline::parse_outline_element(p0, p1, p2)
$3 = onenote::outline::parse_outline_group(p0, p1, p2)
$4 = onestore::object::Object::id($1.some)
$5 = one::property_set::PropertySetId::from_jcid($4)
$6 = if is1($3): OutlineItem::Element($2.ok)
  else if is7($5.some): OutlineItem::Group($3.ok)
  else OutlineItem::Element($2.ok)
=> if !is1($1): Err(E)
else if is1($2): 
  if is1($3): Err(E)
  else if !is1($5): Err(E)
  else if !is7($5.some): Err(E)
  else Ok($6)
else if is1($3): 
  if !is1($5): Err(E)
  else if is7($5.some): Err(E)
  else if !is6($5.some): Err(E)
  else Ok($6)
else if !is1($5): Err(E)
else if is7($5.some): Ok($6)
else if !is6($5.some): Err(E)
else Ok($6)

