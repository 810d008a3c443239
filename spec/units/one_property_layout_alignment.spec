## crate::one::property::layout_alignment::HorizontalAlignment::parse
=> if (p0 == 4): Ok(HorizontalAlignment::BiDiNormal)
else if (p0 == 2): Ok(HorizontalAlignment::Center)
else if (p0 == 0): Ok(HorizontalAlignment::Unknown)
else if (p0 == 5): Ok(HorizontalAlignment::BiDiReverse)
else if (p0 == 1): Ok(HorizontalAlignment::Left)
else if (p0 == 3): Ok(HorizontalAlignment::Right)
else Err(E)

## crate::one::property::layout_alignment::HorizontalAlignmentMargin::parse
=> if (p0 == 0): Ok(HorizontalAlignmentMargin::Right)
else if (p0 == 1): Ok(HorizontalAlignmentMargin::Left)
else Err(E)

## crate::one::property::layout_alignment::LayoutAlignment::alignment_horizontal
=> p0.alignment_horizontal

## crate::one::property::layout_alignment::LayoutAlignment::alignment_margin_horizontal
=> p0.alignment_margin_horizontal

## crate::one::property::layout_alignment::LayoutAlignment::alignment_margin_vertical
=> p0.alignment_margin_vertical

## crate::one::property::layout_alignment::LayoutAlignment::alignment_vertical
=> p0.alignment_vertical

## crate::one::property::layout_alignment::LayoutAlignment::parse
$1 = onestore::object::Object::props(p1)
$2 = onestore::types::object_prop_set::ObjectPropSet::get($1, p0)
$3 = onestore::types::property::PropertyValue::to_u32($2.some)
$4 = one::property::layout_alignment::HorizontalAlignment::parse(u32{$3.some[0:3]})
$5 = one::property::layout_alignment::VerticalAlignmentMargin::parse(u32{$3.some[19:20]})
$6 = one::property::layout_alignment::VerticalAlignment::parse(u32{$3.some[16:17]})
$7 = one::property::layout_alignment::HorizontalAlignmentMargin::parse(u32{$3.some[3:4]})
=> if !is1($2): Ok(None)
else if !(u8{$3.some[31:32]} == 0): 
  if is1($3): Ok(None)
  else Err(E)
else if !is1($3): Err(E)
else if is1($4): Err(E)
else if is1($5): Err(E)
else if is1($6): Err(E)
else if is1($7): Err(E)
else Ok(Some(LayoutAlignment{alignment_horizontal: $4.ok, alignment_margin_horizontal: $7.ok, alignment_vertical: $6.ok, alignment_margin_vertical: $5.ok}))

## crate::one::property::layout_alignment::VerticalAlignment::parse
=> if (p0 == 0): Ok(VerticalAlignment::Bottom)
else if (p0 == 1): Ok(VerticalAlignment::Top)
else Err(E)

## crate::one::property::layout_alignment::VerticalAlignmentMargin::parse
=> if (p0 == 0): Ok(VerticalAlignmentMargin::Bottom)
else if (p0 == 1): Ok(VerticalAlignmentMargin::Top)
else Err(E)

