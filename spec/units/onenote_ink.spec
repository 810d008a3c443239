## crate::onenote::ink::Ink::bounding_box
=> p0.bounding_box

## crate::onenote::ink::Ink::ink_strokes
=> p0.ink_strokes

## crate::onenote::ink::Ink::offset_horizontal
=> p0.offset_horizontal

## crate::onenote::ink::Ink::offset_vertical
=> p0.offset_vertical

## crate::onenote::ink::InkBoundingBox::height
=> p0.height

## crate::onenote::ink::InkBoundingBox::scale
=> InkBoundingBox{x: (p1 *.f32 p0.x), y: (p1 *.f32 p0.y), height: (p1 *.f32 p0.height), width: (p1 *.f32 p0.width)}

## crate::onenote::ink::InkBoundingBox::width
=> p0.width

## crate::onenote::ink::InkBoundingBox::x
=> p0.x

## crate::onenote::ink::InkBoundingBox::y
=> p0.y

## crate::onenote::ink::InkPoint::x
=> p0.x

## crate::onenote::ink::InkPoint::y
=> p0.y

## crate::onenote::ink::InkStroke::color
=> p0.color

## crate::onenote::ink::InkStroke::height
=> p0.height

## crate::onenote::ink::InkStroke::path
=> p0.path

## crate::onenote::ink::InkStroke::pen_tip
=> p0.pen_tip

## crate::onenote::ink::InkStroke::transparency
=> p0.transparency

## crate::onenote::ink::InkStroke::width
=> p0.width

## crate::onenote::ink::parse_ink
$1 = onestore::object_space::ObjectSpace::get_object(p1, p0)
$2 = one::property_set::ink_container::parse($1.some)
$3 = onenote::ink::parse_ink_data($2.ok.ink_data.some, p1, $2.ok.ink_scaling_x, $2.ok.ink_scaling_y)
=> if !is1($1): Err(E)
else if is1($2): Err(E)
else if !is1($2.ok.ink_data): Ok(Ink{ink_strokes: vecnil, bounding_box: None, offset_horizontal: $2.ok.offset_from_parent_horiz, offset_vertical: $2.ok.offset_from_parent_vert})
else if is1($3): Err(E)
else Ok(Ink{ink_strokes: $3.ok.0, bounding_box: $3.ok.1, offset_horizontal: $2.ok.offset_from_parent_horiz, offset_vertical: $2.ok.offset_from_parent_vert})

## crate::onenote::ink::parse_ink_data
$1 = onestore::object_space::ObjectSpace::get_object(p1, p0)
$2 = one::property_set::ink_data_node::parse($1.some)
$3 = onenote::ink::parse_ink_stroke(elb[1], p1, p2, p3)
$4 = lp[1, $2.ok.strokes, (), (), (), is1($3)]
$5 = fcast[u32, f32, idx[$2.ok.bounding_box.some, 0]]
$6 = if !is1(p2): (float[1.0] *.f32 $5)
  else (p2.some *.f32 $5)
$7 = fcast[u32, f32, idx[$2.ok.bounding_box.some, 1]]
$8 = if !is1(p3): (float[1.0] *.f32 $7)
  else (p3.some *.f32 $7)
$9 = (fcast[u32, f32, idx[$2.ok.bounding_box.some, 3]] -.f32 $7)
$10 = if !is1(p3): (float[1.0] *.f32 $9)
  else (p3.some *.f32 $9)
$11 = (fcast[u32, f32, idx[$2.ok.bounding_box.some, 2]] -.f32 $5)
$12 = if !is1(p2): (float[1.0] *.f32 $11)
  else (p2.some *.f32 $11)
$13 = if !is1($2.ok.bounding_box): None
  else Some(InkBoundingBox{x: $6, y: $8, height: $10, width: $12})
=> if !is1($1): Err(E)
else if is1($2): Err(E)
else if !ldone[$4]: Err(E)
else Ok((gen[$2.ok.strokes, true, $3.ok, 1], $13))

## crate::onenote::ink::parse_ink_path
$1 = shared::guid::Guid::from_str('598a6a8f-52c0-4ba0-93af-af357411a561')
$2 = (elb[1].id == $1.ok)
$3 = lp[1, p1.dimensions, (), (), ($2), false]
$4 = shared::guid::Guid::from_str('b53f9f75-04e0-4498-a7ee-c30dbb5a9011')
$5 = (elb[1].id == $4.ok)
$6 = lp[1, p1.dimensions, (), (), ($5), false]
$7 = (len[p0] /.usize len[p1.dimensions])
$8 = (elb[1].1.id == $1.ok)
$9 = lp[1, enum[p1.dimensions], (), (), ($8), false]
$10 = fcast[i64, f32, idx[p0, (elb[2] +.usize ($7 *.usize lpv[$9, $8, elb[1].0]))]]
$11 = if !is1(p2): (float[1.0] *.f32 $10)
  else (p2.some *.f32 $10)
$12 = (elb[1].1.id == $4.ok)
$13 = lp[1, enum[p1.dimensions], (), (), ($12), false]
$14 = fcast[i64, f32, idx[p0, (elb[2] +.usize ($7 *.usize lpv[$13, $12, elb[1].0]))]]
$15 = if !is1(p3): (float[1.0] *.f32 $14)
  else (p3.some *.f32 $14)
$16 = gen[range[0, $7], true, InkPoint{x: $11, y: $15}, 2]
=> if !lexit[$3, $2]: Err(E)
else if !lexit[$6, $5]: Err(E)
else Ok($16)

## crate::onenote::ink::parse_ink_stroke
$1 = onestore::object_space::ObjectSpace::get_object(p1, p0)
$2 = one::property_set::ink_stroke_node::parse($1.some)
$3 = onestore::object_space::ObjectSpace::get_object(p1, $2.ok.properties)
$4 = one::property_set::stroke_properties_node::parse($3.some)
$5 = onenote::ink::parse_ink_path($2.ok.path, $4.ok, p2, p3)
=> if !is1($1): Err(E)
else if is1($2): Err(E)
else if !is1($3): Err(E)
else if is1($4): Err(E)
else if is1($5): Err(E)
else Ok(InkStroke{path: $5.ok, pen_tip: $4.ok.pen_tip, transparency: $4.ok.transparency, height: $4.ok.ink_height, width: $4.ok.ink_width, color: $4.ok.color})

