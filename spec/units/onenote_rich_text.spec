## crate::onenote::rich_text::EmbeddedInkContainer::bounding_box
=> p0.bounding_box

## crate::onenote::rich_text::EmbeddedInkContainer::ink
=> p0.ink

## crate::onenote::rich_text::EmbeddedInkSpace::height
=> p0.height

## crate::onenote::rich_text::EmbeddedInkSpace::width
=> p0.width

## crate::onenote::rich_text::ParagraphStyling::bold
=> p0.bold

## crate::onenote::rich_text::ParagraphStyling::charset
=> p0.charset

## crate::onenote::rich_text::ParagraphStyling::font
=> p0.font

## crate::onenote::rich_text::ParagraphStyling::font_color
=> p0.font_color

## crate::onenote::rich_text::ParagraphStyling::font_size
=> p0.font_size

## crate::onenote::rich_text::ParagraphStyling::highlight
=> p0.highlight

## crate::onenote::rich_text::ParagraphStyling::hyperlink
=> p0.hyperlink

## crate::onenote::rich_text::ParagraphStyling::italic
=> p0.italic

## crate::onenote::rich_text::ParagraphStyling::language_code
=> p0.language_code

## crate::onenote::rich_text::ParagraphStyling::math_formatting
=> p0.math_formatting

## crate::onenote::rich_text::ParagraphStyling::next_style
=> p0.next_style

## crate::onenote::rich_text::ParagraphStyling::paragraph_alignment
=> p0.paragraph_alignment

## crate::onenote::rich_text::ParagraphStyling::paragraph_line_spacing_exact
=> p0.paragraph_line_spacing_exact

## crate::onenote::rich_text::ParagraphStyling::paragraph_space_after
=> p0.paragraph_space_after

## crate::onenote::rich_text::ParagraphStyling::paragraph_space_before
=> p0.paragraph_space_before

## crate::onenote::rich_text::ParagraphStyling::strikethrough
=> p0.strikethrough

## crate::onenote::rich_text::ParagraphStyling::style_id
=> p0.style_id

## crate::onenote::rich_text::ParagraphStyling::subscript
=> p0.subscript

## crate::onenote::rich_text::ParagraphStyling::superscript
=> p0.superscript

## crate::onenote::rich_text::ParagraphStyling::underline
=> p0.underline

## crate::onenote::rich_text::RichText::embedded_objects
=> p0.embedded_objects

## crate::onenote::rich_text::RichText::layout_alignment_in_parent
=> p0.layout_alignment_in_parent

## crate::onenote::rich_text::RichText::layout_alignment_self
=> p0.layout_alignment_self

## crate::onenote::rich_text::RichText::math_inline_objects
=> p0.math_inline_objects

## crate::onenote::rich_text::RichText::note_tags
=> p0.note_tags

## crate::onenote::rich_text::RichText::paragraph_alignment
=> p0.paragraph_alignment

## crate::onenote::rich_text::RichText::paragraph_line_spacing_exact
=> p0.paragraph_line_spacing_exact

## crate::onenote::rich_text::RichText::paragraph_space_after
=> p0.paragraph_space_after

## crate::onenote::rich_text::RichText::paragraph_space_before
=> p0.paragraph_space_before

## crate::onenote::rich_text::RichText::paragraph_style
=> p0.paragraph_style

## crate::onenote::rich_text::RichText::text
=> p0.text

## crate::onenote::rich_text::RichText::text_run_formatting
=> p0.text_run_formatting

## crate::onenote::rich_text::RichText::text_run_indices
=> p0.text_run_indices

## crate::onenote::rich_text::parse_embedded_ink_data
$1 = onenote::ink::parse_ink_data(p0, p1, None, None)
$2 = if !is1(p2.width): None
  else if !is1(p2.height): None
  else if !is1(p2.start_x): None
  else if !is1(p2.start_y): None
  else Some(InkBoundingBox{x: p2.start_x.some, y: p2.start_y.some, height: p2.height.some, width: p2.width.some})
=> if is1($1): Err(E)
else Ok(EmbeddedInkContainer{ink: Ink{ink_strokes: $1.ok.0, bounding_box: $1.ok.1, offset_horizontal: p2.offset_horiz, offset_vertical: p2.offset_vert}, bounding_box: $2})

## crate::onenote::rich_text::parse_embedded_ink_space
=> if !is1(p0.space_width): Err(E)
else if !is1(p0.space_height): Err(E)
else Ok(EmbeddedInkSpace{height: p0.space_height.some, width: p0.space_width.some})

## crate::onenote::rich_text::parse_rich_text
$1 = onestore::object_space::ObjectSpace::get_object(p1, p0)
$2 = one::property_set::text_run_data::parse($1.some)
$3 = one::property_set::rich_text_node::parse($1.some)
$4 = onestore::object_space::ObjectSpace::get_object(p1, $3.ok.paragraph_style)
$5 = onenote::note_tag::parse_note_tags($3.ok.note_tags, p1)
$6 = onestore::object_space::ObjectSpace::get_object(p1, elb[1])
$7 = one::property_set::paragraph_style_object::parse($6.some)
$8 = if !is1($6): true
  else is1($7)
$9 = lp[1, $3.ok.text_run_formatting, (), (), (), $8]
$10 = if !is1($2.ok): vecnil
  else $2.ok.some
$11 = zip[$10, $3.ok.text_run_formatting]
$12 = one::property_set::embedded_ink_container::Data::parse(elb[1].0)
$13 = onestore::object_space::ObjectSpace::get_object(p1, elb[1].1)
$14 = one::property_set::paragraph_style_object::parse($13.some)
$15 = if !is1($12): false
  else $14.ok.text_run_is_embedded_object
$16 = lp[1, $11, (), (), (), $15]
$17 = ldone[$16]
$18 = one::property_set::math_inline_object::Data::parse(elb[1].0)
$19 = onenote::math_inline_object::parse_math_inline_object($18.ok)
$20 = if is1($18): $14.ok.math_formatting
  else if !$14.ok.math_formatting: false
  else is1($19)
$21 = lp[1, $11, (), (), (), $20]
$22 = ldone[$21]
$23 = one::property_set::paragraph_style_object::parse($4.some)
$24 = if is1($12): false
  else $14.ok.text_run_is_embedded_object
$25 = gen[$11, $24, ($14.ok.text_run_object_type, $12.ok), 1]
$26 = enum[$25]
$27 = (elb[1].1.0.some == 131110)
$28 = (elb[1].1.0.some == 131111)
$29 = if $27: 
    if !is1(elb[1].1.0): lvb[1, 0]
    else (1 +.usize lvb[1, 0])
  else if !$28: lvb[1, 0]
  else if !is1(elb[1].1.0): lvb[1, 0]
  else (1 +.usize lvb[1, 0])
$30 = onenote::rich_text::parse_embedded_ink_space(elb[1].1.1)
$31 = len[$3.ok.text_run_data_object]
$32 = ($31 == 0)
$33 = onenote::rich_text::parse_embedded_ink_data(idx[$3.ok.text_run_data_object, (elb[1].0 -.usize lvb[1, 0])], p1, elb[1].1.1)
$34 = if $27: 
    if is1(elb[1].1.0): is1($30)
    else if $32: false
    else if !((elb[1].0 -.usize lvb[1, 0]) < $31): true
    else is1($33)
  else if $28: 
    if is1(elb[1].1.0): false
    else if $32: false
    else if !((elb[1].0 -.usize lvb[1, 0]) < $31): true
    else is1($33)
  else if is1(elb[1].1.0): true
  else if $32: false
  else if !((elb[1].0 -.usize lvb[1, 0]) < $31): true
  else is1($33)
$35 = lp[1, $26, (0), ($29), (), $34]
$36 = ldone[$35]
$37 = if $27: 
    if is1(elb[1].1.0): EmbeddedObject::InkSpace($30.ok)
    else EmbeddedObject::Ink($33.ok)
  else if !$28: EmbeddedObject::Ink($33.ok)
  else if is1(elb[1].1.0): EmbeddedObject::InkLineBreak
  else EmbeddedObject::Ink($33.ok)
$38 = push[lvb[1, 1], $37]
$39 = if $27: 
    if is1(elb[1].1.0): $38
    else if $32: lvb[1, 1]
    else $38
  else if !$28: 
    if $32: lvb[1, 1]
    else $38
  else if is1(elb[1].1.0): $38
  else if $32: lvb[1, 1]
  else $38
$40 = lp[1, $26, (0, vecnil), ($29, $39), (), $34]
$41 = lpv[$40, done, lvb[1, 1]]
$42 = len[$41]
$43 = ($42 == 0)
$44 = if !is1($3.ok.text): ''
  else if !$43: ''
  else $3.ok.text.some
$45 = onenote::rich_text::parse_style($7.ok)
$46 = onenote::rich_text::parse_style($23.ok)
$47 = if is1($18): false
  else $14.ok.math_formatting
$48 = gen[$11, $47, $19.ok, 1]
=> if !is1($1): Err(E)
else if is1($2): Err(E)
else if is1($3): Err(E)
else if !is1($4): Err(E)
else if is1($5): Err(E)
else if !ldone[$9]: Err(E)
else if !$17: Err(E)
else if !$22: Err(E)
else if is1($23): Err(E)
else if !$36: Err(E)
else Ok(RichText{text: $44, text_run_formatting: gen[$3.ok.text_run_formatting, true, $45, 1], text_run_indices: $3.ok.text_run_indices, paragraph_style: $46, paragraph_space_before: $3.ok.paragraph_space_before, paragraph_space_after: $3.ok.paragraph_space_after, paragraph_line_spacing_exact: $3.ok.paragraph_line_spacing_exact, paragraph_alignment: $3.ok.paragraph_alignment, layout_alignment_in_parent: $3.ok.layout_alignment_in_parent, layout_alignment_self: $3.ok.layout_alignment_self, note_tags: $5.ok, embedded_objects: $41, math_inline_objects: $48})

## crate::onenote::rich_text::parse_style
=> ParagraphStyling{charset: p0.charset, bold: p0.bold, italic: p0.italic, underline: p0.underline, strikethrough: p0.strikethrough, superscript: p0.superscript, subscript: p0.subscript, font: p0.font, font_size: p0.font_size, font_color: p0.font_color, highlight: p0.highlight, next_style: p0.next_style, style_id: p0.style_id, paragraph_alignment: p0.paragraph_alignment, paragraph_space_before: p0.paragraph_space_before, paragraph_space_after: p0.paragraph_space_after, paragraph_line_spacing_exact: p0.paragraph_line_spacing_exact, language_code: p0.language_code, math_formatting: p0.math_formatting, hyperlink: p0.hyperlink}

