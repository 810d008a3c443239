## crate::onenote::math_inline_object::MathInlineObject::align
=> p0.align

## crate::onenote::math_inline_object::MathInlineObject::arg_count
=> p0.arg_count

## crate::onenote::math_inline_object::MathInlineObject::char
=> p0.char

## crate::onenote::math_inline_object::MathInlineObject::char1
=> p0.char1

## crate::onenote::math_inline_object::MathInlineObject::char2
=> p0.char2

## crate::onenote::math_inline_object::MathInlineObject::column
=> p0.column

## crate::onenote::math_inline_object::MathInlineObject::object_type
=> p0.object_type

## crate::onenote::math_inline_object::parse_math_inline_object
$1 = (p0.object_type.some == 2415919104)
$2 = (p0.object_type.some == 23)
$3 = (p0.object_type.some == 11)
$4 = (p0.object_type.some == 18)
$5 = (p0.object_type.some == 22)
$6 = (p0.object_type.some == 20)
$7 = (p0.object_type.some == 26)
$8 = (p0.object_type.some == 19)
$9 = (p0.object_type.some == 0)
$10 = (p0.object_type.some == 15)
$11 = (p0.object_type.some == 21)
$12 = (p0.object_type.some == 32)
$13 = (p0.object_type.some == 30)
$14 = (p0.object_type.some == 25)
$15 = (p0.object_type.some == 27)
$16 = (p0.object_type.some == 16)
$17 = (p0.object_type.some == 13)
$18 = (p0.object_type.some == 10)
$19 = (p0.object_type.some == 17)
$20 = (p0.object_type.some == 14)
$21 = (p0.object_type.some == 24)
$22 = (p0.object_type.some == 29)
$23 = (p0.object_type.some == 12)
$24 = (p0.object_type.some == 28)
$25 = (p0.object_type.some == 33)
$26 = (p0.object_type.some == 31)
$27 = if $1: 
    if !is1(p0.object_type): MathObjectType::SimpleText
    else MathObjectType::PlainText
  else if $2: 
    if !is1(p0.object_type): MathObjectType::SimpleText
    else MathObjectType::Overbar
  else if $3: 
    if !is1(p0.object_type): MathObjectType::SimpleText
    else MathObjectType::Box
  else if $4: 
    if !is1(p0.object_type): MathObjectType::SimpleText
    else MathObjectType::LeftSubSup
  else if $5: 
    if !is1(p0.object_type): MathObjectType::SimpleText
    else MathObjectType::OpChar
  else if $6: 
    if !is1(p0.object_type): MathObjectType::SimpleText
    else MathObjectType::Matrix
  else if $7: 
    if !is1(p0.object_type): MathObjectType::SimpleText
    else MathObjectType::SlashedFraction
  else if $8: 
    if !is1(p0.object_type): MathObjectType::SimpleText
    else MathObjectType::LowerLimit
  else if $9: MathObjectType::SimpleText
  else if $10: 
    if !is1(p0.object_type): MathObjectType::SimpleText
    else MathObjectType::EquationArray
  else if $11: 
    if !is1(p0.object_type): MathObjectType::SimpleText
    else MathObjectType::Nary
  else if $12: 
    if !is1(p0.object_type): MathObjectType::SimpleText
    else MathObjectType::Underbar
  else if $13: 
    if !is1(p0.object_type): MathObjectType::SimpleText
    else MathObjectType::SubSup
  else if $14: 
    if !is1(p0.object_type): MathObjectType::SimpleText
    else MathObjectType::Radical
  else if $15: 
    if !is1(p0.object_type): MathObjectType::SimpleText
    else MathObjectType::Stack
  else if $16: 
    if !is1(p0.object_type): MathObjectType::SimpleText
    else MathObjectType::Fraction
  else if $17: 
    if !is1(p0.object_type): MathObjectType::SimpleText
    else MathObjectType::Brackets
  else if $18: 
    if !is1(p0.object_type): MathObjectType::SimpleText
    else MathObjectType::Accent
  else if $19: 
    if !is1(p0.object_type): MathObjectType::SimpleText
    else MathObjectType::FunctionApply
  else if $20: 
    if !is1(p0.object_type): MathObjectType::SimpleText
    else MathObjectType::BracketsWithSeps
  else if $21: 
    if !is1(p0.object_type): MathObjectType::SimpleText
    else MathObjectType::Phantom
  else if $22: 
    if !is1(p0.object_type): MathObjectType::SimpleText
    else MathObjectType::Subscript
  else if $23: 
    if !is1(p0.object_type): MathObjectType::SimpleText
    else MathObjectType::BoxedFormula
  else if $24: 
    if !is1(p0.object_type): MathObjectType::SimpleText
    else MathObjectType::StretchStack
  else if $25: 
    if !is1(p0.object_type): MathObjectType::SimpleText
    else MathObjectType::UpperLimit
  else if !$26: MathObjectType::SimpleText
  else if !is1(p0.object_type): MathObjectType::SimpleText
  else MathObjectType::Superscript
$28 = if !is1(p0.arg_count): 0
  else p0.arg_count.some
=> if $1: Ok(MathInlineObject{object_type: $27, arg_count: $28, column: p0.column, align: p0.align, char: p0.char, char1: p0.char1, char2: p0.char2})
else if $2: Ok(MathInlineObject{object_type: $27, arg_count: $28, column: p0.column, align: p0.align, char: p0.char, char1: p0.char1, char2: p0.char2})
else if $3: Ok(MathInlineObject{object_type: $27, arg_count: $28, column: p0.column, align: p0.align, char: p0.char, char1: p0.char1, char2: p0.char2})
else if $4: Ok(MathInlineObject{object_type: $27, arg_count: $28, column: p0.column, align: p0.align, char: p0.char, char1: p0.char1, char2: p0.char2})
else if $5: Ok(MathInlineObject{object_type: $27, arg_count: $28, column: p0.column, align: p0.align, char: p0.char, char1: p0.char1, char2: p0.char2})
else if $6: Ok(MathInlineObject{object_type: $27, arg_count: $28, column: p0.column, align: p0.align, char: p0.char, char1: p0.char1, char2: p0.char2})
else if $7: Ok(MathInlineObject{object_type: $27, arg_count: $28, column: p0.column, align: p0.align, char: p0.char, char1: p0.char1, char2: p0.char2})
else if $8: Ok(MathInlineObject{object_type: $27, arg_count: $28, column: p0.column, align: p0.align, char: p0.char, char1: p0.char1, char2: p0.char2})
else if $9: Ok(MathInlineObject{object_type: $27, arg_count: $28, column: p0.column, align: p0.align, char: p0.char, char1: p0.char1, char2: p0.char2})
else if $10: Ok(MathInlineObject{object_type: $27, arg_count: $28, column: p0.column, align: p0.align, char: p0.char, char1: p0.char1, char2: p0.char2})
else if $11: Ok(MathInlineObject{object_type: $27, arg_count: $28, column: p0.column, align: p0.align, char: p0.char, char1: p0.char1, char2: p0.char2})
else if $12: Ok(MathInlineObject{object_type: $27, arg_count: $28, column: p0.column, align: p0.align, char: p0.char, char1: p0.char1, char2: p0.char2})
else if $13: Ok(MathInlineObject{object_type: $27, arg_count: $28, column: p0.column, align: p0.align, char: p0.char, char1: p0.char1, char2: p0.char2})
else if $14: Ok(MathInlineObject{object_type: $27, arg_count: $28, column: p0.column, align: p0.align, char: p0.char, char1: p0.char1, char2: p0.char2})
else if $15: Ok(MathInlineObject{object_type: $27, arg_count: $28, column: p0.column, align: p0.align, char: p0.char, char1: p0.char1, char2: p0.char2})
else if $16: Ok(MathInlineObject{object_type: $27, arg_count: $28, column: p0.column, align: p0.align, char: p0.char, char1: p0.char1, char2: p0.char2})
else if $17: Ok(MathInlineObject{object_type: $27, arg_count: $28, column: p0.column, align: p0.align, char: p0.char, char1: p0.char1, char2: p0.char2})
else if $18: Ok(MathInlineObject{object_type: $27, arg_count: $28, column: p0.column, align: p0.align, char: p0.char, char1: p0.char1, char2: p0.char2})
else if $19: Ok(MathInlineObject{object_type: $27, arg_count: $28, column: p0.column, align: p0.align, char: p0.char, char1: p0.char1, char2: p0.char2})
else if $20: Ok(MathInlineObject{object_type: $27, arg_count: $28, column: p0.column, align: p0.align, char: p0.char, char1: p0.char1, char2: p0.char2})
else if $21: Ok(MathInlineObject{object_type: $27, arg_count: $28, column: p0.column, align: p0.align, char: p0.char, char1: p0.char1, char2: p0.char2})
else if $22: Ok(MathInlineObject{object_type: $27, arg_count: $28, column: p0.column, align: p0.align, char: p0.char, char1: p0.char1, char2: p0.char2})
else if $23: Ok(MathInlineObject{object_type: $27, arg_count: $28, column: p0.column, align: p0.align, char: p0.char, char1: p0.char1, char2: p0.char2})
else if $24: Ok(MathInlineObject{object_type: $27, arg_count: $28, column: p0.column, align: p0.align, char: p0.char, char1: p0.char1, char2: p0.char2})
else if $25: Ok(MathInlineObject{object_type: $27, arg_count: $28, column: p0.column, align: p0.align, char: p0.char, char1: p0.char1, char2: p0.char2})
else if $26: Ok(MathInlineObject{object_type: $27, arg_count: $28, column: p0.column, align: p0.align, char: p0.char, char1: p0.char1, char2: p0.char2})
else if is1(p0.object_type): Err(E)
else Ok(MathInlineObject{object_type: $27, arg_count: $28, column: p0.column, align: p0.align, char: p0.char, char1: p0.char1, char2: p0.char2})

