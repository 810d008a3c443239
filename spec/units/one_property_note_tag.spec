## crate::one::property::note_tag::ActionItemStatus::completed
=> p0.completed

## crate::one::property::note_tag::ActionItemStatus::disabled
=> p0.disabled

## crate::one::property::note_tag::ActionItemStatus::parse
$1 = onestore::object::Object::props(p0)
$2 = onestore::types::object_prop_set::ObjectPropSet::get($1, PropertyType::ActionItemStatus)
$3 = onestore::types::property::PropertyValue::to_u16($2.some)
$4 = if !(u8{$3.some[0:1]} == 0): true
  else false
$5 = if !(u8{$3.some[1:2]} == 0): true
  else false
$6 = if !(u8{$3.some[2:3]} == 0): true
  else false
=> if !is1($2): Ok(None)
else if !is1($3): Err(E)
else Ok(Some(ActionItemStatus{completed: $4, disabled: $5, task_tag: $6}))

## crate::one::property::note_tag::ActionItemStatus::task_tag
=> p0.task_tag

## crate::one::property::note_tag::ActionItemType::parse
$1 = onestore::object::Object::props(p0)
$2 = onestore::types::object_prop_set::ObjectPropSet::get($1, PropertyType::ActionItemType)
$3 = onestore::types::property::PropertyValue::to_u16($2.some)
$4 = if ($3.some == 105): ActionItemType::CustomDueDate
  else if ($3.some == 104): ActionItemType::NoDueDate
  else if ($3.some == 102): ActionItemType::DueThisWeek
  else if ($3.some < 100): ActionItemType::Numeric($3.some)
  else if ($3.some == 100): ActionItemType::DueToday
  else if ($3.some == 101): ActionItemType::DueTomorrow
  else if !($3.some == 103): ActionItemType::Unknown
  else ActionItemType::DueNextWeek
=> if !is1($2): Ok(None)
else if !is1($3): Err(E)
else Ok(Some($4))

