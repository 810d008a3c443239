## crate::one::property::note_tag_shape::NoteTagShape::is_checkable
=> if is6(p0): true
else if is73(p0): true
else if is95(p0): true
else if is30(p0): true
else if is89(p0): true
else if is8(p0): true
else if is96(p0): true
else if is28(p0): true
else if is52(p0): true
else if is3(p0): true
else if is97(p0): true
else if is98(p0): true
else if is4(p0): true
else if is48(p0): true
else if is50(p0): true
else if is69(p0): true
else if is90(p0): true
else if is2(p0): true
else if is99(p0): true
else if is1(p0): true
else if is32(p0): true
else if is71(p0): true
else if is93(p0): true
else if is92(p0): true
else if is9(p0): true
else if is94(p0): true
else if is5(p0): true
else if is91(p0): true
else if is7(p0): true
else if is10(p0): true
else if is12(p0): true
else is11(p0)

## crate::one::property::note_tag_shape::NoteTagShape::parse
$1 = if (p0 == 101): NoteTagShape::YellowSquare
  else if (p0 == 53): NoteTagShape::GreenCircle3
  else if (p0 == 120): NoteTagShape::CalendarDateWithClock
  else if (p0 == 83): NoteTagShape::YellowTarget
  else if (p0 == 67): NoteTagShape::GreenXWithDots
  else if (p0 == 54): NoteTagShape::GreenEightPointStar
  else if (p0 == 8): NoteTagShape::YellowExclamationCheckBox
  else if (p0 == 37): NoteTagShape::BlueDownArrow
  else if (p0 == 105): NoteTagShape::PinkSquare
  else if (p0 == 97): NoteTagShape::BlueFlagCheckBox
  else if (p0 == 71): NoteTagShape::YellowCheckBox2
  else if (p0 == 93): NoteTagShape::NoFollowUpDateFlag
  else if (p0 == 19): NoteTagShape::Meeting
  else if (p0 == 4): NoteTagShape::GreenStarCheckBox
  else if (p0 == 123): NoteTagShape::QuotationMark
  else if (p0 == 11): NoteTagShape::YellowRightArrowCheckBox
  else if (p0 == 119): NoteTagShape::RoseOnAStem
  else if (p0 == 95): NoteTagShape::YellowPersonCheckBox
  else if (p0 == 113): NoteTagShape::FrowningFace
  else if (p0 == 98): NoteTagShape::RedFlagCheckBox
  else if (p0 == 74): NoteTagShape::YellowCircle3
  else if (p0 == 46): NoteTagShape::BlueXWithDots
  else if (p0 == 23): NoteTagShape::Home
  else if (p0 == 2): NoteTagShape::YellowCheckBox
  else if (p0 == 68): NoteTagShape::GreenX
  else if (p0 == 109): NoteTagShape::MobilePhone
  else if (p0 == 72): NoteTagShape::YellowCircle2
  else if (p0 == 88): NoteTagShape::YellowX
  else if (p0 == 10): NoteTagShape::GreenRightArrowCheckBox
  else if (p0 == 13): NoteTagShape::YellowStar
  else if (p0 == 85): NoteTagShape::YellowUmbrella
  else if (p0 == 32): NoteTagShape::BlueCheckBox3
  else if (p0 == 58): NoteTagShape::GreenLeftArrow
  else if (p0 == 92): NoteTagShape::FollowUpNextWeekFlag
  else if (p0 == 116): NoteTagShape::TwoPeople
  else if (p0 == 18): NoteTagShape::ContactInformation
  else if (p0 == 86): NoteTagShape::YellowUpArrow
  else if (p0 == 42): NoteTagShape::BlueTarget
  else if (p0 == 49): NoteTagShape::GreenCircle1
  else if (p0 == 62): NoteTagShape::GreenSun
  else if (p0 == 60): NoteTagShape::GreenSolidArrow
  else if (p0 == 20): NoteTagShape::TimeSensitive
  else if (p0 == 117): NoteTagShape::ReminderBell
  else if (p0 == 33): NoteTagShape::BlueCircle3
  else if (p0 == 134): NoteTagShape::BlankPaperWithLines
  else if (p0 == 14): NoteTagShape::BlueFollowUpFlag
  else if (p0 == 57): NoteTagShape::GreenDownArrow
  else if (p0 == 15): NoteTagShape::QuestionMark
  else if (p0 == 96): NoteTagShape::GreenPersonCheckBox
  else if (p0 == 137): NoteTagShape::DollarSign
  else if (p0 == 43): NoteTagShape::BlueTriangle
  else if (p0 == 87): NoteTagShape::YellowXWithDots
  else if (p0 == 38): NoteTagShape::BlueLeftArrow
  else if (p0 == 129): NoteTagShape::Binoculars
  else if (p0 == 63): NoteTagShape::GreenTarget
  else if (p0 == 121): NoteTagShape::MusicalNote
  else if (p0 == 45): NoteTagShape::BlueUpArrow
  else if (p0 == 130): NoteTagShape::PresentationSlide
  else if (p0 == 131): NoteTagShape::Padlock
  else if (p0 == 139): NoteTagShape::ScheduledTask
  else if (p0 == 0): NoteTagShape::NoIcon
  else if (p0 == 52): NoteTagShape::GreenCheckBox3
  else if (p0 == 110): NoteTagShape::TelephoneWithClock
  else if (p0 == 50): NoteTagShape::GreenCheckBox2
  else if (p0 == 48): NoteTagShape::GreenCheckBox1
  else if (p0 == 5): NoteTagShape::YellowStarCheckBox
  else if (p0 == 78): NoteTagShape::YellowDownArrow
  else if (p0 == 82): NoteTagShape::YellowSun
  else if (p0 == 59): NoteTagShape::GreenRightArrow
  else if (p0 == 141): NoteTagShape::Cloud
  else if (p0 == 56): NoteTagShape::GreenCircle
  else if (p0 == 36): NoteTagShape::BlueCircle
  else if (p0 == 40): NoteTagShape::BlueStar
  else if (p0 == 125): NoteTagShape::HyperlinkGlobe
  else if (p0 == 143): NoteTagShape::Sunflower
  else if (p0 == 44): NoteTagShape::BlueUmbrella
  else if (p0 == 69): NoteTagShape::YellowCheckBox1
  else if (p0 == 35): NoteTagShape::BlueCheckMark
  else if (p0 == 140): NoteTagShape::LightningBolt
  else if (p0 == 91): NoteTagShape::FollowUpThisWeekFlag
  else if (p0 == 126): NoteTagShape::Laptop
  else if (p0 == 17): NoteTagShape::HighPriority
  else if (p0 == 135): NoteTagShape::Research
  else if (p0 == 138): NoteTagShape::CoinsWithAWindowBackdrop
  else if (p0 == 81): NoteTagShape::YellowSolidTarget
  else if (p0 == 7): NoteTagShape::GreenExclamationCheckBox
  else if (p0 == 90): NoteTagShape::FollowUpTomorrowFlag
  else if (p0 == 118): NoteTagShape::Contact
  else if (p0 == 26): NoteTagShape::AwardRibbon
  else if (p0 == 84): NoteTagShape::YellowTriangle
  else if (p0 == 41): NoteTagShape::BlueSun
  else if (p0 == 22): NoteTagShape::Pushpin
  else if (p0 == 94): NoteTagShape::BluePersonCheckBox
  else if (p0 == 47): NoteTagShape::BlueX
  else if (p0 == 79): NoteTagShape::YellowLeftArrow
  else if (p0 == 31): NoteTagShape::BlueCircle2
  else if (p0 == 136): NoteTagShape::Pen
  else if (p0 == 25): NoteTagShape::SmilingFace
  else if (p0 == 1): NoteTagShape::GreenCheckBox
  else if (p0 == 64): NoteTagShape::GreenTriangle
  else if (p0 == 107): NoteTagShape::ClosedEnvelope
  else if (p0 == 77): NoteTagShape::YellowCircle
  else if (p0 == 55): NoteTagShape::GreenCheckMark
  else if (p0 == 3): NoteTagShape::BlueCheckBox
  else if (p0 == 104): NoteTagShape::OrangeSquare
  else if (p0 == 61): NoteTagShape::GreenStar
  else if (p0 == 29): NoteTagShape::BlueCircle1
  else if (p0 == 122): NoteTagShape::MovieClip
  else if (p0 == 142): NoteTagShape::Heart
  else if (p0 == 128): NoteTagShape::Car
  else if (p0 == 133): NoteTagShape::NotebookWithClock
  else if (p0 == 114): NoteTagShape::InstantMessagingContactPerson
  else if (p0 == 102): NoteTagShape::BlueSquare
  else if (p0 == 100): NoteTagShape::RedSquare
  else if (p0 == 73): NoteTagShape::YellowCheckBox3
  else if (p0 == 99): NoteTagShape::GreenFlagCheckBox
  else if (p0 == 24): NoteTagShape::CommentBubble
  else if (p0 == 12): NoteTagShape::BlueRightArrowCheckBox
  else if (p0 == 108): NoteTagShape::OpenEnvelope
  else if (p0 == 9): NoteTagShape::BlueExclamationCheckBox
  else if (p0 == 112): NoteTagShape::PaperClip
  else if (p0 == 28): NoteTagShape::BlueCheckBox1
  else if (p0 == 127): NoteTagShape::Plane
  else if (p0 == 27): NoteTagShape::YellowKey
  else if (p0 == 30): NoteTagShape::BlueCheckBox2
  else if (p0 == 76): NoteTagShape::YellowCheckMark
  else if (p0 == 103): NoteTagShape::GreenSquare
  else if (p0 == 65): NoteTagShape::GreenUmbrella
  else if (p0 == 21): NoteTagShape::LightBulb
  else if (p0 == 124): NoteTagShape::Globe
  else if (p0 == 75): NoteTagShape::YellowEightPointStar
  else if (p0 == 132): NoteTagShape::OpenBook
  else if (p0 == 39): NoteTagShape::BlueSolidTarget
  else if (p0 == 70): NoteTagShape::YellowCircle1
  else if (p0 == 80): NoteTagShape::YellowRightArrow
  else if (p0 == 51): NoteTagShape::GreenCircle2
  else if (p0 == 111): NoteTagShape::QuestionBalloon
  else if (p0 == 66): NoteTagShape::GreenUpArrow
  else if (p0 == 89): NoteTagShape::FollowUpTodayFlag
  else if (p0 == 34): NoteTagShape::BlueEightPointStar
  else if (p0 == 16): NoteTagShape::BlueRightArrow
  else if (p0 == 115): NoteTagShape::PersonWithExclamationMark
  else if (p0 == 106): NoteTagShape::EMailMessage
  else NoteTagShape::BlueStarCheckBox
=> if (p0 == 101): Ok($1)
else if (p0 == 53): Ok($1)
else if (p0 == 120): Ok($1)
else if (p0 == 83): Ok($1)
else if (p0 == 67): Ok($1)
else if (p0 == 54): Ok($1)
else if (p0 == 8): Ok($1)
else if (p0 == 37): Ok($1)
else if (p0 == 105): Ok($1)
else if (p0 == 97): Ok($1)
else if (p0 == 71): Ok($1)
else if (p0 == 93): Ok($1)
else if (p0 == 19): Ok($1)
else if (p0 == 4): Ok($1)
else if (p0 == 123): Ok($1)
else if (p0 == 11): Ok($1)
else if (p0 == 119): Ok($1)
else if (p0 == 95): Ok($1)
else if (p0 == 113): Ok($1)
else if (p0 == 98): Ok($1)
else if (p0 == 74): Ok($1)
else if (p0 == 46): Ok($1)
else if (p0 == 23): Ok($1)
else if (p0 == 2): Ok($1)
else if (p0 == 68): Ok($1)
else if (p0 == 109): Ok($1)
else if (p0 == 72): Ok($1)
else if (p0 == 88): Ok($1)
else if (p0 == 10): Ok($1)
else if (p0 == 13): Ok($1)
else if (p0 == 85): Ok($1)
else if (p0 == 32): Ok($1)
else if (p0 == 58): Ok($1)
else if (p0 == 92): Ok($1)
else if (p0 == 116): Ok($1)
else if (p0 == 18): Ok($1)
else if (p0 == 86): Ok($1)
else if (p0 == 42): Ok($1)
else if (p0 == 49): Ok($1)
else if (p0 == 62): Ok($1)
else if (p0 == 60): Ok($1)
else if (p0 == 20): Ok($1)
else if (p0 == 117): Ok($1)
else if (p0 == 33): Ok($1)
else if (p0 == 134): Ok($1)
else if (p0 == 14): Ok($1)
else if (p0 == 57): Ok($1)
else if (p0 == 15): Ok($1)
else if (p0 == 96): Ok($1)
else if (p0 == 137): Ok($1)
else if (p0 == 43): Ok($1)
else if (p0 == 87): Ok($1)
else if (p0 == 38): Ok($1)
else if (p0 == 129): Ok($1)
else if (p0 == 63): Ok($1)
else if (p0 == 121): Ok($1)
else if (p0 == 45): Ok($1)
else if (p0 == 130): Ok($1)
else if (p0 == 131): Ok($1)
else if (p0 == 139): Ok($1)
else if (p0 == 0): Ok($1)
else if (p0 == 52): Ok($1)
else if (p0 == 110): Ok($1)
else if (p0 == 50): Ok($1)
else if (p0 == 48): Ok($1)
else if (p0 == 5): Ok($1)
else if (p0 == 78): Ok($1)
else if (p0 == 82): Ok($1)
else if (p0 == 59): Ok($1)
else if (p0 == 141): Ok($1)
else if (p0 == 56): Ok($1)
else if (p0 == 36): Ok($1)
else if (p0 == 40): Ok($1)
else if (p0 == 125): Ok($1)
else if (p0 == 143): Ok($1)
else if (p0 == 44): Ok($1)
else if (p0 == 69): Ok($1)
else if (p0 == 35): Ok($1)
else if (p0 == 140): Ok($1)
else if (p0 == 91): Ok($1)
else if (p0 == 126): Ok($1)
else if (p0 == 17): Ok($1)
else if (p0 == 135): Ok($1)
else if (p0 == 138): Ok($1)
else if (p0 == 81): Ok($1)
else if (p0 == 7): Ok($1)
else if (p0 == 90): Ok($1)
else if (p0 == 118): Ok($1)
else if (p0 == 26): Ok($1)
else if (p0 == 84): Ok($1)
else if (p0 == 41): Ok($1)
else if (p0 == 22): Ok($1)
else if (p0 == 94): Ok($1)
else if (p0 == 47): Ok($1)
else if (p0 == 79): Ok($1)
else if (p0 == 31): Ok($1)
else if (p0 == 136): Ok($1)
else if (p0 == 25): Ok($1)
else if (p0 == 1): Ok($1)
else if (p0 == 64): Ok($1)
else if (p0 == 107): Ok($1)
else if (p0 == 77): Ok($1)
else if (p0 == 55): Ok($1)
else if (p0 == 3): Ok($1)
else if (p0 == 104): Ok($1)
else if (p0 == 61): Ok($1)
else if (p0 == 29): Ok($1)
else if (p0 == 122): Ok($1)
else if (p0 == 142): Ok($1)
else if (p0 == 128): Ok($1)
else if (p0 == 133): Ok($1)
else if (p0 == 114): Ok($1)
else if (p0 == 102): Ok($1)
else if (p0 == 100): Ok($1)
else if (p0 == 73): Ok($1)
else if (p0 == 99): Ok($1)
else if (p0 == 24): Ok($1)
else if (p0 == 12): Ok($1)
else if (p0 == 108): Ok($1)
else if (p0 == 9): Ok($1)
else if (p0 == 112): Ok($1)
else if (p0 == 28): Ok($1)
else if (p0 == 127): Ok($1)
else if (p0 == 27): Ok($1)
else if (p0 == 30): Ok($1)
else if (p0 == 76): Ok($1)
else if (p0 == 103): Ok($1)
else if (p0 == 65): Ok($1)
else if (p0 == 21): Ok($1)
else if (p0 == 124): Ok($1)
else if (p0 == 75): Ok($1)
else if (p0 == 132): Ok($1)
else if (p0 == 39): Ok($1)
else if (p0 == 70): Ok($1)
else if (p0 == 80): Ok($1)
else if (p0 == 51): Ok($1)
else if (p0 == 111): Ok($1)
else if (p0 == 66): Ok($1)
else if (p0 == 89): Ok($1)
else if (p0 == 34): Ok($1)
else if (p0 == 16): Ok($1)
else if (p0 == 115): Ok($1)
else if (p0 == 106): Ok($1)
else if !(p0 == 6): Err(E)
else Ok($1)

