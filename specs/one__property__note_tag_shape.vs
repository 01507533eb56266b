#prelude
/// [MS-ONE] 2.3.86
pub open spec fn shape_of(v: u16) -> Option<NoteTagShape> {
    if v == 0 { Some(NoteTagShape::NoIcon) } else if v == 1 { Some(NoteTagShape::GreenCheckBox) } else if v == 2 { Some(NoteTagShape::YellowCheckBox) } else if v == 3 { Some(NoteTagShape::BlueCheckBox) } else if v == 4 { Some(NoteTagShape::GreenStarCheckBox) } else if v == 5 { Some(NoteTagShape::YellowStarCheckBox) } else if v == 6 { Some(NoteTagShape::BlueStarCheckBox) } else if v == 7 { Some(NoteTagShape::GreenExclamationCheckBox) } else if v == 8 { Some(NoteTagShape::YellowExclamationCheckBox) } else if v == 9 { Some(NoteTagShape::BlueExclamationCheckBox) } else if v == 10 { Some(NoteTagShape::GreenRightArrowCheckBox) } else if v == 11 { Some(NoteTagShape::YellowRightArrowCheckBox) } else if v == 12 { Some(NoteTagShape::BlueRightArrowCheckBox) } else if v == 13 { Some(NoteTagShape::YellowStar) } else if v == 14 { Some(NoteTagShape::BlueFollowUpFlag) } else if v == 15 { Some(NoteTagShape::QuestionMark) } else if v == 16 { Some(NoteTagShape::BlueRightArrow) } else if v == 17 { Some(NoteTagShape::HighPriority) } else if v == 18 { Some(NoteTagShape::ContactInformation) } else if v == 19 { Some(NoteTagShape::Meeting) } else if v == 20 { Some(NoteTagShape::TimeSensitive) } else if v == 21 { Some(NoteTagShape::LightBulb) } else if v == 22 { Some(NoteTagShape::Pushpin) } else if v == 23 { Some(NoteTagShape::Home) } else if v == 24 { Some(NoteTagShape::CommentBubble) } else if v == 25 { Some(NoteTagShape::SmilingFace) } else if v == 26 { Some(NoteTagShape::AwardRibbon) } else if v == 27 { Some(NoteTagShape::YellowKey) } else if v == 28 { Some(NoteTagShape::BlueCheckBox1) } else if v == 29 { Some(NoteTagShape::BlueCircle1) } else if v == 30 { Some(NoteTagShape::BlueCheckBox2) } else if v == 31 { Some(NoteTagShape::BlueCircle2) } else if v == 32 { Some(NoteTagShape::BlueCheckBox3) } else if v == 33 { Some(NoteTagShape::BlueCircle3) } else if v == 34 { Some(NoteTagShape::BlueEightPointStar) } else if v == 35 { Some(NoteTagShape::BlueCheckMark) } else if v == 36 { Some(NoteTagShape::BlueCircle) } else if v == 37 { Some(NoteTagShape::BlueDownArrow) } else if v == 38 { Some(NoteTagShape::BlueLeftArrow) } else if v == 39 { Some(NoteTagShape::BlueSolidTarget) } else if v == 40 { Some(NoteTagShape::BlueStar) } else if v == 41 { Some(NoteTagShape::BlueSun) } else if v == 42 { Some(NoteTagShape::BlueTarget) } else if v == 43 { Some(NoteTagShape::BlueTriangle) } else if v == 44 { Some(NoteTagShape::BlueUmbrella) } else if v == 45 { Some(NoteTagShape::BlueUpArrow) } else if v == 46 { Some(NoteTagShape::BlueXWithDots) } else if v == 47 { Some(NoteTagShape::BlueX) } else if v == 48 { Some(NoteTagShape::GreenCheckBox1) } else if v == 49 { Some(NoteTagShape::GreenCircle1) } else if v == 50 { Some(NoteTagShape::GreenCheckBox2) } else if v == 51 { Some(NoteTagShape::GreenCircle2) } else if v == 52 { Some(NoteTagShape::GreenCheckBox3) } else if v == 53 { Some(NoteTagShape::GreenCircle3) } else if v == 54 { Some(NoteTagShape::GreenEightPointStar) } else if v == 55 { Some(NoteTagShape::GreenCheckMark) } else if v == 56 { Some(NoteTagShape::GreenCircle) } else if v == 57 { Some(NoteTagShape::GreenDownArrow) } else if v == 58 { Some(NoteTagShape::GreenLeftArrow) } else if v == 59 { Some(NoteTagShape::GreenRightArrow) } else if v == 60 { Some(NoteTagShape::GreenSolidArrow) } else if v == 61 { Some(NoteTagShape::GreenStar) } else if v == 62 { Some(NoteTagShape::GreenSun) } else if v == 63 { Some(NoteTagShape::GreenTarget) } else if v == 64 { Some(NoteTagShape::GreenTriangle) } else if v == 65 { Some(NoteTagShape::GreenUmbrella) } else if v == 66 { Some(NoteTagShape::GreenUpArrow) } else if v == 67 { Some(NoteTagShape::GreenXWithDots) } else if v == 68 { Some(NoteTagShape::GreenX) } else if v == 69 { Some(NoteTagShape::YellowCheckBox1) } else if v == 70 { Some(NoteTagShape::YellowCircle1) } else if v == 71 { Some(NoteTagShape::YellowCheckBox2) } else if v == 72 { Some(NoteTagShape::YellowCircle2) } else if v == 73 { Some(NoteTagShape::YellowCheckBox3) } else if v == 74 { Some(NoteTagShape::YellowCircle3) } else if v == 75 { Some(NoteTagShape::YellowEightPointStar) } else if v == 76 { Some(NoteTagShape::YellowCheckMark) } else if v == 77 { Some(NoteTagShape::YellowCircle) } else if v == 78 { Some(NoteTagShape::YellowDownArrow) } else if v == 79 { Some(NoteTagShape::YellowLeftArrow) } else if v == 80 { Some(NoteTagShape::YellowRightArrow) } else if v == 81 { Some(NoteTagShape::YellowSolidTarget) } else if v == 82 { Some(NoteTagShape::YellowSun) } else if v == 83 { Some(NoteTagShape::YellowTarget) } else if v == 84 { Some(NoteTagShape::YellowTriangle) } else if v == 85 { Some(NoteTagShape::YellowUmbrella) } else if v == 86 { Some(NoteTagShape::YellowUpArrow) } else if v == 87 { Some(NoteTagShape::YellowXWithDots) } else if v == 88 { Some(NoteTagShape::YellowX) } else if v == 89 { Some(NoteTagShape::FollowUpTodayFlag) } else if v == 90 { Some(NoteTagShape::FollowUpTomorrowFlag) } else if v == 91 { Some(NoteTagShape::FollowUpThisWeekFlag) } else if v == 92 { Some(NoteTagShape::FollowUpNextWeekFlag) } else if v == 93 { Some(NoteTagShape::NoFollowUpDateFlag) } else if v == 94 { Some(NoteTagShape::BluePersonCheckBox) } else if v == 95 { Some(NoteTagShape::YellowPersonCheckBox) } else if v == 96 { Some(NoteTagShape::GreenPersonCheckBox) } else if v == 97 { Some(NoteTagShape::BlueFlagCheckBox) } else if v == 98 { Some(NoteTagShape::RedFlagCheckBox) } else if v == 99 { Some(NoteTagShape::GreenFlagCheckBox) } else if v == 100 { Some(NoteTagShape::RedSquare) } else if v == 101 { Some(NoteTagShape::YellowSquare) } else if v == 102 { Some(NoteTagShape::BlueSquare) } else if v == 103 { Some(NoteTagShape::GreenSquare) } else if v == 104 { Some(NoteTagShape::OrangeSquare) } else if v == 105 { Some(NoteTagShape::PinkSquare) } else if v == 106 { Some(NoteTagShape::EMailMessage) } else if v == 107 { Some(NoteTagShape::ClosedEnvelope) } else if v == 108 { Some(NoteTagShape::OpenEnvelope) } else if v == 109 { Some(NoteTagShape::MobilePhone) } else if v == 110 { Some(NoteTagShape::TelephoneWithClock) } else if v == 111 { Some(NoteTagShape::QuestionBalloon) } else if v == 112 { Some(NoteTagShape::PaperClip) } else if v == 113 { Some(NoteTagShape::FrowningFace) } else if v == 114 { Some(NoteTagShape::InstantMessagingContactPerson) } else if v == 115 { Some(NoteTagShape::PersonWithExclamationMark) } else if v == 116 { Some(NoteTagShape::TwoPeople) } else if v == 117 { Some(NoteTagShape::ReminderBell) } else if v == 118 { Some(NoteTagShape::Contact) } else if v == 119 { Some(NoteTagShape::RoseOnAStem) } else if v == 120 { Some(NoteTagShape::CalendarDateWithClock) } else if v == 121 { Some(NoteTagShape::MusicalNote) } else if v == 122 { Some(NoteTagShape::MovieClip) } else if v == 123 { Some(NoteTagShape::QuotationMark) } else if v == 124 { Some(NoteTagShape::Globe) } else if v == 125 { Some(NoteTagShape::HyperlinkGlobe) } else if v == 126 { Some(NoteTagShape::Laptop) } else if v == 127 { Some(NoteTagShape::Plane) } else if v == 128 { Some(NoteTagShape::Car) } else if v == 129 { Some(NoteTagShape::Binoculars) } else if v == 130 { Some(NoteTagShape::PresentationSlide) } else if v == 131 { Some(NoteTagShape::Padlock) } else if v == 132 { Some(NoteTagShape::OpenBook) } else if v == 133 { Some(NoteTagShape::NotebookWithClock) } else if v == 134 { Some(NoteTagShape::BlankPaperWithLines) } else if v == 135 { Some(NoteTagShape::Research) } else if v == 136 { Some(NoteTagShape::Pen) } else if v == 137 { Some(NoteTagShape::DollarSign) } else if v == 138 { Some(NoteTagShape::CoinsWithAWindowBackdrop) } else if v == 139 { Some(NoteTagShape::ScheduledTask) } else if v == 140 { Some(NoteTagShape::LightningBolt) } else if v == 141 { Some(NoteTagShape::Cloud) } else if v == 142 { Some(NoteTagShape::Heart) } else if v == 143 { Some(NoteTagShape::Sunflower) } else { None }
}
#fn NoteTagShape::parse
ensures match r { Ok(v) => shape_of(value) == Some(v), Err(_) => shape_of(value) is None }
#fn NoteTagShape::is_checkable
ensures r == (*self is GreenCheckBox || *self is YellowCheckBox || *self is BlueCheckBox || *self is GreenStarCheckBox || *self is YellowStarCheckBox || *self is BlueStarCheckBox || *self is GreenExclamationCheckBox || *self is YellowExclamationCheckBox || *self is BlueExclamationCheckBox || *self is GreenRightArrowCheckBox || *self is YellowRightArrowCheckBox || *self is BlueRightArrowCheckBox || *self is BlueCheckBox1 || *self is BlueCheckBox2 || *self is BlueCheckBox3 || *self is GreenCheckBox1 || *self is GreenCheckBox2 || *self is GreenCheckBox3 || *self is YellowCheckBox1 || *self is YellowCheckBox2 || *self is YellowCheckBox3 || *self is FollowUpTodayFlag || *self is FollowUpTomorrowFlag || *self is FollowUpThisWeekFlag || *self is FollowUpNextWeekFlag || *self is NoFollowUpDateFlag || *self is BluePersonCheckBox || *self is YellowPersonCheckBox || *self is GreenPersonCheckBox || *self is BlueFlagCheckBox || *self is RedFlagCheckBox || *self is GreenFlagCheckBox)
