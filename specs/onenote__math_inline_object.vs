#prelude
use crate::onestore::object::Object;
use crate::one::property_set::math_inline_object as md;
use crate::ext::opt_or;
pub open spec fn type_of(d: md::Data) -> Option<MathObjectType> { MathObjectType::vx_of(opt_or(d.object_type, 0) as int) }
pub open spec fn math_from(v: MathInlineObject, d: md::Data) -> bool {
    type_of(d) == Some(v.object_type) && v.arg_count == opt_or(d.arg_count, 0) && v.column == d.column && v.align == d.align && v.char == d.char && v.char1 == d.char1 && v.char2 == d.char2
}
/// the formula stored in an object
pub open spec fn math_is(v: MathInlineObject, o: Object) -> bool { md::good(o) && exists|d: md::Data| #[trigger] md::data_is(d, o) && math_from(v, d) }
pub open spec fn math_bad(o: Object) -> bool { !md::good(o) || exists|d: md::Data| #[trigger] md::data_is(d, o) && type_of(d) is None }
/// the codes the formats define
pub proof fn pin_MathObjectType() ensures
    MathObjectType::SimpleText.vx_disc() == 0,
    MathObjectType::Accent.vx_disc() == 10,
    MathObjectType::Box.vx_disc() == 11,
    MathObjectType::BoxedFormula.vx_disc() == 12,
    MathObjectType::Brackets.vx_disc() == 13,
    MathObjectType::BracketsWithSeps.vx_disc() == 14,
    MathObjectType::EquationArray.vx_disc() == 15,
    MathObjectType::Fraction.vx_disc() == 16,
    MathObjectType::FunctionApply.vx_disc() == 17,
    MathObjectType::LeftSubSup.vx_disc() == 18,
    MathObjectType::LowerLimit.vx_disc() == 19,
    MathObjectType::Matrix.vx_disc() == 20,
    MathObjectType::Nary.vx_disc() == 21,
    MathObjectType::OpChar.vx_disc() == 22,
    MathObjectType::Overbar.vx_disc() == 23,
    MathObjectType::Phantom.vx_disc() == 24,
    MathObjectType::Radical.vx_disc() == 25,
    MathObjectType::SlashedFraction.vx_disc() == 26,
    MathObjectType::Stack.vx_disc() == 27,
    MathObjectType::StretchStack.vx_disc() == 28,
    MathObjectType::Subscript.vx_disc() == 29,
    MathObjectType::SubSup.vx_disc() == 30,
    MathObjectType::Superscript.vx_disc() == 31,
    MathObjectType::Underbar.vx_disc() == 32,
    MathObjectType::UpperLimit.vx_disc() == 33,
    MathObjectType::PlainText.vx_disc() == 0x90000000,
{}
#fn parse_math_inline_object
ensures match r { Ok(v) => math_from(v, data), Err(_) => type_of(data) is None }
#fn MathInlineObject::object_type
ensures r == self.object_type
#fn MathInlineObject::arg_count
ensures r == self.arg_count
#fn MathInlineObject::column
ensures r == self.column
#fn MathInlineObject::align
ensures r == self.align
#fn MathInlineObject::char
ensures r == self.char
#fn MathInlineObject::char1
ensures r == self.char1
#fn MathInlineObject::char2
ensures r == self.char2
