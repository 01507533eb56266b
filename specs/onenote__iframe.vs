#prelude
use crate::ext::{os, ov};
use crate::onestore::object_space::{has_o, ob};
use crate::onestore::object::Object;
use crate::one::property_set::iframe_node as nd;
pub open spec fn iframe_ok(id: ExGuid, s: ObjectSpace) -> bool { has_o(s, id) && nd::good(ob(s, id)) }
/// the embedded frame stored under an id
pub open spec fn iframe_is(v: IFrame, id: ExGuid, s: ObjectSpace) -> bool { iframe_ok(id, s) && exists|d: nd::Data| #[trigger] nd::data_is(d, ob(s, id)) && v.embed_type == d.embed_type && v.source_url@ == d.source_url@ }
#fn parse_iframe
ensures match r { Ok(v) => iframe_is(v, iframe_id, *space), Err(_) => !iframe_ok(iframe_id, *space) }
#fn IFrame::embed_type
ensures r == self.embed_type
#fn IFrame::source_url
ensures r@ == self.source_url@
