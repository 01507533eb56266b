#prelude
use crate::onestore::types::property::PropertyValue;
use crate::one::property::simple::*;
pub open spec fn time_of(v: u32) -> Option<Time> { Some(Time(v)) }
pub open spec fn timestamp_of(v: u64) -> Option<Timestamp> { Some(Timestamp(v)) }
pub open spec fn p_time(o: Object, t: PropertyType) -> Option<Option<Time>> { match p_u32(o, t) { None => None, Some(None) => Some(None), Some(Some(v)) => match time_of(v) { None => None, Some(x) => Some(Some(x)) } } }
pub open spec fn p_timestamp(o: Object, t: PropertyType) -> Option<Option<Timestamp>> { match p_u64(o, t) { None => None, Some(None) => Some(None), Some(Some(v)) => match timestamp_of(v) { None => None, Some(x) => Some(Some(x)) } } }
#fn Time::parse
ensures match r { Ok(v) => p_time(*object, prop_type) == Some(v), Err(_) => p_time(*object, prop_type) is None }
#fn Timestamp::parse
ensures match r { Ok(v) => p_timestamp(*object, prop_type) == Some(v), Err(_) => p_timestamp(*object, prop_type) is None }
