#prelude
use crate::onestore::types::property::PropertyValue;
use crate::one::property::simple::*;
#fn Author::parse
ensures match r { Ok(v) => p_string(*object, PropertyType::Author) == Some(match v { Some(a) => Some(a.0@), None => None }), Err(_) => p_string(*object, PropertyType::Author) is None }
#fn Author::into_value
ensures r == self.0
