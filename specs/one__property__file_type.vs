#prelude
use crate::onestore::types::property::PropertyValue;
use crate::one::property::simple::*;
pub open spec fn p_file_type(o: Object) -> Option<FileType> {
    match p_u32(o, PropertyType::IRecordMedia) { None => None, Some(None) => Some(FileType::Unknown), Some(Some(v)) => if v == 1 { Some(FileType::Audio) } else if v == 2 { Some(FileType::Video) } else { None } }
}
#fn FileType::parse
ensures match r { Ok(v) => p_file_type(*object) == Some(v), Err(_) => p_file_type(*object) is None }
