#prelude
/// [MS-ONESTORE] 2.7.4: the roots of a revision
pub open spec fn role_of(id: ExGuid) -> Option<RevisionRole> {
    if id.guid != crate::shared::guid::Guid(crate::ext::uuid_lit(0x4A3717F8_1C14_49E7_9526_81D942DE1741)) { None }
    else if id.value == 1 { Some(RevisionRole::DefaultContent) } else if id.value == 2 { Some(RevisionRole::Metadata) }
    else if id.value == 3 { Some(RevisionRole::EncryptionKey) } else if id.value == 4 { Some(RevisionRole::VersionMetadata) } else { None }
}
#fn RevisionRole::parse
ensures match r { Ok(v) => role_of(id) == Some(v), Err(_) => role_of(id) is None }
