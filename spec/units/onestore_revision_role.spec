## crate::onestore::revision_role::RevisionRole::parse
$1 = shared::guid::Guid::from_str('4A3717F8-1C14-49E7-9526-81D942DE1741')
$2 = (p0.guid == $1.ok)
=> if (p0.value == 2): 
  if $2: Ok(RevisionRole::Metadata)
  else Err(E)
else if (p0.value == 3): 
  if $2: Ok(RevisionRole::EncryptionKey)
  else Err(E)
else if (p0.value == 1): 
  if $2: Ok(RevisionRole::DefaultContent)
  else Err(E)
else if !(p0.value == 4): Err(E)
else if $2: Ok(RevisionRole::VersionMetadata)
else Err(E)

