## crate::<&[u8] as utils::Utf16ToString>::utf16_to_string
$1 = widestring::U16CString::from_vec_truncate(gen[chunks_exact[p0, 2], true, u16{idx[elb[1], 0][0:8]|idx[elb[1], 1][0:8]<<8}, 1])
$2 = widestring::U16CStr::to_string($1)
=> $2

