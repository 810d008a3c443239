## crate::<errors::Error as std::convert::From<errors::ErrorKind>>::from
=> Error{kind: p0}

## crate::<errors::Error as std::convert::From<std::io::Error>>::from
$1 = <errors::Error as std::convert::From<errors::ErrorKind>>::from(ErrorKind::IO{err: p0})
=> $1

## crate::<errors::Error as std::convert::From<uuid::Error>>::from
$1 = <errors::Error as std::convert::From<errors::ErrorKind>>::from(ErrorKind::InvalidUuid{err: p0})
=> $1

## crate::<errors::Error as std::convert::From<widestring::error::MissingNulTerminator>>::from
$1 = <errors::Error as std::convert::From<errors::ErrorKind>>::from(ErrorKind::Utf16MissingNull{err: p0})
=> $1

## crate::<errors::Error as std::convert::From<widestring::error::Utf16Error>>::from
$1 = <errors::Error as std::convert::From<errors::ErrorKind>>::from(ErrorKind::Utf16Error{err: p0})
=> $1

