## crate::reader::Reader::<'a>::advance
$1 = reader::Reader::remaining(*p0)
=> if !($1 < p1): Ok(unit)
else Err(E)
state p0: => upd[*p0, (None, 0), sub2[*p0.0, p1, len[*p0.0]]]

## crate::reader::Reader::<'a>::bytes
=> p0.0

## crate::reader::Reader::<'a>::get_f32
=> if (len[*p0.0] < 4): Err(E)
else Ok(fbits[f32, u32{idx[*p0.0, 0][0:8]|idx[*p0.0, 1][0:8]<<8|idx[*p0.0, 2][0:8]<<16|idx[*p0.0, 3][0:8]<<24}])
state p0: => upd[*p0, (None, 0), sub2[*p0.0, 4, len[*p0.0]]]

## crate::reader::Reader::<'a>::get_u128
$1 = u128{idx[*p0.0, 0][0:8]|idx[*p0.0, 1][0:8]<<8|idx[*p0.0, 2][0:8]<<16|idx[*p0.0, 3][0:8]<<24|idx[*p0.0, 4][0:8]<<32|idx[*p0.0, 5][0:8]<<40|idx[*p0.0, 6][0:8]<<48|idx[*p0.0, 7][0:8]<<56|idx[*p0.0, 8][0:8]<<64|idx[*p0.0, 9][0:8]<<72|idx[*p0.0, 10][0:8]<<80|idx[*p0.0, 11][0:8]<<88|idx[*p0.0, 12][0:8]<<96|idx[*p0.0, 13][0:8]<<104|idx[*p0.0, 14][0:8]<<112|idx[*p0.0, 15][0:8]<<120}
=> if (len[*p0.0] < 16): Err(E)
else Ok($1)
state p0: => upd[*p0, (None, 0), sub2[*p0.0, 16, len[*p0.0]]]

## crate::reader::Reader::<'a>::get_u16
=> if (len[*p0.0] < 2): Err(E)
else Ok(u16{idx[*p0.0, 0][0:8]|idx[*p0.0, 1][0:8]<<8})
state p0: => upd[*p0, (None, 0), sub2[*p0.0, 2, len[*p0.0]]]

## crate::reader::Reader::<'a>::get_u32
=> if (len[*p0.0] < 4): Err(E)
else Ok(u32{idx[*p0.0, 0][0:8]|idx[*p0.0, 1][0:8]<<8|idx[*p0.0, 2][0:8]<<16|idx[*p0.0, 3][0:8]<<24})
state p0: => upd[*p0, (None, 0), sub2[*p0.0, 4, len[*p0.0]]]

## crate::reader::Reader::<'a>::get_u64
=> if (len[*p0.0] < 8): Err(E)
else Ok(u64{idx[*p0.0, 0][0:8]|idx[*p0.0, 1][0:8]<<8|idx[*p0.0, 2][0:8]<<16|idx[*p0.0, 3][0:8]<<24|idx[*p0.0, 4][0:8]<<32|idx[*p0.0, 5][0:8]<<40|idx[*p0.0, 6][0:8]<<48|idx[*p0.0, 7][0:8]<<56})
state p0: => upd[*p0, (None, 0), sub2[*p0.0, 8, len[*p0.0]]]

## crate::reader::Reader::<'a>::get_u8
=> if (len[*p0.0] == 0): Err(E)
else Ok(idx[*p0.0, 0])
state p0: => upd[*p0, (None, 0), sub2[*p0.0, 1, len[*p0.0]]]

## crate::reader::Reader::<'a>::new
=> Reader(p0)

## crate::reader::Reader::<'a>::read
$1 = reader::Reader::remaining(*p0)
=> if ($1 < p1): Err(E)
else Ok(sub2[*p0.0, 0, p1])
state p0: => upd[*p0, (None, 0), sub2[*p0.0, p1, len[*p0.0]]]

## crate::reader::Reader::<'a>::remaining
=> len[p0.0]

