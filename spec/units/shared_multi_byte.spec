## crate::shared::multi_byte::decode
$1 = shared::multi_byte::decode_uint(p0)
$2 = range[0, u64{$1.ok.0[1:64]}]
$3 = shared::multi_byte::decode_uint(sub2[p0, lvb[1, 0], len[p0]])
$4 = if !(lvb[1, 0] < len[p0]): true
  else if ovf[Add, usize, lvb[1, 0], $3.ok.1]: true
  else is1($3)
$5 = lp[1, $2, ($1.ok.1), ((lvb[1, 0] +.usize $3.ok.1)), (), $4]
$6 = ldone[$5]
$7 = shared::multi_byte::decode_uint(sub2[p0, lvb[1, 1], len[p0]])
$8 = if !(lvb[1, 1] < len[p0]): true
  else if ovf[Add, usize, lvb[1, 1], $7.ok.1]: true
  else is1($7)
$9 = lp[1, $2, (vecnil, $1.ok.1), (push[lvb[1, 0], $7.ok.0], (lvb[1, 1] +.usize $7.ok.1)), (), $8]
=> if is1($1): Err(E)
else if !$6: Err(E)
else Ok(lpv[$9, done, lvb[1, 0]])

## crate::shared::multi_byte::decode_signed
$1 = shared::multi_byte::decode(p0)
$2 = if (u8{elb[1][0:1]} == 0): (u64{elb[1][1:64]} as i64)
  else un[Neg, i64, (u64{elb[1][1:64]} as i64)]
=> if is1($1): Err(E)
else Ok(gen[$1.ok, true, $2, 1])

## crate::shared::multi_byte::decode_uint
$1 = ((7 *.usize elb[1].0) < 64)
$2 = (u64{elb[1].1[0:7]} <<.u64 (7 *.usize elb[1].0))
$3 = (u64{elb[1].1[0:7]} == ($2 >>.u64 (7 *.usize elb[1].0)))
$4 = if (elb[1].0 == 10): false
  else if !(u8{elb[1].1[7:8]} == 0): false
  else if !$1: false
  else $3
$5 = if (elb[1].0 == 10): true
  else if !$1: true
  else if !$3: true
  else false
$6 = lp[1, enum[p0], (), (), ($4), $5]
$7 = ldone[$6]
$8 = lexit[$6, $4]
$9 = lp[1, enum[p0], (0), ((lvb[1, 0] |.u64 $2)), ($4), $5]
$10 = lpv[$6, $4, elb[1].0]
$11 = (7 *.usize $10)
$12 = (lpv[$6, $4, u64{elb[1].1[0:7]}] <<.u64 $11)
$13 = (lpv[$9, $4, lvb[1, 0]] |.u64 $12)
$14 = (1 +.usize $10)
=> if !$7: Err(E)
else if !$8: Err(E)
else Ok(($13, $14))

