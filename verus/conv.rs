// integer conversions between all the C++ integer widths (generated by hand from the wrap-around rule)
pub fn c_u8_i8(a: u8) -> (r: i8) ensures r == (if a as int % 0x100 < 0x80 { a as int % 0x100 } else { a as int % 0x100 - 0x100 }) { c_u64_i8(a as u64) }
pub fn c_u8_u16(a: u8) -> (r: u16) ensures r == a { a as u16 }
pub fn c_u8_i16(a: u8) -> (r: i16) ensures r == a { a as i16 }
pub fn c_u8_u32(a: u8) -> (r: u32) ensures r == a { a as u32 }
pub fn c_u8_u64(a: u8) -> (r: u64) ensures r == a { a as u64 }
pub fn c_u8_i64(a: u8) -> (r: i64) ensures r == a { a as i64 }
pub fn c_i8_u8(a: i8) -> (r: u8) ensures r == a as int % 0x100 { c_u64_u8(c_i64_u64(a as i64)) }
pub fn c_i8_u16(a: i8) -> (r: u16) ensures r == a as int % 0x10000 { c_u64_u16(c_i64_u64(a as i64)) }
pub fn c_i8_i16(a: i8) -> (r: i16) ensures r == a { a as i16 }
pub fn c_i8_u32(a: i8) -> (r: u32) ensures r == a as int % 0x100000000 { c_u64_u32(c_i64_u64(a as i64)) }
pub fn c_i8_u64(a: i8) -> (r: u64) ensures r == a as int % 0x10000000000000000 { c_i64_u64(a as i64) }
pub fn c_i8_i64(a: i8) -> (r: i64) ensures r == a { a as i64 }
pub fn c_u16_u8(a: u16) -> (r: u8) ensures r == a as int % 0x100 { c_u64_u8(a as u64) }
pub fn c_u16_i8(a: u16) -> (r: i8) ensures r == (if a as int % 0x100 < 0x80 { a as int % 0x100 } else { a as int % 0x100 - 0x100 }) { c_u64_i8(a as u64) }
pub fn c_u16_i16(a: u16) -> (r: i16) ensures r == (if a as int % 0x10000 < 0x8000 { a as int % 0x10000 } else { a as int % 0x10000 - 0x10000 }) { c_u64_i16(a as u64) }
pub fn c_u16_u32(a: u16) -> (r: u32) ensures r == a { a as u32 }
pub fn c_u16_i32(a: u16) -> (r: i32) ensures r == a { a as i32 }
pub fn c_u16_u64(a: u16) -> (r: u64) ensures r == a { a as u64 }
pub fn c_u16_i64(a: u16) -> (r: i64) ensures r == a { a as i64 }
pub fn c_i16_u8(a: i16) -> (r: u8) ensures r == a as int % 0x100 { c_u64_u8(c_i64_u64(a as i64)) }
pub fn c_i16_i8(a: i16) -> (r: i8) ensures r == (if a as int % 0x100 < 0x80 { a as int % 0x100 } else { a as int % 0x100 - 0x100 }) { c_u64_i8(c_i64_u64(a as i64)) }
pub fn c_i16_u16(a: i16) -> (r: u16) ensures r == a as int % 0x10000 { c_u64_u16(c_i64_u64(a as i64)) }
pub fn c_i16_u32(a: i16) -> (r: u32) ensures r == a as int % 0x100000000 { c_u64_u32(c_i64_u64(a as i64)) }
pub fn c_i16_i32(a: i16) -> (r: i32) ensures r == a { a as i32 }
pub fn c_i16_u64(a: i16) -> (r: u64) ensures r == a as int % 0x10000000000000000 { c_i64_u64(a as i64) }
pub fn c_i16_i64(a: i16) -> (r: i64) ensures r == a { a as i64 }
pub fn c_u32_u8(a: u32) -> (r: u8) ensures r == a as int % 0x100 { c_u64_u8(a as u64) }
pub fn c_u32_i8(a: u32) -> (r: i8) ensures r == (if a as int % 0x100 < 0x80 { a as int % 0x100 } else { a as int % 0x100 - 0x100 }) { c_u64_i8(a as u64) }
pub fn c_u32_u16(a: u32) -> (r: u16) ensures r == a as int % 0x10000 { c_u64_u16(a as u64) }
pub fn c_u32_i16(a: u32) -> (r: i16) ensures r == (if a as int % 0x10000 < 0x8000 { a as int % 0x10000 } else { a as int % 0x10000 - 0x10000 }) { c_u64_i16(a as u64) }
pub fn c_i32_i8(a: i32) -> (r: i8) ensures r == (if a as int % 0x100 < 0x80 { a as int % 0x100 } else { a as int % 0x100 - 0x100 }) { c_u64_i8(c_i64_u64(a as i64)) }
pub fn c_i32_u16(a: i32) -> (r: u16) ensures r == a as int % 0x10000 { c_u64_u16(c_i64_u64(a as i64)) }
pub fn c_i32_i16(a: i32) -> (r: i16) ensures r == (if a as int % 0x10000 < 0x8000 { a as int % 0x10000 } else { a as int % 0x10000 - 0x10000 }) { c_u64_i16(c_i64_u64(a as i64)) }
pub fn c_i64_u8(a: i64) -> (r: u8) ensures r == a as int % 0x100 { c_u64_u8(c_i64_u64(a as i64)) }
pub fn c_i64_i8(a: i64) -> (r: i8) ensures r == (if a as int % 0x100 < 0x80 { a as int % 0x100 } else { a as int % 0x100 - 0x100 }) { c_u64_i8(c_i64_u64(a as i64)) }
pub fn c_i64_u16(a: i64) -> (r: u16) ensures r == a as int % 0x10000 { c_u64_u16(c_i64_u64(a as i64)) }
pub fn c_i64_i16(a: i64) -> (r: i16) ensures r == (if a as int % 0x10000 < 0x8000 { a as int % 0x10000 } else { a as int % 0x10000 - 0x10000 }) { c_u64_i16(c_i64_u64(a as i64)) }
pub fn c_bool_u8(a: bool) -> (r: u8) ensures r == (if a { 1int } else { 0 }) { if a { 1 } else { 0 } }
pub fn c_bool_i8(a: bool) -> (r: i8) ensures r == (if a { 1int } else { 0 }) { if a { 1 } else { 0 } }
pub fn c_bool_u16(a: bool) -> (r: u16) ensures r == (if a { 1int } else { 0 }) { if a { 1 } else { 0 } }
pub fn c_bool_i16(a: bool) -> (r: i16) ensures r == (if a { 1int } else { 0 }) { if a { 1 } else { 0 } }
pub fn c_bool_i64(a: bool) -> (r: i64) ensures r == (if a { 1int } else { 0 }) { if a { 1 } else { 0 } }
