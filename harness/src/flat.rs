//! Output values flattened to a token list, so that values of any shape can be
//! compared with what the reference semantics predicts.
pub const LIST: u64 = 0xF000_0001;
pub const END: u64 = 0xF000_0002;
pub const SOME: u64 = 0xF000_0003;
pub const NONE: u64 = 0xF000_0004;
pub const STR: u64 = 0xF000_0005;

pub trait Flat { fn flat(&self, o: &mut Vec<u64>); }
macro_rules! ints { ($($t:ident)*) => { $( impl Flat for $t { fn flat(&self, o: &mut Vec<u64>) { o.push(*self as u64) } } )* } }
ints!(u8 u16 u32 u64 usize i8 i16 i32 i64 isize char bool);
impl Flat for () { fn flat(&self, _: &mut Vec<u64>) {} }
impl Flat for u128 { fn flat(&self, o: &mut Vec<u64>) { o.push((*self >> 64) as u64); o.push(*self as u64) } }
impl Flat for i128 { fn flat(&self, o: &mut Vec<u64>) { o.push((*self >> 64) as u64); o.push(*self as u64) } }
impl Flat for String { fn flat(&self, o: &mut Vec<u64>) { o.push(STR); for b in self.bytes() { o.push(b as u64) } o.push(END) } }
impl<T: Flat> Flat for Vec<T> { fn flat(&self, o: &mut Vec<u64>) { o.push(LIST); for x in self { x.flat(o) } o.push(END) } }
impl<T: Flat> Flat for std::collections::VecDeque<T> { fn flat(&self, o: &mut Vec<u64>) { o.push(LIST); for x in self { x.flat(o) } o.push(END) } }
impl<T: Flat> Flat for Option<T> { fn flat(&self, o: &mut Vec<u64>) { match self { Some(x) => { o.push(SOME); x.flat(o) } None => o.push(NONE) } } }
impl<T: Flat> Flat for Box<T> { fn flat(&self, o: &mut Vec<u64>) { (**self).flat(o) } }
macro_rules! tup { ($($t:ident)*) => { impl<$($t: Flat),*> Flat for ($($t,)*) { #[allow(non_snake_case)] fn flat(&self, o: &mut Vec<u64>) { let ($($t,)*) = self; $( $t.flat(o); )* } } } }
tup!(A);
tup!(A B);
tup!(A B C);
tup!(A B C D);
tup!(A B C D E);
tup!(A B C D E F);
tup!(A B C D E F G);
tup!(A B C D E F G H);

pub fn flat<T: Flat>(x: &T) -> Vec<u64> { let mut v = vec![]; x.flat(&mut v); v }
