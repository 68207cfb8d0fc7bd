//! A minimal value type and JSON reader/printer: every number is carried as a string.
#[derive(Clone, Debug, PartialEq)]
pub enum V { N, B(bool), S(String), A(Vec<V>), O(Vec<(String, V)>) }
impl V {
    pub fn get(&self, k: &str) -> &V {
        match self { V::O(o) => match o.iter().find(|(n, _)| n == k) { Some((_, v)) => v, None => panic!("no key {}", k) }, _ => panic!("not an object: {:?}", self) }
    }
    pub fn opt(&self, k: &str) -> Option<&V> { match self { V::O(o) => o.iter().find(|(n, _)| n == k).map(|(_, v)| v), _ => None } }
    pub fn first(&self) -> (&str, &V) { match self { V::O(o) => (o[0].0.as_str(), &o[0].1), _ => panic!("not an object: {:?}", self) } }
    pub fn s(&self) -> &str { match self { V::S(s) => s, _ => panic!("not a string: {:?}", self) } }
    pub fn a(&self) -> &Vec<V> { match self { V::A(a) => a, _ => panic!("not a list: {:?}", self) } }
    pub fn int(&self) -> i64 { self.s().parse().unwrap() }
    pub fn out(&self, o: &mut String) {
        match self {
            V::N => o.push_str("null"),
            V::B(b) => o.push_str(if *b { "true" } else { "false" }),
            V::S(s) => esc(s, o),
            V::A(a) => { o.push('['); for (n, v) in a.iter().enumerate() { if n > 0 { o.push(',') } v.out(o) } o.push(']') }
            V::O(m) => { o.push('{'); for (n, (k, v)) in m.iter().enumerate() { if n > 0 { o.push(',') } esc(k, o); o.push(':'); v.out(o) } o.push('}') }
        }
    }
    pub fn text(&self) -> String { let mut s = String::new(); self.out(&mut s); s }
}
fn esc(s: &str, o: &mut String) {
    o.push('"');
    for c in s.chars() {
        match c { '"' => o.push_str("\\\""), '\\' => o.push_str("\\\\"), c if (c as u32) < 32 => o.push_str(&format!("\\u{:04x}", c as u32)), c => o.push(c) }
    }
    o.push('"');
}
pub fn parse(s: &str) -> V { let b: Vec<char> = s.chars().collect(); let mut p = 0; val(&b, &mut p) }
fn ws(b: &[char], p: &mut usize) { while *p < b.len() && b[*p].is_whitespace() { *p += 1 } }
fn val(b: &[char], p: &mut usize) -> V {
    ws(b, p);
    match b[*p] {
        'n' => { *p += 4; V::N }
        't' => { *p += 4; V::B(true) }
        'f' => { *p += 5; V::B(false) }
        '"' => V::S(st(b, p)),
        '[' => { *p += 1; let mut a = vec![]; loop { ws(b, p); if b[*p] == ']' { *p += 1; break } if b[*p] == ',' { *p += 1 } else { a.push(val(b, p)) } } V::A(a) }
        '{' => { *p += 1; let mut o = vec![]; loop { ws(b, p); match b[*p] { '}' => { *p += 1; break } ',' => *p += 1, _ => { let k = st(b, p); ws(b, p); *p += 1; let v = val(b, p); o.push((k, v)) } } } V::O(o) }
        _ => { let st = *p; while *p < b.len() && !",]} \n".contains(b[*p]) { *p += 1 } V::S(b[st..*p].iter().collect()) }
    }
}
fn st(b: &[char], p: &mut usize) -> String {
    *p += 1; let mut s = String::new();
    loop {
        match b[*p] {
            '"' => { *p += 1; return s }
            '\\' => {
                *p += 1;
                match b[*p] {
                    'n' => s.push('\n'), 't' => s.push('\t'), 'r' => s.push('\r'), 'b' => s.push('\u{8}'), 'f' => s.push('\u{c}'),
                    'u' => {
                        let h: String = b[*p + 1..*p + 5].iter().collect(); *p += 4;
                        let mut c = u32::from_str_radix(&h, 16).unwrap();
                        if (0xd800..0xdc00).contains(&c) {
                            let h: String = b[*p + 3..*p + 7].iter().collect(); *p += 6;
                            c = 0x10000 + ((c - 0xd800) << 10) + (u32::from_str_radix(&h, 16).unwrap() - 0xdc00);
                        }
                        s.push(std::char::from_u32(c).unwrap())
                    }
                    c => s.push(c),
                }
                *p += 1;
            }
            c => { s.push(c); *p += 1 }
        }
    }
}
pub fn hex(b: &[u8]) -> String { b.iter().map(|x| format!("{:02x}", x)).collect() }
pub fn unhex(s: &str) -> Vec<u8> { (0..s.len() / 2).map(|i| u8::from_str_radix(&s[2 * i..2 * i + 2], 16).unwrap()).collect() }

pub trait J: Sized { fn j(&self) -> V; fn u(v: &V) -> Self; }
macro_rules! num { ($($t:ty),*) => { $(impl J for $t { fn j(&self) -> V { V::S(self.to_string()) } fn u(v: &V) -> Self { v.s().parse().unwrap() } })* } }
num!(u8, u16, u32, u64, i8, i16, i32, i64);
impl J for f32 { fn j(&self) -> V { V::S(format!("{:08x}", self.to_bits())) } fn u(v: &V) -> Self { f32::from_bits(u32::from_str_radix(v.s(), 16).unwrap()) } }
impl J for f64 { fn j(&self) -> V { V::S(format!("{:016x}", self.to_bits())) } fn u(v: &V) -> Self { f64::from_bits(u64::from_str_radix(v.s(), 16).unwrap()) } }
impl J for bool { fn j(&self) -> V { V::B(*self) } fn u(v: &V) -> Self { match v { V::B(b) => *b, _ => panic!("not a bool") } } }
impl J for String { fn j(&self) -> V { V::S(self.clone()) } fn u(v: &V) -> Self { v.s().to_string() } }
impl<T: J> J for Option<T> { fn j(&self) -> V { match self { Some(x) => x.j(), None => V::N } } fn u(v: &V) -> Self { match v { V::N => None, v => Some(T::u(v)) } } }
impl<T: J> J for Vec<T> { fn j(&self) -> V { V::A(self.iter().map(|x| x.j()).collect()) } fn u(v: &V) -> Self { v.a().iter().map(T::u).collect() } }

pub trait Msg: J {
    fn dec(b: Vec<u8>) -> Result<Self, String>;
    fn enc(&mut self) -> Result<Vec<u8>, String>;
    fn pk(&mut self, s: u32) -> Result<Vec<u8>, String>;
    fn id() -> Option<u32>;
    fn sid(&self) -> (u32, u16);
}
/// Type-erased access, so that the operations are compiled once.
pub trait Dyn {
    fn jv(&self) -> V;
    fn enc(&mut self) -> Result<Vec<u8>, String>;
    fn pk(&mut self, s: u32) -> Result<Vec<u8>, String>;
    fn sid(&self) -> (u32, u16);
}
impl<T: Msg> Dyn for T {
    fn jv(&self) -> V { self.j() }
    fn enc(&mut self) -> Result<Vec<u8>, String> { Msg::enc(self) }
    fn pk(&mut self, s: u32) -> Result<Vec<u8>, String> { Msg::pk(self, s) }
    fn sid(&self) -> (u32, u16) { Msg::sid(self) }
}
#[derive(Clone, Copy)]
pub struct Ty { pub mk: fn(&V) -> Box<dyn Dyn>, pub dec: fn(Vec<u8>) -> Result<Box<dyn Dyn>, String>, pub id: fn() -> Option<u32> }
fn mk<T: Msg + 'static>(v: &V) -> Box<dyn Dyn> { Box::new(T::u(v)) }
fn de<T: Msg + 'static>(b: Vec<u8>) -> Result<Box<dyn Dyn>, String> { match T::dec(b) { Ok(x) => Ok(Box::new(x)), Err(e) => Err(e) } }
pub fn ty<T: Msg + 'static>() -> Ty { Ty { mk: mk::<T>, dec: de::<T>, id: T::id } }
