use std::fmt;
use std::ops::Deref;

#[cfg(not(feature = "wide"))]
pub type SW = u64;
#[cfg(feature = "wide")]
pub type SW = u128;
/// Longest text kept exactly.
pub const SCAP: usize = std::mem::size_of::<SW>();
const LOST: u8 = 128;

/// A little text, packed (first byte lowest). Text that does not fit is abstracted: its
/// contents and length are arbitrary (and `LOST` is set in `n`).
#[derive(Clone, Copy)]
pub struct String {
    w: SW,
    n: u8,
}
impl String {
    pub const fn new() -> Self {
        String { w: 0, n: 0 }
    }
    pub fn with_capacity(_n: usize) -> Self {
        Self::new()
    }
    /// Any (ASCII) text that fits.
    pub fn arbitrary() -> Self {
        #[cfg(kani)]
        {
            let w: SW = kani::any();
            let n: u8 = kani::any();
            kani::assume(n <= SCAP as u8 && w & (SW::MAX / 255 * 128) == 0);
            String { w, n: n | LOST }
        }
        #[cfg(not(kani))]
        String { w: b'?' as SW, n: 1 | LOST }
    }
    /// From packed bytes.
    pub fn from_packed(w: SW, len: usize) -> Self {
        String { w, n: len as u8 }
    }
    fn lost(&self) -> bool {
        self.n & LOST != 0
    }
    pub fn as_str(&self) -> &str {
        unsafe {
            std::str::from_utf8_unchecked(std::slice::from_raw_parts(
                &self.w as *const SW as *const u8,
                self.len(),
            ))
        }
    }
    pub fn len(&self) -> usize {
        (self.n & !LOST) as usize
    }
    pub fn is_empty(&self) -> bool {
        self.len() == 0
    }
    pub fn push_str(&mut self, s: &str) {
        if self.lost() {
            return;
        }
        let n = s.len();
        if n > SCAP || self.len() + n > SCAP {
            *self = Self::arbitrary();
            return;
        }
        let s = s.as_bytes();
        let mut i = 0;
        while i < n {
            self.w |= (s[i] as SW) << (8 * self.n as u32);
            self.n += 1;
            i += 1;
        }
    }
    pub fn push(&mut self, c: char) {
        if self.lost() {
            return;
        }
        if self.len() >= SCAP || !c.is_ascii() {
            *self = Self::arbitrary();
            return;
        }
        self.w |= (c as u8 as SW) << (8 * self.n as u32);
        self.n += 1;
    }
    pub fn clear(&mut self) {
        *self = Self::new();
    }
    pub fn reserve(&mut self, _n: usize) {}
    pub fn as_bytes(&self) -> &[u8] {
        self.as_str().as_bytes()
    }
    pub fn pop(&mut self) -> Option<char> {
        if self.is_empty() {
            return None;
        }
        let i = self.len() - 1;
        let c = self.as_bytes()[i] as char;
        self.truncate(i);
        Some(c)
    }
    pub fn truncate(&mut self, n: usize) {
        if n < self.len() {
            self.n = n as u8 | (self.n & LOST);
            self.w = self.mask();
        }
    }
    pub fn insert(&mut self, _at: usize, _c: char) {
        *self = Self::arbitrary();
    }
    pub fn insert_str(&mut self, _at: usize, _s: &str) {
        *self = Self::arbitrary();
    }
    pub fn into_bytes(self) -> crate::vec::Vec<u8> {
        self.as_bytes().into()
    }
    /// Model only: the text, packed.
    pub fn packed(&self) -> SW {
        self.mask()
    }
    fn mask(&self) -> SW {
        if self.len() >= SCAP {
            self.w
        } else {
            self.w & (((1 as SW) << (8 * self.len() as u32)) - 1)
        }
    }
}
impl Default for String {
    fn default() -> Self {
        Self::new()
    }
}
impl Deref for String {
    type Target = str;
    fn deref(&self) -> &str {
        self.as_str()
    }
}
impl AsRef<str> for String {
    fn as_ref(&self) -> &str {
        self.as_str()
    }
}
impl std::borrow::Borrow<str> for String {
    fn borrow(&self) -> &str {
        self.as_str()
    }
}
impl From<&str> for String {
    fn from(s: &str) -> Self {
        let mut r = String::new();
        r.push_str(s);
        r
    }
}
impl From<&String> for String {
    fn from(s: &String) -> Self {
        *s
    }
}
impl From<char> for String {
    fn from(c: char) -> Self {
        let mut r = String::new();
        r.push(c);
        r
    }
}
pub(crate) fn bytes_eq(a: &[u8], b: &[u8]) -> bool {
    if a.len() != b.len() {
        return false;
    }
    let mut i = 0;
    while i < a.len() {
        if a[i] != b[i] {
            return false;
        }
        i += 1;
    }
    true
}
impl PartialEq for String {
    fn eq(&self, o: &Self) -> bool {
        self.len() == o.len() && self.mask() == o.mask()
    }
}
impl Eq for String {}
impl PartialEq<str> for String {
    fn eq(&self, o: &str) -> bool {
        bytes_eq(self.as_str().as_bytes(), o.as_bytes())
    }
}
impl<'a> PartialEq<&'a str> for String {
    fn eq(&self, o: &&'a str) -> bool {
        bytes_eq(self.as_str().as_bytes(), o.as_bytes())
    }
}
impl PartialEq<String> for str {
    fn eq(&self, o: &String) -> bool {
        *o == *self
    }
}
impl<'a> PartialEq<String> for &'a str {
    fn eq(&self, o: &String) -> bool {
        *o == **self
    }
}
impl PartialOrd for String {
    fn partial_cmp(&self, o: &Self) -> Option<std::cmp::Ordering> {
        Some(self.cmp(o))
    }
}
impl Ord for String {
    fn cmp(&self, o: &Self) -> std::cmp::Ordering {
        let (a, b) = (self.as_str().as_bytes(), o.as_str().as_bytes());
        let mut i = 0;
        while i < a.len() && i < b.len() {
            if a[i] != b[i] {
                return a[i].cmp(&b[i]);
            }
            i += 1;
        }
        a.len().cmp(&b.len())
    }
}
impl std::hash::Hash for String {
    fn hash<H: std::hash::Hasher>(&self, h: &mut H) {
        self.as_str().hash(h)
    }
}
impl fmt::Display for String {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        f.write_str(self.as_str())
    }
}
impl fmt::Debug for String {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        f.write_str(self.as_str())
    }
}
impl fmt::Write for String {
    fn write_str(&mut self, s: &str) -> fmt::Result {
        self.push_str(s);
        Ok(())
    }
}
impl Extend<char> for String {
    fn extend<I: IntoIterator<Item = char>>(&mut self, it: I) {
        for c in it {
            self.push(c);
        }
    }
}
impl<'a> Extend<&'a str> for String {
    fn extend<I: IntoIterator<Item = &'a str>>(&mut self, it: I) {
        for c in it {
            self.push_str(c);
        }
    }
}
impl Extend<String> for String {
    fn extend<I: IntoIterator<Item = String>>(&mut self, it: I) {
        for c in it {
            self.push_str(&c);
        }
    }
}
impl std::ops::Add<&str> for String {
    type Output = String;
    fn add(mut self, s: &str) -> String {
        self.push_str(s);
        self
    }
}
impl std::ops::AddAssign<&str> for String {
    fn add_assign(&mut self, s: &str) {
        self.push_str(s);
    }
}
impl From<String> for crate::boxed::Box<dyn std::error::Error> {
    fn from(s: String) -> Self {
        let _ = s;
        "error".into()
    }
}
impl<'a> From<std::borrow::Cow<'a, str>> for String {
    fn from(s: std::borrow::Cow<'a, str>) -> String {
        (&*s).into()
    }
}
impl FromIterator<String> for String {
    fn from_iter<I: IntoIterator<Item = String>>(it: I) -> Self {
        let mut r = String::new();
        for s in it {
            r.push_str(&s);
        }
        r
    }
}
impl<'a> FromIterator<&'a char> for String {
    fn from_iter<I: IntoIterator<Item = &'a char>>(it: I) -> Self {
        let mut r = String::new();
        for s in it {
            r.push(*s);
        }
        r
    }
}
impl<'a> FromIterator<&'a str> for String {
    fn from_iter<I: IntoIterator<Item = &'a str>>(it: I) -> Self {
        let mut r = String::new();
        for s in it {
            r.push_str(s);
        }
        r
    }
}
impl FromIterator<char> for String {
    fn from_iter<I: IntoIterator<Item = char>>(it: I) -> Self {
        let mut r = String::new();
        for c in it {
            r.push(c);
        }
        r
    }
}

/// Stands in for `ToString` and `ToOwned`: calls in the code under test are renamed to it.
pub trait MToString {
    fn m_to_string(&self) -> String;
}
impl MToString for str {
    fn m_to_string(&self) -> String {
        self.into()
    }
}
impl MToString for String {
    fn m_to_string(&self) -> String {
        *self
    }
}
impl MToString for char {
    fn m_to_string(&self) -> String {
        (*self).into()
    }
}
impl<T: ?Sized + MToString> MToString for &T {
    fn m_to_string(&self) -> String {
        (**self).m_to_string()
    }
}
pub trait MToOwned {
    type Owned;
    fn m_to_owned(&self) -> Self::Owned;
}
impl MToOwned for str {
    type Owned = String;
    fn m_to_owned(&self) -> String {
        self.into()
    }
}
impl<T: Clone> MToOwned for [T] {
    type Owned = crate::vec::Vec<T>;
    fn m_to_owned(&self) -> crate::vec::Vec<T> {
        self.into()
    }
}
impl MToOwned for String {
    type Owned = String;
    fn m_to_owned(&self) -> String {
        *self
    }
}
macro_rules! numbers {
    ($($t:ty)*) => {$(
        impl MToString for $t {
            fn m_to_string(&self) -> String {
                String::arbitrary()
            }
        }
    )*};
}
numbers! { u8 u16 u32 u64 usize i8 i16 i32 i64 isize bool }
/// `[S]::join` and `[S]::concat`: calls in the code under test are renamed to them.
pub trait MJoin {
    fn m_join(&self, sep: &str) -> String;
    fn m_concat(&self) -> String {
        self.m_join("")
    }
}
impl<S: AsRef<str>> MJoin for [S] {
    fn m_join(&self, sep: &str) -> String {
        let mut r = String::new();
        let mut i = 0;
        while i < self.len() {
            if i > 0 {
                r.push_str(sep);
            }
            r.push_str(self[i].as_ref());
            i += 1;
        }
        r
    }
}
/// Slices and strings: methods that return the standard heap types.
pub trait MToVec<T> {
    fn m_to_vec(&self) -> crate::vec::Vec<T>;
}
impl<T: Clone> MToVec<T> for [T] {
    fn m_to_vec(&self) -> crate::vec::Vec<T> {
        self.into()
    }
}
pub trait MStr {
    fn m_to_lowercase(&self) -> String;
    fn m_to_uppercase(&self) -> String;
    fn m_replace(&self, from: &str, to: &str) -> String;
    fn m_repeat(&self, n: usize) -> String;
}
impl MStr for str {
    fn m_to_lowercase(&self) -> String {
        let mut r = String::new();
        let b = self.as_bytes();
        let mut i = 0;
        while i < b.len() {
            r.push(b[i].to_ascii_lowercase() as char);
            i += 1;
        }
        r
    }
    fn m_to_uppercase(&self) -> String {
        let mut r = String::new();
        let b = self.as_bytes();
        let mut i = 0;
        while i < b.len() {
            r.push(b[i].to_ascii_uppercase() as char);
            i += 1;
        }
        r
    }
    fn m_replace(&self, _from: &str, _to: &str) -> String {
        String::arbitrary()
    }
    fn m_repeat(&self, _n: usize) -> String {
        String::arbitrary()
    }
}
