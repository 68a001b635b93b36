use std::mem::MaybeUninit;
use std::ops::{Deref, DerefMut};

/// Most elements a vector can hold in the model.
pub const VCAP: usize = 4;

/// The elements live in a heap block of fixed size, allocated by the first insertion.
pub struct Vec<T> {
    len: usize,
    d: *mut [MaybeUninit<T>; VCAP],
}
impl<T> Vec<T> {
    pub const fn new() -> Self {
        Vec { len: 0, d: std::ptr::null_mut() }
    }
    fn slot(&self, i: usize) -> *mut MaybeUninit<T> {
        unsafe { &raw mut (*self.d)[i] }
    }
    fn set(&mut self, i: usize, t: T) {
        unsafe { *self.slot(i) = MaybeUninit::new(t) }
    }
    fn get_copy(&self, i: usize) -> T {
        unsafe { (*self.slot(i)).assume_init_read() }
    }
    fn room(&mut self) {
        if self.d.is_null() {
            self.d = std::boxed::Box::into_raw(std::boxed::Box::new([const { MaybeUninit::uninit() }; VCAP]));
        }
    }
    /// Model only: a vector that is never changed.
    pub const fn st(s: &'static [T]) -> Self {
        Vec { len: s.len(), d: s.as_ptr() as *mut _ }
    }
    pub fn with_capacity(_n: usize) -> Self {
        Self::new()
    }
    pub fn from_elem(e: T, n: usize) -> Self
    where
        T: Clone,
    {
        let mut v = Self::new();
        let mut i = 0;
        while i < n {
            v.push(e.clone());
            i += 1;
        }
        v
    }
    pub fn push(&mut self, t: T) {
        assert!(self.len < VCAP, "MODEL-LIMIT: vector capacity");
        self.room();
        self.set(self.len, t);
        self.len += 1;
    }
    pub fn pop(&mut self) -> Option<T> {
        if self.len == 0 {
            return None;
        }
        self.len -= 1;
        Some(self.get_copy(self.len))
    }
    pub fn clear(&mut self) {
        self.len = 0;
    }
    pub fn truncate(&mut self, n: usize) {
        if n < self.len {
            self.len = n;
        }
    }
    pub fn insert(&mut self, at: usize, t: T) {
        assert!(self.len < VCAP, "MODEL-LIMIT: vector capacity");
        assert!(at <= self.len);
        self.room();
        let mut i = self.len;
        while i > at {
            self.set(i, self.get_copy(i - 1));
            i -= 1;
        }
        self.set(at, t);
        self.len += 1;
    }
    pub fn remove(&mut self, at: usize) -> T {
        assert!(at < self.len);
        let r = self.get_copy(at);
        let mut i = at;
        while i + 1 < self.len {
            self.set(i, self.get_copy(i + 1));
            i += 1;
        }
        self.len -= 1;
        r
    }
    pub fn as_slice(&self) -> &[T] {
        if self.len == 0 {
            return &[];
        }
        unsafe { std::slice::from_raw_parts(self.d as *const T, self.len) }
    }
    pub fn as_mut_slice(&mut self) -> &mut [T] {
        if self.len == 0 {
            return &mut [];
        }
        unsafe { std::slice::from_raw_parts_mut(self.d as *mut T, self.len) }
    }
    pub fn reserve(&mut self, _n: usize) {}
    pub fn swap_remove(&mut self, at: usize) -> T {
        let last = self.len - 1;
        self.as_mut_slice().swap(at, last);
        self.pop().unwrap()
    }
    pub fn retain<F: FnMut(&T) -> bool>(&mut self, mut f: F) {
        let mut k = 0;
        let mut i = 0;
        while i < self.len {
            let keep = f(&self.as_slice()[i]);
            if keep {
                let t = self.get_copy(i);
                self.set(k, t);
                k += 1;
            }
            i += 1;
        }
        self.len = k;
    }
    pub fn dedup(&mut self)
    where
        T: PartialEq,
    {
        let mut k = 0;
        let mut i = 0;
        while i < self.len {
            if k == 0 || self.as_slice()[k - 1] != self.as_slice()[i] {
                let t = self.get_copy(i);
                self.set(k, t);
                k += 1;
            }
            i += 1;
        }
        self.len = k;
    }
    pub fn drain(&mut self, _: std::ops::RangeFull) -> IntoIter<T> {
        std::mem::take(self).into_iter()
    }
    pub fn len(&self) -> usize {
        self.len
    }
    pub fn is_empty(&self) -> bool {
        self.len == 0
    }
    pub fn append(&mut self, o: &mut Self) {
        let mut i = 0;
        while i < o.len {
            self.push(o.get_copy(i));
            i += 1;
        }
        o.len = 0;
    }
    pub fn extend_from_slice(&mut self, s: &[T])
    where
        T: Clone,
    {
        let mut i = 0;
        while i < s.len() {
            self.push(s[i].clone());
            i += 1;
        }
    }
}
unsafe impl<T> Sync for Vec<T> {}
impl<T> Deref for Vec<T> {
    type Target = [T];
    fn deref(&self) -> &[T] {
        self.as_slice()
    }
}
impl<T> DerefMut for Vec<T> {
    fn deref_mut(&mut self) -> &mut [T] {
        self.as_mut_slice()
    }
}
impl<T> AsRef<[T]> for Vec<T> {
    fn as_ref(&self) -> &[T] {
        self.as_slice()
    }
}
impl<T> Default for Vec<T> {
    fn default() -> Self {
        Self::new()
    }
}
impl<T: Clone> Clone for Vec<T> {
    fn clone(&self) -> Self {
        let mut v = Self::new();
        v.extend_from_slice(self.as_slice());
        v
    }
}
impl<T: PartialEq> PartialEq for Vec<T> {
    fn eq(&self, o: &Self) -> bool {
        if self.len != o.len {
            return false;
        }
        let mut i = 0;
        while i < self.len {
            if self[i] != o[i] {
                return false;
            }
            i += 1;
        }
        true
    }
}
impl<T: std::fmt::Debug> std::fmt::Debug for Vec<T> {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        f.write_str("[..]")
    }
}
impl<T> Extend<T> for Vec<T> {
    fn extend<I: IntoIterator<Item = T>>(&mut self, it: I) {
        for t in it {
            self.push(t);
        }
    }
}
impl<T> FromIterator<T> for Vec<T> {
    fn from_iter<I: IntoIterator<Item = T>>(it: I) -> Self {
        let mut v = Self::new();
        v.extend(it);
        v
    }
}
pub struct IntoIter<T> {
    v: Vec<T>,
    i: usize,
}
impl<T> Iterator for IntoIter<T> {
    type Item = T;
    fn next(&mut self) -> Option<T> {
        if self.i < self.v.len {
            let r = self.v.get_copy(self.i);
            self.i += 1;
            Some(r)
        } else {
            None
        }
    }
    fn size_hint(&self) -> (usize, Option<usize>) {
        let n = self.v.len - self.i;
        (n, Some(n))
    }
}
impl<T> ExactSizeIterator for IntoIter<T> {}
impl<T> DoubleEndedIterator for IntoIter<T> {
    fn next_back(&mut self) -> Option<T> {
        if self.i < self.v.len {
            self.v.len -= 1;
            Some(self.v.get_copy(self.v.len))
        } else {
            None
        }
    }
}
impl<'a, T: Copy + 'a> Extend<&'a T> for Vec<T> {
    fn extend<I: IntoIterator<Item = &'a T>>(&mut self, it: I) {
        for t in it {
            self.push(*t);
        }
    }
}
impl<T: Eq> Eq for Vec<T> {}
impl<T: std::hash::Hash> std::hash::Hash for Vec<T> {
    fn hash<H: std::hash::Hasher>(&self, h: &mut H) {
        self.as_slice().hash(h)
    }
}
impl<T: PartialEq> PartialEq<[T]> for Vec<T> {
    fn eq(&self, o: &[T]) -> bool {
        self.as_slice() == o
    }
}
impl<T> AsMut<[T]> for Vec<T> {
    fn as_mut(&mut self) -> &mut [T] {
        self.as_mut_slice()
    }
}
impl<T> std::borrow::Borrow<[T]> for Vec<T> {
    fn borrow(&self) -> &[T] {
        self.as_slice()
    }
}
impl<T, const N: usize> From<[T; N]> for Vec<T> {
    fn from(s: [T; N]) -> Self {
        let mut v = Self::new();
        for t in s {
            v.push(t);
        }
        v
    }
}
impl<T> IntoIterator for Vec<T> {
    type Item = T;
    type IntoIter = IntoIter<T>;
    fn into_iter(self) -> IntoIter<T> {
        IntoIter { v: self, i: 0 }
    }
}
impl<'a, T> IntoIterator for &'a Vec<T> {
    type Item = &'a T;
    type IntoIter = std::slice::Iter<'a, T>;
    fn into_iter(self) -> Self::IntoIter {
        self.as_slice().iter()
    }
}
impl<'a, T> IntoIterator for &'a mut Vec<T> {
    type Item = &'a mut T;
    type IntoIter = std::slice::IterMut<'a, T>;
    fn into_iter(self) -> Self::IntoIter {
        self.as_mut_slice().iter_mut()
    }
}
impl<T: Clone> From<&[T]> for Vec<T> {
    fn from(s: &[T]) -> Self {
        let mut v = Self::new();
        v.extend_from_slice(s);
        v
    }
}
