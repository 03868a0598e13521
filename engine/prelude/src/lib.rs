//! Reference definitions of the standard library's internal iteration; the analysis inlines their MIR where the analysed code
//! calls the library method of the same name.  Never executed.
pub fn for_each<I: Iterator, F: FnMut(I::Item)>(mut it: I, mut f: F) {
    while let Some(x) = it.next() { f(x); }
}
pub fn try_for_each<I: Iterator, E, F: FnMut(I::Item) -> Result<(), E>>(it: &mut I, mut f: F) -> Result<(), E> {
    while let Some(x) = it.next() {
        if let Err(e) = f(x) { return Err(e); }
    }
    Ok(())
}
pub fn fold<I: Iterator, B, F: FnMut(B, I::Item) -> B>(mut it: I, init: B, mut f: F) -> B {
    let mut acc = init;
    while let Some(x) = it.next() { acc = f(acc, x); }
    acc
}
pub fn try_fold<I: Iterator, B, E, F: FnMut(B, I::Item) -> Result<B, E>>(it: &mut I, init: B, mut f: F) -> Result<B, E> {
    let mut acc = init;
    while let Some(x) = it.next() {
        acc = match f(acc, x) { Ok(v) => v, Err(e) => return Err(e) };
    }
    Ok(acc)
}
pub fn all<I: Iterator, F: FnMut(I::Item) -> bool>(it: &mut I, mut f: F) -> bool {
    while let Some(x) = it.next() { if !f(x) { return false; } }
    true
}
pub fn any<I: Iterator, F: FnMut(I::Item) -> bool>(it: &mut I, mut f: F) -> bool {
    while let Some(x) = it.next() { if f(x) { return true; } }
    false
}
pub fn find<I: Iterator, F: FnMut(&I::Item) -> bool>(it: &mut I, mut f: F) -> Option<I::Item> {
    while let Some(x) = it.next() { if f(&x) { return Some(x); } }
    None
}
pub fn position<I: Iterator, F: FnMut(I::Item) -> bool>(it: &mut I, mut f: F) -> Option<usize> {
    let mut n = 0usize;
    while let Some(x) = it.next() { if f(x) { return Some(n); } n += 1; }
    None
}
pub fn count<I: Iterator>(mut it: I) -> usize {
    let mut n = 0usize;
    while let Some(_) = it.next() { n += 1; }
    n
}
pub fn collect_vec<I: Iterator>(mut it: I) -> Vec<I::Item> {
    let mut v = Vec::new();
    while let Some(x) = it.next() { v.push(x); }
    v
}
pub fn collect_res_vec<T, E, I: Iterator<Item = Result<T, E>>>(mut it: I) -> Result<Vec<T>, E> {
    let mut v = Vec::new();
    while let Some(x) = it.next() {
        match x { Ok(y) => v.push(y), Err(e) => return Err(e) }
    }
    Ok(v)
}
pub fn extend<T, I: Iterator<Item = T>>(v: &mut Vec<T>, mut it: I) {
    while let Some(x) = it.next() { v.push(x); }
}
macro_rules! sums {
    ($($t:ident $s:ident $r:ident;)*) => { $(
        pub fn $s<I: Iterator<Item = $t>>(mut it: I) -> $t {
            let mut n: $t = 0;
            while let Some(x) = it.next() { n += x; }
            n
        }
        pub fn $r<E, I: Iterator<Item = Result<$t, E>>>(mut it: I) -> Result<$t, E> {
            let mut n: $t = 0;
            while let Some(x) = it.next() {
                match x { Ok(y) => n += y, Err(e) => return Err(e) }
            }
            Ok(n)
        }
    )* }
}
sums! { u8 sum_u8 sumr_u8; u16 sum_u16 sumr_u16; u32 sum_u32 sumr_u32; u64 sum_u64 sumr_u64; usize sum_usize sumr_usize;
        i8 sum_i8 sumr_i8; i16 sum_i16 sumr_i16; i32 sum_i32 sumr_i32; i64 sum_i64 sumr_i64; isize sum_isize sumr_isize; }
