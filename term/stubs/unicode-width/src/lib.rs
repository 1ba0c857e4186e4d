//! Stand-in: every character takes one column.
pub trait UnicodeWidthStr {
    fn width(&self) -> usize;
}
impl UnicodeWidthStr for str {
    fn width(&self) -> usize {
        let mut n = 0;
        for b in self.as_bytes() {
            n += ((*b & 0xC0) != 0x80) as usize
        }
        n
    }
}
pub trait UnicodeWidthChar {
    fn width(self) -> Option<usize>;
}
impl UnicodeWidthChar for char {
    fn width(self) -> Option<usize> {
        Some(1)
    }
}
