pub struct L { pub v: i32, pub next: Option<Box<L>> }
pub fn sum(l: &L) -> i32 { l.v ^ match &l.next { Some(n) => sum(n), None => 0 } }
pub fn r2(mut l: L, x: i32) -> i32 { if let Some(ref mut n) = l.next { (**n).v = x; } sum(&l) }
