// a reference two structures below the reference that reaches it
pub struct Q<'a> { pub r: &'a mut i32 }
pub struct W<'a> { pub q: Q<'a> }
pub struct V<'a> { pub w: W<'a>, pub k: i32 }
pub fn deep(v: V<'_>, x: i32) -> i32 { *v.w.q.r = x; *v.w.q.r }
