//! Symbolic harnesses for aoc-parse.  Every harness takes a level (its bound)
//! and explores the real crate on symbolic inputs.
pub mod flat;
pub mod refm;
pub mod sym;

#[cfg(feature = "native")]
pub type Table = &'static [(&'static str, fn(u32))];

#[macro_export]
macro_rules! harness {
    ( $( $(#[$m:meta])* $n:ident ( $l:ident ) $b:block )* ) => {
        $( $(#[$m])* #[cfg(not(feature = "native"))] #[no_mangle] pub extern "C" fn $n($l: u32) { let _ = $l; $b } )*
        $( #[cfg(feature = "native")] fn $n($l: u32) { let _ = $l; $b } )*
        #[cfg(feature = "native")]
        pub const TABLE: $crate::Table = &[ $( (stringify!($n), $n as fn(u32)) ),* ];
    };
}

macro_rules! modules {
    ( $( $m:ident $f:literal )* ) => {
        $( #[cfg(feature = $f)] pub mod $m; )*
        #[cfg(feature = "native")]
        pub fn tables() -> Vec<Table> { let mut v: Vec<Table> = vec![]; $( #[cfg(feature = $f)] v.push($m::TABLE); )* v }
    };
}
modules! { h_comb "comb" h_scope "scope" h_chars "chars" h_nums "nums" h_shape "shape" h_rules "rules" h_coll "coll" h_errs "errs" h_misc "misc" h_macro "macro" h_mgen "mgen" h_far "far" }
