pub mod alphabet { pub const SAFE: [char; 1] = ['z']; }
pub fn id(n: usize) -> String { simcore::new_id(n) }
#[macro_export]
macro_rules! nanoid {
    () => { $crate::id(21) };
    ($n:expr) => { $crate::id($n) };
    ($n:expr, $a:expr) => {{ let _ = $a; $crate::id($n) }};
}
