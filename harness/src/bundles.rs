//! Tuples of components given to create/insert/remove/delete.
use crate::comps::*;
use sparsey::component::ComponentSet;

pub trait Bundle: ComponentSet + Sized {
    const KS: &'static [usize];
    fn make(v: &[u64]) -> Self;
    /// (type, value, sane) of every removed component
    fn removed(r: Self::Remove) -> Vec<Option<(u64, bool)>>;
}
macro_rules! bundle {
    ($($n:ident $i:tt),*) => {
        impl Bundle for ($($n,)*) {
            const KS: &'static [usize] = &[$(<$n as Comp>::K),*];
            fn make(_v: &[u64]) -> Self { ($(<$n as Comp>::make(_v[$i]),)*) }
            fn removed(r: Self::Remove) -> Vec<Option<(u64, bool)>> {
                let _r = r;
                vec![$(_r.$i.map(|c| (c.val(), c.sane()))),*]
            }
        }
    };
}
bundle!();
bundle!(C0 0);
bundle!(C1 0);
bundle!(C2 0);
bundle!(C3 0);
bundle!(C4 0);
bundle!(C5 0);
bundle!(C6 0);
bundle!(C7 0);
bundle!(C0 0, C1 1);
bundle!(C1 0, C0 1);
bundle!(C2 0, C0 1, C1 2);
bundle!(C0 0, C1 1, C2 2, C3 3);
bundle!(C3 0, C2 1);
bundle!(C2 0, C3 1);
bundle!(C4 0, C5 1);
bundle!(C5 0, C4 1, C6 2);
bundle!(C6 0, C7 1);
bundle!(C0 0, C4 1, C2 2);
bundle!(C1 0, C3 1, C5 2, C7 3);
bundle!(C4 0, C5 1, C6 2, C7 3, C0 4);
bundle!(C0 0, C1 1, C2 2, C3 3, C4 4, C5 5, C6 6, C7 7);
bundle!(C7 0, C6 1, C5 2, C4 3, C3 4, C2 5, C1 6, C0 7);
bundle!(C15 0, C14 1, C13 2, C12 3, C11 4, C10 5, C9 6, C8 7, C7 8, C6 9, C5 10, C4 11, C3 12, C2 13, C1 14, C0 15);

#[macro_export]
macro_rules! with_bundle {
    ($i:expr, $B:ident => $body:expr) => {{
        use $crate::comps::*;
        match $i {
            0 => { type $B = (); $body }
            1 => { type $B = (C0,); $body }
            2 => { type $B = (C1,); $body }
            3 => { type $B = (C2,); $body }
            4 => { type $B = (C3,); $body }
            5 => { type $B = (C4,); $body }
            6 => { type $B = (C5,); $body }
            7 => { type $B = (C6,); $body }
            8 => { type $B = (C7,); $body }
            9 => { type $B = (C0, C1); $body }
            10 => { type $B = (C1, C0); $body }
            11 => { type $B = (C2, C0, C1); $body }
            12 => { type $B = (C0, C1, C2, C3); $body }
            13 => { type $B = (C3, C2); $body }
            14 => { type $B = (C2, C3); $body }
            15 => { type $B = (C4, C5); $body }
            16 => { type $B = (C5, C4, C6); $body }
            17 => { type $B = (C6, C7); $body }
            18 => { type $B = (C0, C4, C2); $body }
            19 => { type $B = (C1, C3, C5, C7); $body }
            20 => { type $B = (C4, C5, C6, C7, C0); $body }
            21 => { type $B = (C0, C1, C2, C3, C4, C5, C6, C7); $body }
            22 => { type $B = (C7, C6, C5, C4, C3, C2, C1, C0); $body }
            _ => { type $B = (C15, C14, C13, C12, C11, C10, C9, C8, C7, C6, C5, C4, C3, C2, C1, C0); $body }
        }
    }};
}
pub const NB: usize = 24;

#[macro_export]
macro_rules! with_comp {
    ($k:expr, $C:ident => $body:expr) => {{
        use $crate::comps::*;
        match $k {
            0 => { type $C = C0; $body }
            1 => { type $C = C1; $body }
            2 => { type $C = C2; $body }
            3 => { type $C = C3; $body }
            4 => { type $C = C4; $body }
            5 => { type $C = C5; $body }
            6 => { type $C = C6; $body }
            7 => { type $C = C7; $body }
            8 => { type $C = C8; $body }
            9 => { type $C = C9; $body }
            10 => { type $C = C10; $body }
            11 => { type $C = C11; $body }
            12 => { type $C = C12; $body }
            13 => { type $C = C13; $body }
            14 => { type $C = C14; $body }
            _ => { type $C = C15; $body }
        }
    }};
}
