/// Declares a function generic over the number type with all the operator bounds the library asks for.
#[macro_export]
macro_rules! gfn {
    ($(#[$m:meta])* $v:vis fn $n:ident ( $($a:ident : $t:ty),* $(,)? ) -> $r:ty $b:block) => {
        $(#[$m])*
        $v fn $n<T: $crate::num::Num>($($a: $t),*) -> $r
        where
            cgar::geometry::point::Point<T, 2>: cgar::geometry::point::PointOps<T, 2, Vector = cgar::geometry::vector::Vector<T, 2>>,
            cgar::geometry::point::Point<T, 3>: cgar::geometry::point::PointOps<T, 3, Vector = cgar::geometry::vector::Vector<T, 3>>,
            cgar::geometry::vector::Vector<T, 2>: cgar::geometry::vector::VectorOps<T, 2>,
            cgar::geometry::vector::Vector<T, 3>: cgar::geometry::vector::VectorOps<T, 3>,
            for<'a> &'a T: std::ops::Sub<&'a T, Output = T>
                + std::ops::Mul<&'a T, Output = T>
                + std::ops::Add<&'a T, Output = T>
                + std::ops::Div<&'a T, Output = T>
                + std::ops::Neg<Output = T>,
        $b
    };
}
/// Picks a number type from the tape and calls the generic function with it.
#[macro_export]
macro_rules! by_num {
    ($c:expr, $f:ident ( $($a:expr),* )) => {{
        match $c.s.below(3) {
            0 => { $c.label("f64"); $f::<cgar::numeric::cgar_f64::CgarF64>($($a),*) }
            1 => { $c.label("rational"); $f::<cgar::numeric::cgar_rational::CgarRational>($($a),*) }
            _ => { $c.label("lazy"); $f::<cgar::numeric::lazy_exact::LazyExact>($($a),*) }
        }
    }};
}
