import sys; sys.path.insert(0,'/verif/tools')
from plant import mk
PRE = open('/verif/tools/seeds2.py').read().split("PRE='''")[1].split("'''")[0]
want=sys.argv[1:]
def seed(id,*a):
    if not want or any(id.startswith(w) for w in want): mk(id,*a)
seed('s28-border-unchecked','C27',
 'a mesh with a border, damaged only in the links of its border half-edges',
 'the structural validation accepts a mesh whose border loop is broken',
 [('src/mesh/topology.rs','''            if he.removed {
                continue; // skip removed half-edges
            }
            assert_eq!(
                self.half_edges[he.next].prev, i,''','''            if he.removed || he.face.is_none() {
                continue; // skip removed and border half-edges
            }
            assert_eq!(
                self.half_edges[he.next].prev, i,''')],
 PRE+"""fn main() {
    let p = |x: f64, y: f64| Point::<CgarRational, 2>::from_vals([CgarRational::from(x), CgarRational::from(y)]);
    let mut m = Mesh::<CgarRational, 2>::new();
    for q in [p(0.0, 0.0), p(1.0, 0.0), p(1.0, 1.0), p(0.0, 1.0)] { m.add_vertex(q); }
    m.add_triangle(0, 1, 2);
    m.add_triangle(0, 2, 3);
    m.build_boundary_loops();
    m.validate_connectivity();
    let h = (0..m.half_edges.len()).find(|h| !m.half_edges[*h].removed && m.half_edges[*h].face.is_none()).unwrap();
    let n = m.half_edges[m.half_edges[h].next].next;
    m.half_edges[h].next = n;
    let ok = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| m.validate_connectivity())).is_ok();
    check(!ok, "a border half-edge that skips its neighbour must be reported");
}
""")
seed('s29-hull-collinear','C28',
 'points on the upper side of the hull, between two of its corners',
 'the convex hull lists points that are not corners',
 [('src/geometry/tri_tri_intersect.rs','''            if cross.is_negative_or_zero() {
                upper.pop();''','''            if cross.is_negative() {
                upper.pop();''')],
 PRE+"""use cgar::geometry::tri_tri_intersect::convex_hull_2d_indices;
fn main() {
    let p = |x: f64, y: f64| Point::<CgarRational, 2>::from_vals([CgarRational::from(x), CgarRational::from(y)]);
    let h = convex_hull_2d_indices(&vec![p(0.0, 0.0), p(4.0, 0.0), p(4.0, 4.0), p(2.0, 4.0), p(0.0, 4.0)]);
    println!("{h:?}");
    check(h.len() == 4 && !h.contains(&3), "only the corners belong to the hull");
}
""")
seed('s30-wide-divisor','C29',
 'division by a number whose enclosure is wide compared with its value',
 'the enclosure of the quotient misses values, so a sign may be reported as certain that is wrong',
 [('src/numeric/ball.rs','        let denom = self.m.abs() * (self.m.abs() - self.r);','        let denom = self.m.abs() * self.m.abs();')],
 PRE+"""use cgar::numeric::ball::Ball;
fn main() {
    let d = Ball { m: 4.0, r: 3.0 };
    let q = Ball { m: 1.0, r: 0.0 }.div(d);
    println!("{q:?}");
    check((1.0 - q.m).abs() <= q.r, "1 / 1 lies in the quotient");
    check((1.0 / 7.0 - q.m).abs() <= q.r, "1 / 7 lies in the quotient");
}
""")
seed('s31-cache-once','C30',
 'two threads that ask for the exact value of the same unevaluated number at the same time',
 'the thread that comes second panics',
 [('src/numeric/lazy_exact.rs','        let _ = self.0.exact.set(v.clone());\n        v\n','        self.0\n            .exact\n            .set(v.clone())\n            .unwrap_or_else(|_| unreachable!("exact value computed twice"));\n        v\n')],
 PRE+"""use std::sync::Barrier;
fn main() {
    for round in 0..3000 {
        let third = LazyExact::from(&CgarRational::from(1) / &CgarRational::from(3));
        let mut x = LazyExact::from(0.1);
        for i in 0..120 { x = if i % 2 == 0 { &x + &third } else { &third - &x }; }
        let gate = Barrier::new(4);
        let ok = std::thread::scope(|s| {
            let hs: Vec<_> = (0..4).map(|_| s.spawn(|| { gate.wait(); x.exact() })).collect();
            hs.into_iter().all(|h| h.join().is_ok())
        });
        if !ok { println!("round {round}"); }
        check(ok, "every thread gets the value");
    }
}
""")
seed('s32-off-flush','C31',
 'a destination that becomes full before the last part of the file is stored',
 'writing an OFF file reports success although the file is incomplete',
 [('src/io/off.rs','    out.flush()\n','    Ok(())\n')],
 PRE+"""fn main() {
    let p = |x: f64, y: f64| Point::<CgarRational, 3>::from_vals([CgarRational::from(x), CgarRational::from(y), CgarRational::from(0.0)]);
    let mut m = Mesh::<CgarRational, 3>::new();
    for q in [p(0.0, 0.0), p(1.0, 0.0), p(1.0, 1.0)] { m.add_vertex(q); }
    m.add_triangle(0, 1, 2);
    // takes no data at all
    let r = cgar::io::off::write_off(&m, "/dev/full");
    println!("{r:?}");
    check(r.is_err(), "a write that stores nothing must not succeed");
}
""")
