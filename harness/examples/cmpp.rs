// usage: cmpp EPS I J SVG... : compares two segments
use kurbo::BezPath;
use linesweeper::*;
fn main() {
    let a: Vec<String> = std::env::args().collect();
    let eps: f64 = a[1].parse().unwrap();
    let mut segs = Segments::default();
    for s in &a[4..] { segs.add_bez_path(&BezPath::from_svg(s).unwrap()).unwrap(); }
    let ids: Vec<_> = segs.indices().collect();
    let (i, j) = (ids[a[2].parse::<usize>().unwrap()], ids[a[3].parse::<usize>().unwrap()]);
    for (e, acc) in [(eps, eps/2.0), (4.0*eps, eps/2.0)] {
        let mut c = order::ComparisonCache::new(e, acc);
        println!("{:?}", c.compare_segments(&segs, i, j));
        let mut c = order::ComparisonCache::new_without_y_slop(e, acc);
        println!("plain {:?}", c.compare_segments(&segs, i, j));
    }
}
