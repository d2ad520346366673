// usage: lines EPS SVG... : prints the sweep lines
use kurbo::BezPath;
use linesweeper::*;
use linesweeper::sweep::*;
fn main() {
    let a: Vec<String> = std::env::args().collect();
    let eps: f64 = a[1].parse().unwrap();
    let mut segs = Segments::default();
    for s in &a[2..] { segs.add_bez_path(&BezPath::from_svg(s).unwrap()).unwrap(); }
    
    for i in segs.indices() { println!("{i:?} {:?}", segs[i]); }
    let mut sw = Sweeper::new(&segs, eps);
    let mut rb = SweepLineRangeBuffers::default();
    let mut lb = SweepLineBuffers::default();
    while let Some(mut l) = sw.next_line(&mut lb) {
        let v: Vec<_> = (0..).map_while(|i| l.line_segment(i)).collect();
        println!("y={:?} {:?}", l.y(), v);
        while let Some(mut r) = l.next_range(&mut rb, &segs) {
            while let Some(evs) = r.events() { for e in evs { println!("   {e:?}"); } }
        }
    }
}
