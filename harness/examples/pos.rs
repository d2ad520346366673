// usage: pos A_SVG B_SVG eps e|n u|i|d|x : prints the topology, positions and contours
use kurbo::BezPath;
use linesweeper::*;
fn main() {
    let a: Vec<String> = std::env::args().collect();
    let p = BezPath::from_svg(&a[1]).unwrap();
    let q = BezPath::from_svg(&a[2]).unwrap();
    let eps: f64 = a[3].parse().unwrap();
    let r = if a[4] == "e" { FillRule::EvenOdd } else { FillRule::NonZero };
    let op = match a[5].as_str() { "u" => BinaryOp::Union, "i" => BinaryOp::Intersection, "d" => BinaryOp::Difference, _ => BinaryOp::Xor };
    let t = topology::Topology::from_paths_binary(&p, &q, eps).unwrap();
    let pos = t.compute_positions();
    println!("{:?}", t.segments);
    for i in t.segment_indices() {
        println!("{i:?} orig {:?} cw {:?} ccw {:?} copied {:?} path {}", t.orig_seg[i], t.winding_clockwise(i.first_half()), t.winding_counter_clockwise(i.first_half()), pos[i].copied_idx, pos[i].path.to_svg());
    }
    let out = binary_op_with_eps(&p, &q, r, op, eps).unwrap();
    for c in out.contours() {
        println!("CONTOUR {} parent {:?} outer {}", c.path.to_svg(), c.parent, c.outer);
    }
}
