use crate::engine::Prop;
pub mod boolean;
pub mod contours;
pub mod curves;
pub mod data;
pub mod sweepp;
pub mod topo;
pub mod util;
pub fn all() -> Vec<Prop> {
    vec![
        boolean::c01(),
        boolean::c02(),
        contours::c03_prop(),
        contours::c04_prop(),
        contours::c08_prop(),
        curves::c10_prop(), curves::c11_prop(), curves::c13_prop(), curves::c14_prop(), curves::c19_prop(),
        topo::c05_prop(), topo::c06_prop(),
        topo::c07_prop(),
        data::c09_prop(), data::c18_prop(),
        sweepp::c12_prop(), sweepp::c15_prop(), sweepp::c16_prop(), sweepp::c17_prop(),
        contours::c20_prop(),
        contours::c21_prop(),
        contours::c22_prop(),
        contours::c23_prop(),
    ]
}
