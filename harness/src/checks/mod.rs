use crate::ctx::Check;
pub mod boost;
pub mod conc;
pub mod data_io;
pub mod info;
pub mod nb;
pub mod nn;
pub mod opt;
pub mod reg;
pub mod reject;
pub mod repro;
pub mod research;
pub mod shape;
pub mod tree;
pub mod vote;

pub fn all() -> Vec<Check> {
    let mut v = vec![
        data_io::p01(), data_io::p02(), data_io::p03(), data_io::p04(),
        boost::p05(), boost::p06(), boost::p07(), boost::p08(), boost::p09(), boost::p10(), boost::p14(), boost::p24(),
        opt::p11(), opt::p12(), opt::p27(), opt::p31(), opt::p32(),
        reg::p13(), tree::p15(), tree::p16(), nb::p17(), nn::p18(),
        vote::p19(), vote::p20(), vote::p22(), research::p21(), repro::p23(), reject::p26(), shape::p28(), shape::p29(), info::p30(),
    ];
    let p25 = conc::p25(&v);
    v.push(p25);
    v
}

/// |a-b| within `tol` (NaN never is).
pub fn close(a: f64, b: f64, tol: f64) -> bool { (a - b).abs() <= tol }
