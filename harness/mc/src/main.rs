#![allow(dead_code, unused_imports)]
mod common;
mod oram;
mod small;
mod hom;
mod alg;
mod query;
mod tree;
mod cli;
mod guard;
mod mix;
mod live;
mod report;
use engine::Check;
#[global_allocator]
static ALLOC: query::Recorder = query::Recorder;
fn main() {
    engine::main(&[
        Check { id: "C01", body: oram::c01, bounds: oram::c01_bounds, hang_s: 300 },
        Check { id: "C02", body: oram::c02, bounds: oram::c02_bounds, hang_s: 300 },
        Check { id: "C03", body: oram::c03, bounds: oram::c03_bounds, hang_s: 300 },
        Check { id: "C06", body: small::c06, bounds: small::c06_bounds, hang_s: 300 },
        Check { id: "C07", body: small::c07, bounds: small::c07_bounds, hang_s: 300 },
        Check { id: "C17", body: small::c17, bounds: small::c17_bounds, hang_s: 300 },
        Check { id: "C22", body: small::c22, bounds: small::c22_bounds, hang_s: 300 },
        Check { id: "C26", body: small::c26, bounds: small::c26_bounds, hang_s: 300 },
        Check { id: "C18", body: alg::c18, bounds: alg::c18_bounds, hang_s: 300 },
        Check { id: "C19", body: alg::c19, bounds: alg::c19_bounds, hang_s: 300 },
        Check { id: "C08", body: hom::c08, bounds: hom::c08_bounds, hang_s: 300 },
        Check { id: "C11", body: hom::c11, bounds: hom::c11_bounds, hang_s: 300 },
        Check { id: "C12", body: hom::c12, bounds: hom::c12_bounds, hang_s: 300 },
        Check { id: "C13", body: hom::c13, bounds: hom::c13_bounds, hang_s: 300 },
        Check { id: "C14", body: hom::c14, bounds: hom::c14_bounds, hang_s: 300 },
        Check { id: "C15", body: hom::c15, bounds: hom::c15_bounds, hang_s: 300 },
        Check { id: "C16", body: hom::c16, bounds: hom::c16_bounds, hang_s: 300 },
        Check { id: "C05", body: query::c05, bounds: query::c05_bounds, hang_s: 300 },
        Check { id: "C23", body: query::c23, bounds: query::c23_bounds, hang_s: 300 },
        Check { id: "C24", body: query::c24, bounds: query::c24_bounds, hang_s: 300 },
        Check { id: "C09", body: tree::c09, bounds: tree::c09_bounds, hang_s: 300 },
        Check { id: "C10", body: tree::c10, bounds: tree::c10_bounds, hang_s: 300 },
        Check { id: "C20", body: cli::c20, bounds: cli::c20_bounds, hang_s: 300 },
        Check { id: "C27", body: guard::c27, bounds: guard::c27_bounds, hang_s: 300 },
        Check { id: "C28", body: guard::c28, bounds: guard::c28_bounds, hang_s: 300 },
        Check { id: "C29", body: guard::c29, bounds: guard::c29_bounds, hang_s: 300 },
        Check { id: "C30", body: mix::c30, bounds: mix::c30_bounds, hang_s: 300 },
        Check { id: "C31", body: mix::c31, bounds: mix::c31_bounds, hang_s: 300 },
        Check { id: "C32", body: live::c32, bounds: live::c32_bounds, hang_s: 300 },
        Check { id: "C33", body: report::c33, bounds: report::c33_bounds, hang_s: 300 },
        Check { id: "C25", body: cli::c25, bounds: cli::c25_bounds, hang_s: 300 },
    ]);
}
