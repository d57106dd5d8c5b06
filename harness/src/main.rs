//! bsmon: runs the real library under generated workloads while monitors compare what it does with
//! an independent model. One process = one property. See DESIGN.md.
mod ctx;
mod dd;
mod gen;
mod props;
mod refm;
mod rng;
mod run;

fn main() {
    run::main();
}
