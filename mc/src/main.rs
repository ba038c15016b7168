//! Bounded exhaustive model checking of asn1-rs. `mc <property>` or `mc replay <file>`.
#[cfg(feature = "full")]
mod api_any;
#[cfg(feature = "full")]
mod api_coll;
#[cfg(feature = "full")]
mod api_deep;
#[cfg(feature = "full")]
mod api_enc;
#[cfg(feature = "full")]
mod api_feat;
#[cfg(feature = "full")]
mod api_input;
#[cfg(feature = "full")]
mod api_len;
#[cfg(feature = "full")]
mod api_macro;
#[cfg(feature = "full")]
mod api_static;
#[cfg(feature = "full")]
mod api_str;
#[cfg(feature = "full")]
mod api_tag;
#[cfg(feature = "full")]
mod api_val;
#[cfg(feature = "full")]
mod plan;
#[cfg(feature = "full")]
mod report;
pub mod derived;
pub mod enc;
pub mod engine;
pub mod ep;
pub mod gen;
pub mod model;
pub mod mon;
pub mod norm;
pub mod probe;
pub mod seeds;
pub mod src;
pub mod types;
pub mod v;

#[global_allocator]
static A: mon::Counting = mon::Counting;

#[cfg(not(feature = "full"))]
fn main() {
    probe::main()
}

#[cfg(feature = "full")]
fn main() {
    let a: Vec<String> = std::env::args().collect();
    if a.len() < 2 {
        eprintln!("usage: mc <property> | mc replay <file>");
        std::process::exit(2);
    }
    std::process::exit(report::main(&a[1..]))
}
