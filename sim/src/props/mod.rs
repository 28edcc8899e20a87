//! The scenarios, one per property.
use crate::orch::Prop;

mod s01;
mod s02;
mod s03;
mod s04;
mod s05;
mod s06;
mod s07;
mod s08;
mod s09;
mod g01;
mod g02;
mod g03;
mod g04;
mod g05;
mod g06;
mod d01;
mod l01;
mod l02;
mod l03;
mod t01;
mod t02;
mod t03;
mod o01;
mod i01;
mod i02;
mod i03;
mod i04;
mod e01;
mod e02;
mod e03;
mod capi;
mod util;

pub static ALL: &[&Prop] = &[&s01::PROP, &s02::PROP, &s03::PROP, &s04::PROP, &s05::PROP, &s06::PROP, &s07::PROP, &s08::PROP, &s09::PROP,
    &g01::PROP, &g02::PROP, &g03::PROP, &g04::PROP, &g05::PROP, &g06::PROP, &d01::PROP, &l01::PROP, &l02::PROP, &l03::PROP,
    &t01::PROP, &t02::PROP, &t03::PROP, &o01::PROP, &i01::PROP, &i02::PROP, &i03::PROP, &i04::PROP, &e01::PROP, &e02::PROP, &e03::PROP];

pub fn find(id: &str) -> &'static Prop {
    match ALL.iter().find(|p| p.id == id) {
        Some(p) => p,
        None => {
            eprintln!("unknown property {id}");
            std::process::exit(2)
        }
    }
}
