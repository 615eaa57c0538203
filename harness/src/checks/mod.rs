pub mod c01;
pub mod c0203;
pub mod c25;
pub mod c26;
pub mod cost;
pub mod c04;
pub mod drawn;
pub mod meta;
pub mod proj;
pub mod proto;
pub mod repeat;
pub mod stream;
use crate::core::*;

pub struct Check { pub id: &'static str, pub quick: usize, pub run: fn(&mut Ctx), pub eval: fn(&Case) -> Verdict }

pub fn all() -> Vec<Check> {
    vec![
        Check { id: "C01", quick: 1, run: c01::run, eval: c01::eval },
        Check { id: "C02", quick: 3, run: c0203::run, eval: c0203::eval02 },
        Check { id: "C03", quick: 2, run: c0203::run, eval: c0203::eval03 },
        Check { id: "C04", quick: 4, run: c04::run, eval: c04::eval },
        Check { id: "C05", quick: 2, run: c0203::run05, eval: c0203::eval05 },
        Check { id: "C06", quick: 10, run: proj::run06, eval: proj::eval06 },
        Check { id: "C07", quick: 6, run: proj::run07, eval: proj::eval07 },
        Check { id: "C08", quick: 8, run: proj::run08, eval: proj::eval08 },
        Check { id: "C09", quick: 10, run: proj::run09, eval: proj::eval09 },
        Check { id: "C10", quick: 8, run: proj::run10, eval: proj::eval10 },
        Check { id: "C11", quick: 12, run: proj::run11, eval: proj::eval11 },
        Check { id: "C12", quick: 10, run: proj::run12, eval: proj::eval12 },
        Check { id: "C13", quick: 12, run: proj::run13, eval: proj::eval13 },
        Check { id: "C14", quick: 5, run: proj::run14, eval: proj::eval14 },
        Check { id: "C15", quick: 6, run: meta::run15, eval: meta::eval15 },
        Check { id: "C16", quick: 2, run: drawn::run16, eval: drawn::eval16 },
        Check { id: "C17", quick: 5, run: drawn::run17, eval: drawn::eval17 },
        Check { id: "C18", quick: 5, run: meta::run18, eval: meta::eval18 },
        Check { id: "C19", quick: 1, run: repeat::run19, eval: repeat::eval19 },
        Check { id: "C20", quick: 1, run: cost::run20, eval: cost::eval20 },
        Check { id: "C21", quick: 10, run: proto::run21, eval: proto::eval21 },
        Check { id: "C22", quick: 4, run: proto::run22, eval: proto::eval22 },
        Check { id: "C23", quick: 4, run: stream::run23, eval: stream::eval23 },
        Check { id: "C24", quick: 4, run: stream::run24, eval: stream::eval24 },
        Check { id: "C25", quick: 4, run: c25::run25, eval: c25::eval25 },
        Check { id: "C26", quick: 4, run: c26::run26, eval: c26::eval26 },
    ]
}
