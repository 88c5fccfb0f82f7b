use crate::engine::Prop;
pub mod c01;
pub mod c02;
pub mod c03;
pub mod c04;
pub mod c05;
pub mod c06;
pub mod c07;
pub mod c08;
pub mod c09;
pub mod c10;
pub mod c11;
pub mod c12;
pub mod c13;
pub mod c14;
pub mod c15;
pub mod c16;

pub const LIB: &[&str] = &["curvo (all of it, unmodified, instrumented)", "nalgebra", "argmin", "spade", "rand's distributions (Rng::random_range etc.)", "std threads, locks and HashMap"];
pub const STUB: &[&str] = &["rand's OS-seeded ThreadRng core (simulated entropy)", "getrandom (hash seeds)", "clock_gettime", "nanosleep/sched_yield/futex wait (scheduler)"];

pub fn all() -> Vec<Prop> {
    vec![c01::prop(), c02::prop(), c03::prop(), c04::prop(), c05::prop(), c06::prop(), c07::prop(), c08::prop(), c09::prop(), c10::prop(), c11::prop(), c12::prop(), c13::prop(), c14::prop(), c15::prop(), c16::prop()]
}
