use crate::model::*;
use simrt::SchedCfg;

pub mod c01;
pub mod c02;
pub mod c03;
pub mod c04;
pub mod c05;
pub mod c08;
pub mod c09;
pub mod c10;
pub mod c11;
pub mod c21;
pub mod c22;
pub mod c23;
pub mod disk;

pub struct Prop {
    pub id: &'static str,
    pub run: fn(),
    pub quick: u64,
    pub thorough: u64,
    /// wall-clock limit of one run (backup for the step limit)
    pub wall: u32,
    pub rule: &'static str,
    pub real: &'static [&'static str],
    pub stub: &'static [&'static str],
    pub assume: &'static [&'static str],
}
pub static PROPS: &[Prop] = &[c01::C01, c02::C02, c03::C03, c04::C04, c05::C05, c05::C06, c05::C07, c08::C08, c09::C09, c10::C10, c11::C11, c21::C21, c22::C22, c23::C23];

pub fn find(id: &str) -> Option<&'static Prop> {
    PROPS.iter().find(|p| p.id == id)
}

/// Swarm choice of how the schedule is drawn.
pub fn sched_cfg(step_limit: u64) -> SchedCfg {
    let mode = w(10);
    let (max_preempts, gap_bits, explicit) = match mode {
        // dense, but not only at the start
        6 => (400, pick(&[2, 4, 6, 9, 11]), 0),
        // again and again at one place in the code
        7 => (pick(&[20, 100, 400]), pick(&[8, 12, 16]), 0),
        8 | 9 => (pick(&[20, 100, 400]), 1, pick(&[0, 0, 64])),
        0 => (0, 1, 0),
        1 => (0, 1, pick(&[16, 64, 128])),
        2 => (1, 16, 0),
        3 => (4, pick(&[8, 12, 16]), pick(&[0, 32])),
        4 => (32, pick(&[6, 10, 14]), pick(&[0, 32])),
        _ => (200, pick(&[4, 7, 10]), pick(&[0, 64])),
    };
    simrt::set_hash_seed(wide());
    let burst = if mode == 6 { 17 } else { 0 };
    let end = (max_preempts / 2).max(16);
    SchedCfg { max_preempts, gap_bits, burst, end, sticky: mode == 7, fresh: if mode > 7 { pick(&[64, 512, 2048]) } else { 0 }, statics: matches!(mode, 1 | 3 | 8), explicit, step_limit, stack: 8 << 20 }
}

/// The first words of a panic message, without positions, as a class name.
pub fn panic_class(m: &str) -> String {
    let (msg, loc) = m.rsplit_once(" at ").unwrap_or((m, ""));
    let file = loc.rsplit_once(':').map(|x| x.0).unwrap_or(loc);
    let file = file.rsplit("/src/").next().unwrap_or(file);
    let msg: String = msg.chars().filter(|c| !c.is_ascii_digit()).take(50).collect();
    format!("panic {file}: {}", msg.replace('\n', " "))
}
