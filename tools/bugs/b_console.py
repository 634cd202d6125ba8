LGF = "research/logger.rs"
LBF = "research/logger_builder.rs"
CONSOLE = """
use miniboosts::research::{ObjectiveFunction, Research};
use miniboosts::{ExponentialLoss, Logger, LoggerBuilder};
fn zero_one(s: &Sample, f: &WeightedMajority<T>) -> f64 {
    let p = f.predict_all(s);
    p.iter().zip(s.target()).filter(|(p, y)| **p as f64 != **y).count() as f64 / p.len() as f64
}
/// this program run again as a child with an argument, and what it prints
fn printed(arg: &str) -> Vec<String> {
    let out = std::process::Command::new(std::env::current_exe().unwrap()).arg(arg).env("NO_COLOR", "1").output().unwrap();
    ensure!(out.status.success(), "the run {arg} fails");
    String::from_utf8_lossy(&out.stdout).lines().map(|l| l.to_string()).collect()
}
fn learner(nap: u64) -> Slow {
    Slow(Script::new(&[vec![1.0, 1.0, -1.0, -1.0], vec![1.0, -1.0, 1.0, 1.0], vec![-1.0, -1.0, 1.0, -1.0]]), nap)
}
struct Slow(Script, u64);
impl WeakLearner for Slow {
    type Hypothesis = T;
    fn produce(&self, s: &Sample, d: &[f64]) -> T {
        std::thread::sleep(std::time::Duration::from_millis(self.1));
        self.0.produce(s, d)
    }
}
"""

bug("R03-clock", "R03",
    "a time limit of an hour or more whose minutes are not a multiple of 60",
    "times from an hour on show the minutes since the start",
    [(LGF, "    let hours = min / 60;\n    let min = min % 60;\n", "    let hours = min / 60;\n")],
    CONSOLE + """
fn main() {
    let s = rows(&[1.0, -1.0, 1.0, -1.0]);
    if let Some(a) = std::env::args().nth(1) {
        let b = AdaBoost::init(&s).force_quit_at(2);
        let _ = Logger::new(b, learner(0), ExponentialLoss::new(), zero_one, &s, &s)
            .time_limit_as_mins(a.parse().unwrap()).print_every(usize::MAX).run(scratch("log.csv"));
        return;
    }
    for (mins, text) in [("1", "01m 00s"), ("59", "59m 00s"), ("60", "01h 00m"), ("125", "02h 05m"), ("1439", "23h 59m")] {
        let out = printed(mins);
        let line = out.iter().find(|l| l.contains("Time Limit")).cloned().unwrap_or_default();
        ensure!(line.trim_end().ends_with(text), "{mins} minutes: {line}");
    }
}
""")

bug("R03-every", "R03",
    "a status interval that divides the number of the last round",
    "the status line of the last round is left out",
    [(LGF, "            if self.round != usize::MAX && iter % self.round == 0 {\n", "            if self.round != usize::MAX && iter % self.round == 0 && flow.is_continue() {\n")],
    CONSOLE + """
fn main() {
    let s = rows(&[1.0, -1.0, 1.0, -1.0]);
    if let Some(a) = std::env::args().nth(1) {
        let b = AdaBoost::init(&s).tolerance(0.01).force_quit_at(5);
        let _ = Logger::new(b, learner(0), ExponentialLoss::new(), zero_one, &s, &s)
            .print_every(a.parse().unwrap()).run(scratch(&format!("log{a}.csv")));
        return;
    }
    for every in [1, 2, 3, 4, 5, 6, 7] {
        let out = printed(&every.to_string());
        let rounds = std::fs::read_to_string(scratch(&format!("log{every}.csv"))).unwrap().lines().count() - 1;
        let got = out.iter().filter(|l| l.contains("[LOG]")).count();
        ensure!(got == rounds / every, "every {every} of {rounds} rounds: {got} lines");
    }
}
""")

bug("R03-silent", "R03",
    "a silenced logger whose game is ended by the time limit",
    "a silenced logger does not say that it ran out of time",
    [(LGF, "            if time_acc > self.time_limit {\n                println!(\n", "            if time_acc > self.time_limit && self.round == usize::MAX { return ControlFlow::Break(iter); }\n            if time_acc > self.time_limit {\n                println!(\n")],
    CONSOLE + """
fn main() {
    let s = rows(&[1.0, -1.0, 1.0, -1.0]);
    if let Some(a) = std::env::args().nth(1) {
        let b = AdaBoost::init(&s).tolerance(0.01).force_quit_at(50);
        let _ = Logger::new(b, learner(5), ExponentialLoss::new(), zero_one, &s, &s)
            .time_limit_as_millis(20).print_every(if a == "silent" { usize::MAX } else { 3 }).run(scratch("log.csv"));
        return;
    }
    for a in ["loud", "silent"] {
        let n = printed(a).iter().filter(|l| l.contains("[TLE]")).count();
        ensure!(n == 1, "{a}: {n} lines say that the time is up");
    }
}
""")

bug("R03-secs", "R03",
    "a builder given its time limit in seconds after one in another unit",
    "the builder adds a time limit in seconds to the one given before",
    [(LBF, "        self.time_limit = (time_limit as u128).checked_mul(1_000_u128)\n            .expect(\"The time limit (ms) cannot be represented as u128\");\n",
           "        let before = if self.time_limit == DEFAULT_TIMELIMIT_MILLIS { 0 } else { self.time_limit };\n        self.time_limit = (time_limit as u128).checked_mul(1_000_u128)\n            .and_then(|ms| ms.checked_add(before))\n            .expect(\"The time limit (ms) cannot be represented as u128\");\n")],
    CONSOLE + """
fn main() {
    let s = rows(&[1.0, -1.0, 1.0, -1.0]);
    if let Some(a) = std::env::args().nth(1) {
        let b = AdaBoost::init(&s).force_quit_at(2);
        let l = LoggerBuilder::new().booster(b).weak_learner(learner(0)).objective_function(ExponentialLoss::new())
            .loss_function(zero_one).train_sample(&s).test_sample(&s);
        let l = match a.as_str() { "one" => l.time_limit_as_secs(30), _ => l.time_limit_as_mins(1).time_limit_as_secs(30) };
        let _ = l.build().run(scratch("log.csv"));
        return;
    }
    for a in ["one", "two"] {
        let out = printed(a);
        let line = out.iter().find(|l| l.contains("Time Limit")).cloned().unwrap_or_default();
        ensure!(line.trim_end().ends_with("30.000s") && !line.contains("m "), "{a}: {line}");
    }
}
""")
