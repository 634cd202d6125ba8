mod anygame;
mod bad;
mod bayes;
mod common;
mod column;
mod console;
mod prepare;
mod draw;
mod exp;
mod game;
mod gbm;
mod hypo;
mod logger;
mod loss;
mod lp;
#[cfg(feature = "net")]
mod nn;
mod objective;
mod request;
mod opt;
mod schedule;
mod sep;
mod settings;
mod setup;
#[cfg(feature = "utils")]
mod simplex;
mod smooth;
mod table;
mod tree;
mod vote;

use common::*;

fn main() {
    let args: Vec<String> = std::env::args().collect();
    let mut cfg = Cfg { seed: 1, thorough: false, out: "trace.ndjson".into(), behaviours: None, only: None };
    let task = args[1].clone();
    let mut i = 2;
    while i < args.len() {
        let v = args.get(i + 1).cloned().unwrap_or_default();
        match args[i].as_str() {
            "--seed" => cfg.seed = v.parse().unwrap(),
            "--tier" => cfg.thorough = v == "thorough",
            "--out" => cfg.out = v,
            "--behaviours" => cfg.behaviours = Some(v),
            "--only" => cfg.only = Some(v),
            a => panic!("unknown argument {a}"),
        }
        i += 2;
    }
    std::panic::set_hook(Box::new(|_| {}));
    if task == "prepare-child" {
        return prepare::child(&cfg);
    }
    if task == "console-child" {
        return console::child(&cfg);
    }
    CURRENT.with(|c| *c.borrow_mut() = format!("{}.current", cfg.out));
    let mut out = Out::new(&cfg);
    let task2 = task.clone();
    let r = guard(|| match task2.as_str() {
        "exp" => exp::generate(&cfg, &mut out),
        "bayes" => bayes::generate(&cfg, &mut out),
        "bad" => bad::generate(&cfg, &mut out),
        "console" => console::generate(&cfg, &mut out),
        "prepare" => prepare::generate(&cfg, &mut out),
        "logger" => logger::generate(&cfg, &mut out),
        "objective" => objective::generate(&cfg, &mut out),
        "game" => anygame::generate(&cfg, &mut out),
        "hypo" => hypo::generate(&cfg, &mut out),
        "gbm" => gbm::generate(&cfg, &mut out),
        "smooth" => smooth::generate(&cfg, &mut out),
        "settings" => settings::generate(&cfg, &mut out),
        "setup" => setup::generate(&cfg, &mut out),
        "schedule" => schedule::generate(&cfg, &mut out),
        "sep" => sep::generate(&cfg, &mut out),
        "vote" => vote::generate(&cfg, &mut out),
        #[cfg(feature = "utils")]
        "simplex" => simplex::generate(&cfg, &mut out),
        "column" => column::generate(&cfg, &mut out),
        "loss" => loss::generate(&cfg, &mut out),
        "request" => request::generate(&cfg, &mut out),
        "draw" => draw::generate(&cfg, &mut out),
        #[cfg(feature = "net")]
        "nn" => nn::generate(&cfg, &mut out),
        "tree" => tree::generate(&cfg, &mut out),
        "table" => table::generate(&cfg, &mut out),
        "lp" => lp::generate(&cfg, &mut out),
        t => panic!("unknown task {t}"),
    });
    if let Err(m) = r {
        eprintln!("harness error in task {task}: {m}");
        std::process::exit(3);
    }
    std::fs::remove_file(format!("{}.current", cfg.out)).ok();
    println!("{} runs", out.n);
}
