//! simrek: deterministic simulation of rekordcrate.
#![allow(dead_code)]
mod cli;
mod ctx;
mod gen_pdb;
mod hist;
mod ins;
mod media;
mod pdbx;
mod proc;
mod props;
mod reading;
mod rows;
mod runner;
mod simio;
mod sys;
mod tape;
mod walk;
mod writing;
mod xlib;

fn main() {
    let args: Vec<String> = std::env::args().skip(1).collect();
    std::process::exit(runner::main(&args));
}
