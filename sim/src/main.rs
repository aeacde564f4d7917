mod core;
mod drive;
mod seam;
mod expr;
mod text;
mod s_text;
mod s_builder;
mod s_root;
mod s_expr;
mod s_ffi_geqs;
mod s_matrix;
mod s_ffi_nexsys;
mod net;
mod s_net;
mod s_threads;
mod s_cli;
mod s_ui;

use crate::core::DynScenario;

#[global_allocator]
static ALLOC: seam::SimAlloc = seam::SimAlloc;

pub fn scenarios() -> Vec<Box<dyn DynScenario>> {
    vec![
        Box::new(s_text::C01),
        Box::new(s_text::C02),
        Box::new(s_builder::C03),
        Box::new(s_root::C04),
        Box::new(s_expr::C05),
        Box::new(s_ffi_geqs::C06),
        Box::new(s_matrix::C07),
        Box::new(s_matrix::C08),
        Box::new(s_ffi_nexsys::C09),
        Box::new(s_threads::C10),
        Box::new(s_net::C11),
        Box::new(s_net::C12),
        Box::new(s_net::C13),
        Box::new(s_net::C14),
        Box::new(s_cli::C15),
        Box::new(s_cli::C16),
        Box::new(s_ui::C17),
    ]
}

fn main() {
    drive::main();
}
