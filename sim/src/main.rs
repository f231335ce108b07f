mod content;
mod drive;
mod env;
mod fault;
mod gen;
mod hostile;
mod oracle;
mod peer;
mod raw;
mod run;
mod scen;
mod scen_fault;
mod scen_keep;
mod scen_leak;
mod scen_life;
mod scen_hostile;
mod scen_peer;
mod scen_pool;
mod scen_tasks;
mod scen_reg;
mod tap;
mod wire;

#[global_allocator]
static ALLOC: simcore::mem::Alloc = simcore::mem::Alloc;

fn main() {
    std::process::exit(drive::main());
}
