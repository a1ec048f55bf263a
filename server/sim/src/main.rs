mod driver;
mod engine;
mod gen;
mod module;
mod server;
fn main() { driver::main() }
