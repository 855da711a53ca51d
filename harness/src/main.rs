mod vm; mod chain; mod mocks; mod util;
#[macro_use] mod report;
mod world; mod gen; mod math; mod lab; mod farmw; mod checks;
mod driver;
fn main() { driver::main(); }
