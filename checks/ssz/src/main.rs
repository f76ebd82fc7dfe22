mod checks;
mod model;
mod parts;

fn main() {
    vharness::main_with(&checks::ALL)
}
