mod c32;
mod c33;
mod form;
mod kinds;
mod schema;

fn main() {
    mc::main(&[("C32", c32::check), ("C33", c33::check)])
}
