mod cli;
mod fw;
mod gen;
mod json;
mod props;
mod rec;
mod tree;
mod types;

fn main() {
    cli::main(props::all());
}
