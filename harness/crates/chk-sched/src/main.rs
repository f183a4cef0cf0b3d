mod source;

fn main() { pbt::main(vec![source::property()]) }
