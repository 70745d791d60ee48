fn main() { vmon::cli::main() }
