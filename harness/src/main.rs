fn main() {
    bsnh::run(Vec::new());
}
