fn main() {
    monitor::run(&[]);
}
