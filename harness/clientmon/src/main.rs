//! Clients, interface crate and mint helper, judged against the program itself.
mod client;
#[rustfmt::skip]
mod forms;
mod js;
mod mint;

fn main() {
    client::install();
    monitor::run(&[("client", client::episode), ("mint", mint::episode), ("js", js::episode)]);
}
