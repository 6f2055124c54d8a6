#[global_allocator]
static A: mcrt::alloc::Counting = mcrt::alloc::Counting;

fn main() {
    let prop = std::env::args().nth(1).expect("property id");
    let mut r = mccore::Runner::new(&prop);
    mcrt::tasks(&mut r);
    r.run()
}
