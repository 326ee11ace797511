mod checks;
mod dict;
mod exec;
mod gen;
mod model;
mod node;

#[cfg(feature = "f64")]
pub type Float = f64;
#[cfg(not(feature = "f64"))]
pub type Float = f32;

fn main() {
    let a: Vec<String> = std::env::args().collect();
    if a.len() > 2 && a[1] == "--history" {
        checks::history_child(&a[2]);
        return;
    }
    let ctx = fw::Ctx::from_args();
    checks::run(ctx);
    ctx.finish();
}
