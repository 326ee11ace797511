mod checks;
#[allow(dead_code)]
mod util;

pub type Float = pbrtrs::verif::Float;

/// The algebra checks, once per element type.
#[allow(unused_imports, dead_code)]
mod ints {
    pub type T = i64;
    pub const INT: bool = true;
    pub const NAME: &str = "i64";
    include!("alg.rs");
}
#[allow(unused_imports, dead_code)]
mod floats {
    pub type T = crate::Float;
    pub const INT: bool = false;
    pub const NAME: &str = "float";
    include!("alg.rs");
}

fn main() {
    let ctx = fw::Ctx::from_args();
    checks::run(ctx);
    ctx.finish();
}
