mod paths;
mod deps;
fn main() {
    let mut r = common::Run::from_args();
    match r.prop.as_str() {
        "C11" => paths::run(&mut r),
        "C12" => deps::run(&mut r),
        p => panic!("unknown {p}"),
    }
    r.finish()
}
