mod cals;
mod dates;
mod errs;
mod tight;
mod bond;
mod curve;
mod interp;
mod price;
mod pure;
mod spy;
mod system;
mod util;

fn main() {
    let args: Vec<String> = std::env::args().collect();
    util::silence_panics();
    if util::guard(|| run(&args[1], &args[2])).is_none() {
        println!("the driver could not go on: {}", util::last_panic());
        std::process::exit(101);
    }
}

fn run(prop: &str, path: &str) {
    if path == "alone" {
        return pure::alone(&std::env::args().nth(3).unwrap());
    }
    let mut out = util::Out::new(path);
    match prop {
        "C01" => dates::c01(&mut out),
        "C02" => dates::c02(&mut out),
        "C03" => dates::c03(&mut out),
        "C04" => dates::c04(&mut out),
        "C05" => cals::c05(&mut out),
        "C06" => cals::holidays(&mut out, cals::C06),
        "C07" => cals::holidays(&mut out, cals::C07),
        "C08" => cals::holidays(&mut out, cals::C08),
        "C09" => cals::holidays(&mut out, cals::C09),
        "C10" => cals::c10(&mut out),
        "C11" => cals::c11(&mut out),
        "C12" => interp::c12(&mut out),
        "C13" => interp::c13(&mut out),
        "C14" => interp::c14(&mut out),
        "C15" => interp::c15(&mut out),
        "C16" => interp::c16(&mut out),
        "C12L" | "C13L" | "C14L" | "C15L" | "C16L" => interp::long(&mut out, prop),
        "C17" => curve::c17(&mut out),
        "C18" => curve::c18(&mut out),
        "C19" => bond::c19(&mut out),
        "C20" => bond::c20(&mut out),
        "C21" => bond::c21(&mut out),
        "C19L" | "C20L" | "C21L" => bond::long(&mut out, prop),
        "C22" => errs::c22(&mut out),
        "C24" => pure::c24(&mut out),
        "C23" => price::c23(&mut out),
        "C25" => system::c25(&mut out),
        _ => panic!("unknown property {prop}"),
    }
    out.finish();
}
