mod json; mod rng; mod rt; mod sup; mod work; mod p_train; mod p_learn; mod p_store; mod p_csv; mod cli; mod p_cli; mod p_engine;

#[global_allocator]
static A: rt::SimAlloc = rt::SimAlloc;

fn checks() -> Vec<Box<dyn sup::Check>> { vec![Box::new(p_train::C01), Box::new(p_train::C04), Box::new(p_train::C05), Box::new(p_learn::C02), Box::new(p_learn::C03), Box::new(p_learn::C15), Box::new(p_learn::C16), Box::new(p_store::C10), Box::new(p_csv::C11), Box::new(p_cli::C12), Box::new(p_cli::C13), Box::new(p_engine::C06), Box::new(p_engine::C07), Box::new(p_engine::C08), Box::new(p_engine::C09)] }
fn find(id: &str) -> Box<dyn sup::Check> {
    checks().into_iter().find(|c| c.id() == id).unwrap_or_else(|| { eprintln!("no check for {}", id); std::process::exit(2) })
}

fn main() {
    // fixed addresses: re-execute with address space randomisation off
    unsafe {
        let p = libc::personality(0xffffffff);
        if p != -1 && (p & libc::ADDR_NO_RANDOMIZE) == 0 && std::env::var_os("BBSIM_NOASLR").is_none() {
            if libc::personality((p | libc::ADDR_NO_RANDOMIZE) as libc::c_ulong) != -1 {
                std::env::set_var("BBSIM_NOASLR", "1");
                let args: Vec<std::ffi::CString> = std::env::args().map(|a| std::ffi::CString::new(a).unwrap()).collect();
                let mut ptrs: Vec<*const libc::c_char> = args.iter().map(|a| a.as_ptr()).collect();
                ptrs.push(std::ptr::null());
                libc::execv(c"/proc/self/exe".as_ptr(), ptrs.as_ptr());
            }
        }
    }
    let args: Vec<String> = std::env::args().collect();
    let opt = |k: &str, d: &str| args.iter().position(|a| a == k).and_then(|i| args.get(i + 1)).cloned().unwrap_or(d.to_string());
    let verif = opt("--verif", "/verif");
    let tier = if opt("--tier", "quick") == "thorough" { sup::Tier::Thorough } else { sup::Tier::Quick };
    let seed: u64 = opt("--seed", "1").parse().unwrap_or(1);
    let rc = match args.get(1).map(|s| s.as_str()) {
        Some("run") => sup::search(&*find(&opt("--prop", "")), tier, seed, &verif, opt("--runs", "").parse().ok()),
        Some("one") => sup::one(&*find(&opt("--prop", "")), seed, opt("--i", "0").parse().unwrap(), tier),
        Some("replay") => {
            let f = &args[2];
            let j = json::J::parse(&std::fs::read_to_string(f).expect("replay file")).expect("replay file");
            sup::replay(&*find(j.s("property")), f)
        }
        _ => { eprintln!("bbsim run|one|replay"); 2 }
    };
    std::process::exit(rc);
}
