// Runs the schema compiler's own library entry points on the witness schemas: the Rust it emits is
// the generated half of the source under analysis (it is type-checked and dumped, never executed).
fn main() {
    let mut args = std::env::args().skip(1);
    let out = args.next().expect("out dir");
    let mut bad = 0;
    for f in args {
        let p = std::path::PathBuf::from(&f);
        let stem = p.file_stem().unwrap().to_str().unwrap().to_string();
        let r = std::panic::catch_unwind(|| {
            let d = planus_translation::translate_files(&[&p])?;
            Some(planus_codegen::generate_rust(&d, false).map_err(|e| e.to_string()))
        });
        match r {
            Ok(Some(Ok(s))) => std::fs::write(format!("{out}/{stem}.rs"), s).expect("write"),
            Ok(Some(Err(e))) => {
                bad += 1;
                println!("GEN-FAIL {stem} generator: {e}");
            }
            Ok(None) => {
                bad += 1;
                println!("GEN-FAIL {stem} schema rejected");
            }
            Err(_) => {
                bad += 1;
                println!("GEN-FAIL {stem} panic");
            }
        }
    }
    if bad > 0 {
        std::process::exit(3);
    }
}
