use std::path::PathBuf;
fn main() {
    // export the interposed libc symbols so that dlsym-style lookups find them too
    println!("cargo:rustc-link-arg-bins=-rdynamic");
    println!("cargo:rerun-if-changed=build.rs");
    // the examples' binary, to be called like a function (C20)
    println!("cargo:rerun-if-env-changed=DSIM_NO_MAIN");
    let here = PathBuf::from(std::env::var("CARGO_MANIFEST_DIR").unwrap());
    let f = here.join("../../repo/dess-examples/src/main.rs");
    println!("cargo:rerun-if-changed={}", f.display());
    let out = PathBuf::from(std::env::var("OUT_DIR").unwrap()).join("ex_main.rs");
    let text = match f.canonicalize() {
        Ok(p) if std::env::var("DSIM_NO_MAIN").is_err() => format!(
            "#[path = {:?}]\n#[allow(dead_code, unused)]\nmod bin;\npub const MAIN: Option<fn()> = Some(|| {{ let _ = bin::dsim_entry(); }});\n",
            {
                let c = std::fs::read_to_string(&p).unwrap();
                let g = out.with_file_name("ex_main_bin.rs");
                std::fs::write(&g, format!("{c}\npub fn dsim_entry() {{ let _ = main(); }}\n")).unwrap();
                g
            }
        ),
        _ => "pub const MAIN: Option<fn()> = None;\n".into(),
    };
    std::fs::write(out, text).unwrap();
}
