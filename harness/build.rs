fn main() {
    println!("cargo:rerun-if-changed=build.rs");
    if std::env::var_os("CARGO_FEATURE_FUZZ").is_some() {
        let lib = "clang_rt.fuzzer_no_main-x86_64";
        let dir = std::fs::read_dir("/usr/lib/llvm-18/lib/clang")
            .expect("clang's runtime")
            .flatten()
            .map(|d| d.path().join("lib/linux"))
            .find(|d| d.join(format!("lib{lib}.a")).is_file())
            .expect("libFuzzer");
        println!("cargo:rustc-link-search=native={}", dir.display());
        // the interceptors let libFuzzer see what strings and slices are compared with
        println!("cargo:rustc-link-lib=static:+whole-archive=clang_rt.fuzzer_interceptors-x86_64");
        println!("cargo:rustc-link-lib=static={lib}");
        println!("cargo:rustc-link-lib=dylib=stdc++");
    }
}
