//! Compiles the C++ wrapper of the C API and a shim around it.

use std::{env, path::PathBuf, process::Command};

fn main() {
    let out = PathBuf::from(env::var("OUT_DIR").unwrap());
    println!("cargo::rustc-check-cfg=cfg(no_cpp)");
    for f in ["build.rs", "cpp/shim.cc", "/repo/ipmb-ffi/ipmb.cc", "/repo/ipmb-ffi/include/ipmb.h", "/repo/ipmb-ffi/include/ipmb_ffi.h"] {
        println!("cargo::rerun-if-changed={f}");
    }
    let mut ok = true;
    let mut objs = vec![];
    for (src, obj) in [("cpp/shim.cc", "shim.o"), ("/repo/ipmb-ffi/ipmb.cc", "ipmb.o")] {
        let obj = out.join(obj);
        let r = Command::new("g++")
            .args(["-std=c++17", "-O1", "-g", "-include", "memory", "-include", "string", "-I/repo/ipmb-ffi/include", "-c", src, "-o"])
            .arg(&obj)
            .status();
        ok &= r.is_ok_and(|s| s.success());
        objs.push(obj);
    }
    let lib = out.join("libvhcpp.a");
    let _ = std::fs::remove_file(&lib);
    ok = ok && Command::new("ar").arg("crs").arg(&lib).args(&objs).status().is_ok_and(|s| s.success());
    if ok {
        println!("cargo::rustc-link-search=native={}", out.display());
        println!("cargo::rustc-link-lib=static=vhcpp");
        println!("cargo::rustc-link-lib=stdc++");
    } else {
        println!("cargo::warning=the C++ wrapper does not compile");
        println!("cargo::rustc-cfg=no_cpp");
    }
}
