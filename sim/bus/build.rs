fn main(){println!("cargo:rustc-link-arg-bins=-rdynamic");}
