// Included by /repo/rust/src/main.rs under --cfg verif_harness.
mod verif_harness {
    pub mod reference { include!(concat!(env!("VERIF_HARNESS_DIR"), "/reference.rs")); }
    pub mod kit { include!(concat!(env!("VERIF_HARNESS_DIR"), "/kit.rs")); }

    pub fn run() -> bool {
        if std::env::var("VERIF_OUT").is_err() { return false; }
        check::main();
        true
    }

    #[cfg(verif_check = "C05")] pub mod check { include!(concat!(env!("VERIF_HARNESS_DIR"), "/c05.rs")); }
    #[cfg(verif_check = "C06")] pub mod check { include!(concat!(env!("VERIF_HARNESS_DIR"), "/c06.rs")); }
    #[cfg(verif_check = "C07")] pub mod check { include!(concat!(env!("VERIF_HARNESS_DIR"), "/c07.rs")); }
    #[cfg(verif_check = "C08")] pub mod check { include!(concat!(env!("VERIF_HARNESS_DIR"), "/c08.rs")); }
    #[cfg(verif_check = "C09")] pub mod check { include!(concat!(env!("VERIF_HARNESS_DIR"), "/c09.rs")); }
    #[cfg(verif_check = "C10")] pub mod check { include!(concat!(env!("VERIF_HARNESS_DIR"), "/c10.rs")); }
    #[cfg(verif_check = "C11")] pub mod check { include!(concat!(env!("VERIF_HARNESS_DIR"), "/c11.rs")); }
    #[cfg(verif_check = "C12")] pub mod check { include!(concat!(env!("VERIF_HARNESS_DIR"), "/c12.rs")); }
    #[cfg(verif_check = "C13")] pub mod check { include!(concat!(env!("VERIF_HARNESS_DIR"), "/c13.rs")); }
    #[cfg(verif_check = "C14")] pub mod check { include!(concat!(env!("VERIF_HARNESS_DIR"), "/c14.rs")); }
    #[cfg(verif_check = "C17")] pub mod check { include!(concat!(env!("VERIF_HARNESS_DIR"), "/c17.rs")); }
    #[cfg(verif_check = "C18")] pub mod check { include!(concat!(env!("VERIF_HARNESS_DIR"), "/c18.rs")); }
    #[cfg(verif_check = "C19")] pub mod check { include!(concat!(env!("VERIF_HARNESS_DIR"), "/c19.rs")); }
    #[cfg(verif_check = "C20")] pub mod check { include!(concat!(env!("VERIF_HARNESS_DIR"), "/c20.rs")); }
    #[cfg(verif_check = "C21")] pub mod check { include!(concat!(env!("VERIF_HARNESS_DIR"), "/c21.rs")); }
    #[cfg(verif_check = "C22")] pub mod check { include!(concat!(env!("VERIF_HARNESS_DIR"), "/c22.rs")); }
}
