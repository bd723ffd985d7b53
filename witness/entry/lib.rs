//! Entry points of every form the main attribute accepts. Nothing here is run: what the attribute makes of them is analysed. The
//! functions of `user` stand for what the user writes into main.
#![allow(dead_code, unused, clippy::all)]

pub mod user {
    #[inline(never)]
    pub fn unit() {
        panic!()
    }
    #[inline(never)]
    pub fn result() -> std::io::Result<()> {
        panic!()
    }
    #[inline(never)]
    pub fn boxed() -> Result<(), Box<dyn std::error::Error>> {
        panic!()
    }
    #[inline(never)]
    pub fn code() -> std::process::ExitCode {
        panic!()
    }
    #[inline(never)]
    pub fn result_code() -> Result<std::process::ExitCode, String> {
        panic!()
    }
    #[inline(never)]
    pub fn never() -> ! {
        panic!()
    }
    #[inline(never)]
    pub fn before() -> u32 {
        panic!()
    }
}

pub mod sync_unit {
    #[crossmist::main]
    fn main() {
        crate::user::unit()
    }
}

pub mod sync_public {
    #[crossmist::main]
    pub fn main() {
        crate::user::unit()
    }
}

pub mod sync_result {
    #[crossmist::main]
    fn main() -> std::io::Result<()> {
        crate::user::result()
    }
}

pub mod sync_boxed {
    #[crossmist::main]
    fn main() -> Result<(), Box<dyn std::error::Error>> {
        crate::user::boxed()
    }
}

pub mod sync_code {
    #[crossmist::main]
    fn main() -> std::process::ExitCode {
        crate::user::code()
    }
}

pub mod sync_result_code {
    #[crossmist::main]
    fn main() -> Result<std::process::ExitCode, String> {
        crate::user::result_code()
    }
}

pub mod sync_items {
    #[crossmist::main]
    fn main() {
        fn inner() {
            crate::user::unit()
        }
        inner()
    }
}

pub mod sync_attributes {
    /// Documented
    #[crossmist::main]
    #[allow(unused_variables)]
    #[inline(never)]
    fn main() {
        let x = 5;
        crate::user::unit()
    }
}

pub mod sync_repeated {
    #[crossmist::main]
    fn main() {
        crossmist::init();
        crate::user::unit()
    }
}

pub mod sync_renamed {
    use crossmist::main as entry;
    #[entry]
    fn main() {
        crate::user::unit()
    }
}

pub mod sync_shadowed {
    fn init() {
        crate::user::before();
    }
    #[crossmist::main]
    fn main() {
        crate::user::unit()
    }
}

pub mod tokio_unit {
    #[crossmist::main]
    #[tokio::main(flavor = "current_thread")]
    async fn main() {
        crate::user::unit()
    }
}

pub mod tokio_threads {
    #[crossmist::main]
    #[tokio::main]
    async fn main() {
        crate::user::unit()
    }
}

pub mod tokio_result {
    #[crossmist::main]
    #[tokio::main(flavor = "current_thread")]
    async fn main() -> std::io::Result<()> {
        crate::user::result()
    }
}

pub mod smol_unit {
    #[crossmist::main]
    #[macro_rules_attribute::apply(smol_macros::main!)]
    async fn main() {
        crate::user::unit()
    }
}

pub mod smol_result {
    #[crossmist::main]
    #[macro_rules_attribute::apply(smol_macros::main!)]
    async fn main() -> std::io::Result<()> {
        crate::user::result()
    }
}
