//! Programs that use the library: copies of those under `koopa/examples` with
//! their own mistakes corrected (see `/verif/examples-fixes`). What they call
//! outside (libraries loaded at run time) is replaced by `World`.
#![allow(dead_code)]
use std::cell::RefCell;

pub mod const_fold {
    include!("clients/const_fold.rs");
}
pub mod dce {
    include!("clients/dce.rs");
}
pub mod interpreter {
    include!("clients/interpreter.rs");
}
pub mod brainfuck {
    include!("clients/brainfuck.rs");

    #[derive(PartialEq, Debug)]
    pub enum Fail {
        Parse,
        Io(io::ErrorKind),
        Other,
    }
    impl From<Error> for Fail {
        fn from(e: Error) -> Fail {
            match e {
                Error::Parse => Fail::Parse,
                Error::Io(e) => Fail::Io(e.kind()),
                _ => Fail::Other,
            }
        }
    }
    pub fn compile<T: Read>(input: T) -> Result<Program, Fail> {
        Ok(build_program(input)?)
    }
    pub fn emit<T: Write>(p: &Program, output: T, llvm: bool) -> Result<(), Fail> {
        Ok(emit_ir(p, output, llvm)?)
    }
}

/// What a program talks to: the same questions get the same answers.
pub struct World {
    pub seed: u64,
    /// The call that fails, counted from zero.
    pub fail_at: Option<usize>,
    /// The library that cannot be loaded.
    pub no_libs: Option<usize>,
    pub loaded: Vec<usize>,
    pub unloaded: usize,
    /// The function found last.
    pub symbol: String,
    /// Arguments arrive as C functions see them.
    pub c: bool,
    pub log: Vec<String>,
    /// Answers of `@getchar`, then -1.
    pub input: Vec<i32>,
    pub taken: usize,
}
impl World {
    pub fn call(&mut self, name: &str, args: &[String]) -> Result<i32, ()> {
        if self.fail_at == Some(self.log.len()) {
            crate::core::fault(crate::core::F::CallFail);
            return Err(());
        }
        Ok(self.answer(name, args))
    }
    pub fn answer(&mut self, name: &str, args: &[String]) -> i32 {
        let n = self.log.len() as u64;
        let v = if name == "@getchar" {
            let v = self.input.get(self.taken).copied().unwrap_or(-1);
            self.taken += 1;
            v
        } else {
            let h = crate::core::mix(self.seed ^ n.wrapping_mul(0x1234567));
            match h % 8 {
                0 => i32::MAX,
                1 => i32::MIN,
                2..=5 => (h >> 8) as i32 % 5,
                _ => (h >> 16) as i32,
            }
        };
        self.log.push(format!("{name}({})", args.join(",")));
        v
    }
}
pub const BUF: usize = 8;
pub const PAGES: usize = 4;
pub const ROWS: usize = 2;
pub const COLS: usize = 3;
pub const LINKS: usize = 4;
const GUARD: u64 = 0x5eed_0f00_d1ce_cafe;

/// The memory that functions outside hand out.
#[repr(C)]
pub struct Memory {
    guard0: [u64; 8],
    pub buf: [i32; BUF],
    guard1: [u64; 8],
    pub grid: [[[i32; COLS]; ROWS]; PAGES],
    guard2: [u64; 8],
    pub link: [*const i32; LINKS],
    guard3: [u64; 8],
}
impl Memory {
    pub fn new(w: &World) -> Box<Memory> {
        let mut m = Box::new(Memory {
            guard0: [GUARD; 8],
            buf: std::array::from_fn(|k| w.cell(k)),
            guard1: [GUARD; 8],
            grid: std::array::from_fn(|h| std::array::from_fn(|i| std::array::from_fn(|j| w.cell(BUF + (h * ROWS + i) * COLS + j)))),
            guard2: [GUARD; 8],
            link: [std::ptr::null(); LINKS],
            guard3: [GUARD; 8],
        });
        for k in 0..LINKS {
            m.link[k] = &m.buf[k * 2];
        }
        m
    }
    pub fn holds(&self, p: *const i32) -> bool {
        let (p, a) = (p as usize, self as *const Memory as usize);
        (a..a + size_of::<Memory>()).contains(&p)
    }
    /// The contents, and whether only they changed.
    pub fn cells(&self) -> (Vec<Option<i32>>, bool) {
        let base = self.buf.as_ptr() as usize;
        let nums = self.buf.iter().chain(self.grid.iter().flatten().flatten()).map(|v| Some(*v));
        let links = self.link.iter().map(|p| match *p as usize {
            0 => Some(-1),
            p if (base..base + BUF * 4).contains(&p) && (p - base) % 4 == 0 => Some(((p - base) / 4) as i32),
            p => {
                let base = self.grid.as_ptr() as usize;
                ((base..base + size_of_val(&self.grid)).contains(&p)).then_some(None).unwrap_or(Some(-2))
            }
        });
        let whole = [&self.guard0, &self.guard1, &self.guard2, &self.guard3].iter().all(|g| g.iter().all(|x| *x == GUARD));
        (nums.chain(links).collect(), whole)
    }
}
impl World {
    pub fn cell(&self, k: usize) -> i32 {
        (crate::core::mix(self.seed ^ 0xce11 ^ ((k as u64) << 20)) >> 7) as i32 % 100
    }
}

thread_local! {
    /// Keeps its place while a program runs.
    pub static MEMORY: RefCell<Option<Box<Memory>>> = const { RefCell::new(None) };
    pub static WORLD: RefCell<Option<World>> = const { RefCell::new(None) };
}

/// Loads and calls functions in libraries; `libloading` is replaced.
pub mod ext_funcs {
    include!("clients/ext_funcs.rs");

    mod libloading {
        use crate::client::{outside, World, WORLD};
        use std::marker::PhantomData;
        pub use String as Error;

        pub struct Library {
            number: usize,
        }
        #[derive(Clone)]
        pub struct Symbol<'a, T>(T, PhantomData<&'a ()>);
        impl<T> std::ops::Deref for Symbol<'_, T> {
            type Target = T;
            fn deref(&self) -> &T {
                &self.0
            }
        }
        fn world<T>(f: impl FnOnce(&mut World) -> T) -> T {
            WORLD.with(|w| f(w.borrow_mut().as_mut().unwrap()))
        }
        impl Library {
            pub unsafe fn new(file: &String) -> Result<Library, Error> {
                let number = file.bytes().filter(u8::is_ascii_digit).fold(0, |n, d| n * 10 + (d - b'0') as usize);
                world(|w| {
                    if w.no_libs == Some(number) {
                        crate::core::fault(crate::core::F::CallFail);
                        return Err(format!("library {number} cannot be loaded"));
                    }
                    w.loaded.push(number);
                    Ok(Library { number })
                })
            }
            pub unsafe fn get<T: Copy>(&self, name: &[u8]) -> Result<Symbol<'_, T>, Error> {
                const { assert!(size_of::<T>() == size_of::<*const ()>()) };
                let name = format!("@{}", String::from_utf8_lossy(name.strip_suffix(b"\0").unwrap_or(b"unfinished")));
                world(|w| {
                    // every function is in one library, or in all, where the first counts
                    if w.fail_at == Some(w.log.len()) {
                        if self.number + 1 == w.loaded.len() {
                            crate::core::fault(crate::core::F::CallFail);
                        }
                        return Err("no such symbol".into());
                    }
                    if w.loaded.len() > 1 && crate::core::mix(w.seed ^ name.len() as u64) as usize % w.loaded.len() != self.number {
                        return Err("no such symbol".into());
                    }
                    let Some(f) = outside::symbol(&name) else { return Err("no such symbol".into()) };
                    w.symbol = name;
                    Ok(Symbol(unsafe { std::mem::transmute_copy(&f) }, PhantomData))
                })
            }
        }
        impl Drop for Library {
            fn drop(&mut self) {
                WORLD.with(|w| {
                    if let Some(w) = w.borrow_mut().as_mut() {
                        w.unloaded += 1;
                    }
                });
            }
        }
    }
}

/// The functions in the libraries, called as C functions are.
mod outside {
    use super::{Memory, BUF, LINKS, MEMORY, PAGES, WORLD};
    use std::ptr::null;

    fn hear(args: &[String]) -> i32 {
        WORLD.with(|w| {
            let mut w = w.borrow_mut();
            let w = w.as_mut().unwrap();
            let name = std::mem::take(&mut w.symbol);
            w.answer(&name, args)
        })
    }
    fn memory<T>(n: usize, f: impl FnOnce(&Memory, usize) -> *const T) -> *const T {
        let k = hear(&[]).rem_euclid(n as i32 + 1) as usize;
        MEMORY.with(|m| match m.borrow().as_ref() {
            Some(m) if k < n => f(m, k),
            _ => null(),
        })
    }
    extern "C" fn number() -> i32 {
        hear(&[])
    }
    extern "C" fn one(a: i32) -> i32 {
        hear(&[a.to_string()])
    }
    extern "C" fn two(a: i32, b: i32) -> i32 {
        hear(&[a.to_string(), b.to_string()])
    }
    extern "C" fn buf() -> *const i32 {
        memory(BUF, |m, k| &m.buf[k])
    }
    extern "C" fn grid() -> *const [[i32; super::COLS]; super::ROWS] {
        memory(PAGES, |m, k| &m.grid[k])
    }
    extern "C" fn link() -> *const *const i32 {
        memory(LINKS, |m, k| &m.link[k])
    }
    extern "C" fn peek(p: *const i32) -> i32 {
        let known = MEMORY.with(|m| m.borrow().as_ref().is_some_and(|m| m.holds(p)));
        hear(&[match p.is_null() {
            true => "null".into(),
            _ if known => format!("*{}", unsafe { *p }),
            _ => "*?".into(),
        }])
    }
    macro_rules! many {
        ($($a:ident)*) => {
            // those beyond the ones passed are not looked at
            extern "C" fn many($($a: i32),*) -> i32 {
                let n = WORLD.with(|w| w.borrow().as_ref().map_or(0, |w| w.symbol[5..].parse().unwrap_or(0)));
                let all = [$($a),*].map(|a| a.to_string());
                hear(&all[..n])
            }
        };
    }
    many!(a0 a1 a2 a3 a4 a5 a6 a7 a8 a9 a10 a11 a12 a13 a14 a15 a16 a17 a18 a19 a20 a21 a22 a23 a24 a25 a26 a27);
    pub fn symbol(name: &str) -> Option<*const ()> {
        Some(match name {
            "@in" | "@getchar" => number as *const (),
            "@out" | "@putchar" => one as *const (),
            "@mix" => two as *const (),
            "@buf" => buf as *const (),
            "@grid" => grid as *const (),
            "@link" => link as *const (),
            "@peek" => peek as *const (),
            n if n.starts_with("@many") => many as *const (),
            _ => return None,
        })
    }
}
