//! Recording stand-in for the log4rs API surface starry uses.  Nothing is
//! written anywhere; the configuration an application ends up with is kept and
//! can be asked where a message would go, by log4rs' documented rules (the
//! logger whose name is the longest prefix of the target at `::` decides by its
//! level; its appenders are its own and, if it is additive, those of the next
//! shorter one; without any, the root).
pub struct Handle;
impl Handle {
    pub fn set_config(&self, c: config::Config) {
        record::set(c)
    }
}
#[derive(Debug)]
pub struct SetLoggerError;
pub fn init_config(c: config::Config) -> Result<Handle, SetLoggerError> {
    record::set(c);
    Ok(Handle)
}
pub mod record {
    use crate::config::Config;
    use std::sync::Mutex;
    static CURRENT: Mutex<Option<Config>> = Mutex::new(None);
    pub(crate) fn set(c: Config) {
        *CURRENT.lock().unwrap_or_else(|e| e.into_inner()) = Some(c);
    }
    pub fn current() -> Option<Config> {
        CURRENT.lock().unwrap_or_else(|e| e.into_inner()).clone()
    }
    #[derive(Clone, Debug, PartialEq)]
    pub struct File {
        pub path: String,
        pub append: bool,
        pub limit: u64,
        pub pattern: String,
        pub count: u32,
    }
    #[derive(Clone, Debug, PartialEq)]
    pub enum Sink {
        Console,
        File(File),
        Nothing,
    }
    fn above(name: &str, target: &str) -> bool {
        target == name || (target.starts_with(name) && target[name.len()..].starts_with("::"))
    }
    impl Config {
        /// the sinks of a message
        pub fn sinks(&self, target: &str, level: log::Level) -> Vec<Sink> {
            let mut on: Vec<&crate::config::Logger> = self.loggers.iter().filter(|l| above(&l.name, target)).collect();
            on.sort_by(|a, b| b.name.len().cmp(&a.name.len()));
            let mut names: Vec<String> = vec![];
            let enough;
            let mut root = true;
            match on.first() {
                Some(l) => enough = level <= l.level,
                None => enough = level <= self.root.level,
            }
            if !enough {
                return vec![];
            }
            for l in on {
                names.extend(l.appenders.iter().cloned());
                if !l.additive {
                    root = false;
                    break;
                }
            }
            if root {
                names.extend(self.root.appenders.iter().cloned());
            }
            names.iter().map(|n| self.appenders.iter().find(|a| a.name == *n).map(|a| a.sink.clone()).unwrap_or(Sink::Nothing)).collect()
        }
    }
}
pub mod encode {
    pub mod json {
        #[derive(Default, Debug)]
        pub struct JsonEncoder;
    }
    pub mod pattern {
        #[derive(Default, Debug)]
        pub struct PatternEncoder;
        impl PatternEncoder {
            pub fn new(_p: &str) -> Self { PatternEncoder }
        }
    }
}
pub mod append {
    use crate::record::Sink;
    pub trait Append {
        fn sink(&self) -> Sink;
    }
    pub mod console {
        #[derive(Debug)]
        pub struct ConsoleAppender;
        impl super::Append for ConsoleAppender {
            fn sink(&self) -> super::Sink { super::Sink::Console }
        }
        pub struct B;
        impl ConsoleAppender { pub fn builder() -> B { B } }
        impl B {
            pub fn encoder<T>(self, _e: Box<T>) -> B { B }
            pub fn build(self) -> ConsoleAppender { ConsoleAppender }
        }
    }
    pub mod rolling_file {
        use crate::record::{File, Sink};
        #[derive(Debug)]
        pub struct RollingFileAppender(File);
        impl super::Append for RollingFileAppender {
            fn sink(&self) -> Sink { Sink::File(self.0.clone()) }
        }
        pub struct B(bool);
        impl RollingFileAppender { pub fn builder() -> B { B(true) } }
        impl B {
            pub fn append(self, b: bool) -> B { B(b) }
            pub fn encoder<T>(self, _e: Box<T>) -> B { self }
            pub fn build<P: AsRef<std::path::Path>>(self, p: P, t: Box<policy::compound::CompoundPolicy>) -> std::io::Result<RollingFileAppender> {
                Ok(RollingFileAppender(File { path: p.as_ref().to_string_lossy().to_string(), append: self.0, limit: t.limit, pattern: t.pattern, count: t.count }))
            }
        }
        pub mod policy {
            pub mod compound {
                #[derive(Debug)]
                pub struct CompoundPolicy { pub(crate) limit: u64, pub(crate) pattern: String, pub(crate) count: u32 }
                impl CompoundPolicy {
                    pub fn new(a: Box<trigger::size::SizeTrigger>, b: Box<roll::fixed_window::FixedWindowRoller>) -> Self {
                        CompoundPolicy { limit: a.0, pattern: b.0, count: b.1 }
                    }
                }
                pub mod roll { pub mod fixed_window {
                    #[derive(Debug)]
                    pub struct FixedWindowRoller(pub(crate) String, pub(crate) u32);
                    pub struct B;
                    impl FixedWindowRoller { pub fn builder() -> B { B } }
                    impl B {
                        pub fn base(self, _b: u32) -> B { self }
                        pub fn build(self, p: &str, c: u32) -> Result<FixedWindowRoller, String> {
                            if !p.contains("{}") {
                                return Err("pattern does not contain `{}`".to_string());
                            }
                            Ok(FixedWindowRoller(p.to_string(), c))
                        }
                    }
                }}
                pub mod trigger { pub mod size {
                    #[derive(Debug)]
                    pub struct SizeTrigger(pub(crate) u64);
                    impl SizeTrigger { pub fn new(s: u64) -> Self { SizeTrigger(s) } }
                }}
            }
        }
    }
}
pub mod config {
    use crate::record::Sink;
    #[derive(Debug)]
    pub struct Errors;
    #[derive(Debug, Clone)]
    pub struct Config { pub appenders: Vec<Appender>, pub loggers: Vec<Logger>, pub root: Root }
    pub struct CB { appenders: Vec<Appender>, loggers: Vec<Logger> }
    impl Config { pub fn builder() -> CB { CB { appenders: vec![], loggers: vec![] } } }
    impl CB {
        pub fn appender(mut self, a: Appender) -> CB { self.appenders.push(a); self }
        pub fn appenders<I: IntoIterator<Item = Appender>>(mut self, a: I) -> CB { self.appenders.extend(a); self }
        pub fn logger(mut self, a: Logger) -> CB { self.loggers.push(a); self }
        pub fn loggers<I: IntoIterator<Item = Logger>>(mut self, a: I) -> CB { self.loggers.extend(a); self }
        pub fn build_lossy(self, mut root: Root) -> (Config, Errors) {
            let mut appenders: Vec<Appender> = vec![];
            for a in self.appenders {
                if !appenders.iter().any(|b| b.name == a.name) {
                    appenders.push(a);
                }
            }
            root.appenders.retain(|n| appenders.iter().any(|a| a.name == *n));
            let mut loggers: Vec<Logger> = vec![];
            for mut l in self.loggers {
                if logger_name(&l.name) && !loggers.iter().any(|m| m.name == l.name) {
                    l.appenders.retain(|n| appenders.iter().any(|a| a.name == *n));
                    loggers.push(l);
                }
            }
            (Config { appenders, loggers, root }, Errors)
        }
        pub fn build(self, root: Root) -> Result<Config, Errors> {
            for (i, a) in self.appenders.iter().enumerate() {
                if self.appenders[..i].iter().any(|b| b.name == a.name) {
                    return Err(Errors);
                }
            }
            for (i, l) in self.loggers.iter().enumerate() {
                if !logger_name(&l.name) || self.loggers[..i].iter().any(|m| m.name == l.name) {
                    return Err(Errors);
                }
            }
            let known = |n: &String| self.appenders.iter().any(|a| a.name == *n);
            if !root.appenders.iter().all(known) || !self.loggers.iter().all(|l| l.appenders.iter().all(known)) {
                return Err(Errors);
            }
            Ok(Config { appenders: self.appenders, loggers: self.loggers, root })
        }
    }
    fn logger_name(n: &str) -> bool {
        let mut streak = 0;
        for b in n.bytes() {
            if b == b':' {
                streak += 1;
                if streak > 2 {
                    return false;
                }
            } else {
                if streak == 1 {
                    return false;
                }
                streak = 0;
            }
        }
        !n.is_empty() && streak == 0
    }
    #[derive(Debug, Clone)]
    pub struct Appender { pub name: String, pub sink: Sink }
    pub struct AB;
    impl Appender { pub fn builder() -> AB { AB } }
    impl AB {
        pub fn build<T: Into<String>>(self, n: T, a: Box<dyn crate::append::Append>) -> Appender { Appender { name: n.into(), sink: a.sink() } }
    }
    #[derive(Debug, Clone)]
    pub struct Logger { pub name: String, pub appenders: Vec<String>, pub additive: bool, pub level: log::LevelFilter }
    pub struct LB { appenders: Vec<String>, additive: bool }
    impl Logger { pub fn builder() -> LB { LB { appenders: vec![], additive: true } } }
    impl LB {
        pub fn appender<T: Into<String>>(mut self, n: T) -> LB { self.appenders.push(n.into()); self }
        pub fn additive(mut self, b: bool) -> LB { self.additive = b; self }
        pub fn build<T: Into<String>>(self, n: T, l: log::LevelFilter) -> Logger { Logger { name: n.into(), appenders: self.appenders, additive: self.additive, level: l } }
    }
    #[derive(Debug, Clone)]
    pub struct Root { pub appenders: Vec<String>, pub level: log::LevelFilter }
    #[derive(Clone)]
    pub struct RB(Vec<String>);
    impl Root { pub fn builder() -> RB { RB(vec![]) } }
    impl RB {
        pub fn appender<T: Into<String>>(mut self, n: T) -> RB { self.0.push(n.into()); self }
        pub fn build(self, l: log::LevelFilter) -> Root { Root { appenders: self.0, level: l } }
    }
}
